//! R05 imported scenes have everything that is in their files
use crate::cast::{arr, cross, dot, len, sub};
use crate::geom::{dist, pt};
use crate::mats::{colour, same};
use crate::poly::{area2, shape, Holed, Pl};
use fw::*;
use geometry::{DistantSource3D, Point3D, Sphere3D, Vector3D};
use model::Model;
use rendering::material::Material;
use rendering::primitive::Primitive;
use rendering::triangle::Triangle;
use rendering::{Scene, SceneElement, SimpleModelReader, Spectrum, Wavelengths};
use serde_json::{json, Value};

type P2 = (f64, f64);
fn corner(t: &Triangle, i: usize) -> Point3D {
    Point3D::new(t[3 * i], t[3 * i + 1], t[3 * i + 2])
}
/// The triangles cover a polygon exactly, and face its way
fn tiles(what: &dyn Fn() -> String, tri: &[Triangle], h: &Holed, tol: f64) -> R {
    let n = if area2(&h.outer) > 0. { h.pl.n } else { h.pl.n * -1. };
    let mut sum = 0.;
    for t in tri {
        let v = [corner(t, 0), corner(t, 1), corner(t, 2)];
        let q: Vec<P2> = v.iter().map(|x| h.pl.back(*x)).collect();
        for (x, y) in v.iter().zip(&q) {
            ensure!(dist(h.pl.at(*y), *x) < tol, "plane", "{}: vertex {:?} is not on the plane", what(), x);
        }
        let w = cross(sub(arr(v[1]), arr(v[0])), sub(arr(v[2]), arr(v[0])));
        sum += len(w) / 2.;
        if len(w) < 1e-5 {
            continue;
        }
        ensure!(dot(w, [n.x, n.y, n.z]) > 0.99 * len(w), "orientation", "{}: triangle {:?} faces backwards", what(), q);
        let c = ((q[0].0 + q[1].0 + q[2].0) / 3., (q[0].1 + q[1].1 + q[2].1) / 3.);
        ensure!(h.inside(c) || h.edge_distance(c) < tol, "outside", "{}: triangle {:?} is out of the polygon", what(), q);
    }
    ensure!(close(sum, h.area(), tol, tol), "cover", "{}: {} triangles cover {} instead of {}", what(), tri.len(), sum, h.area());
    Ok(())
}
fn plain(s: &mut Src, convex: bool) -> Holed {
    let pl = Pl::gen(s);
    let mut p = shape(s, convex);
    if s.bool() {
        p.reverse();
    }
    Holed { pl, outer: p, holes: vec![] }
}
/// Whitespace, of several kinds
fn space(s: &mut Src) -> &'static str {
    *s.pick(&[" ", "\n", "\t", "  ", "\r\n", "\n\n   "])
}
fn number(s: &mut Src, v: f64) -> String {
    match s.us(0, 3) {
        0 => format!("{:e}", v),
        1 if v >= 0. => format!("+{:?}", v),
        _ => format!("{:?}", v),
    }
}
enum What {
    Material,
    Poly(Holed, usize),
    Same(Primitive, usize),
}
fn gray_or(s: &mut Src) -> Spectrum {
    if s.bool() {
        colour(s)
    } else {
        Spectrum::gray(s.f(0., 1.))
    }
}
/// the material that is expected: its kind, colour, and the rest of its parameters
#[derive(Debug)]
struct Mat {
    kind: &'static str,
    c: Spectrum,
    more: Vec<f64>,
}
fn is(m: &Material, e: &Mat) -> bool {
    let (kind, c, more) = match m {
        Material::Plastic(p) => ("plastic", p.colour, vec![p.specularity, p.roughness]),
        Material::Metal(p) => ("metal", p.colour, vec![p.specularity, p.roughness]),
        Material::Light(p) => ("light", p.0, vec![]),
        Material::Mirror(p) => ("mirror", p.0, vec![]),
        Material::Dielectric(p) => ("dielectric", p.colour, vec![p.refraction_index]),
        Material::Glass(p) => ("glass", p.colour, vec![p.refraction_index]),
        Material::Diffuse(p) => ("diffuse", p.colour, vec![]),
    };
    // without specularity, plastics and metals are plainly diffuse
    let matte = |k: &str, x: &[f64]| k == "diffuse" || ((k == "plastic" || k == "metal") && x[0] < 1e-5);
    if matte(kind, &more) && matte(e.kind, &e.more) {
        return same(c, e.c, 1e-12);
    }
    kind == e.kind && same(c, e.c, 1e-12) && more.len() == e.more.len() && more.iter().zip(&e.more).all(|(a, b)| close(*a, *b, 1e-12, 1e-12))
}
fn radiance(s: &mut Src) -> R {
    let mut tokens: Vec<String> = vec![];
    let mut ends = vec![0];
    let mut mats: Vec<Mat> = vec![];
    let mut names: Vec<String> = vec![];
    let mut objs: Vec<What> = vec![];
    let n = s.few(1, 10, 60);
    for i in 0..n {
        if mats.is_empty() || s.chance(1, 3) {
            let c = gray_or(s);
            let [r, g, b] = c.0;
            let (kind, args, more): (&'static str, Vec<f64>, Vec<f64>) = match s.us(0, 6) {
                k @ (0 | 1) => {
                    let sp = if s.chance(1, 3) { 0. } else { s.f(0.001, 0.3) };
                    let ro = if s.chance(1, 3) { 0. } else { s.f(0., 0.4) };
                    (if k == 0 { "plastic" } else { "metal" }, vec![r, g, b, sp, ro], vec![sp, ro])
                }
                2 => ("light", vec![r, g, b], vec![]),
                3 => ("mirror", vec![r, g, b], vec![]),
                4 => {
                    let (x, y) = (s.f(1., 2.5), s.f(0., 5.));
                    ("dielectric", vec![r, g, b, x, y], vec![x])
                }
                5 => ("glass", vec![r, g, b], vec![1.52]),
                _ => {
                    let x = s.f(1., 2.5);
                    ("glass", vec![r, g, b, x], vec![x])
                }
            };
            // one name may be the beginning of another
            let name = format!("{}{}{}", s.pick(&["m", "m1", "mat.", "void", "light", "0"]), if i > 9 { "_" } else { "" }, i);
            tokens.push(s.pick(&["void", "void", "other"]).to_string());
            tokens.push(kind.into());
            tokens.push(name.clone());
            tokens.push("0".into());
            tokens.push("0".into());
            tokens.push(format!("{}", args.len()));
            for a in args {
                let t = number(s, a);
                tokens.push(t);
            }
            mats.push(Mat { kind, c, more });
            names.push(name);
            objs.push(What::Material);
        } else {
            let k = s.us(0, mats.len() - 1);
            let (kind, args, w) = match s.us(0, 4) {
                0 if mats[k].kind == "light" => {
                    let (d, a) = (crate::geom::dir(s), s.f(0.1, 60.));
                    let l = s.f(0.2, 5.);
                    let d = d * l;
                    ("source", vec![d.x, d.y, d.z, a], What::Same(Primitive::Source(DistantSource3D::new(d, a.to_radians())), k))
                }
                1 => {
                    let c = pt(s, 20.);
                    let r = s.logf(0.1, 10.);
                    ("sphere", vec![c.x, c.y, c.z, r], What::Same(Primitive::Sphere(Sphere3D::new(r, c)), k))
                }
                _ => {
                    let h = plain(s, false);
                    let args = h.outer.iter().flat_map(|p| arr(h.pl.at(*p))).collect();
                    ("polygon", args, What::Poly(h, k))
                }
            };
            tokens.push(names[k].clone());
            tokens.push(kind.into());
            tokens.push(format!("o{}", i));
            tokens.push("0".into());
            tokens.push("0".into());
            tokens.push(format!("{}", args.len()));
            for a in args {
                let t = number(s, a);
                tokens.push(t);
            }
            objs.push(w);
        }
        ends.push(tokens.len());
    }
    let mut src = if s.bool() { space(s).to_string() } else { String::new() };
    let seps: Vec<&str> = (0..tokens.len()).map(|_| space(s)).collect();
    for (i, t) in tokens.iter().enumerate() {
        src += t;
        if i + 1 < tokens.len() || s.bool() {
            src += seps[i];
        }
    }
    s.nontrivial_if(objs.iter().any(|o| !matches!(o, What::Material)) && mats.len() > 1);
    s.note(|| src.clone());
    let scene = match Scene::from_radiance_source(src.as_bytes()) {
        Ok(x) => x,
        Err(e) => bail!("rejected", "{:?} is rejected: {}", src, e),
    };
    ensure!(scene.materials.len() == mats.len(), "materials", "{} materials in {:?}", scene.materials.len(), src);
    let mut expected = Scene::new();
    for (m, e) in scene.materials.iter().zip(&mats) {
        ensure!(is(m, e), "material", "{:?} instead of {:?} in {:?}", m, e, src);
        expected.push_material(m.clone());
    }
    let mut at = 0;
    let (mut near, mut far) = (0, 0);
    for o in &objs {
        match o {
            What::Material => {}
            What::Same(p, k) => {
                expected.push_object(*k, *k, p.clone());
                let n = expected.triangles.len();
                expected.triangles.clear();
                ensure!(scene.triangles.len() >= at + n, "missing", "{} triangles in {:?}", scene.triangles.len(), src);
                ensure!((at..at + n).all(|i| scene.front_material_indexes[i] == *k && scene.back_material_indexes[i] == *k), "modifier", "an object has another material in {:?}", src);
                match p {
                    Primitive::Source(d) => {
                        ensure!(far < scene.distant_lights.len(), "sources", "{} sources in {:?}", scene.distant_lights.len(), src);
                        let l = &scene.distant_lights[far];
                        far += 1;
                        let ok = l.front_material_index == *k && l.back_material_index == *k && matches!(&l.primitive, Primitive::Source(x) if (x.direction - d.direction).length() < 1e-9 && close(x.angle, d.angle, 1e-9, 0.));
                        ensure!(ok, "source", "another source instead of {:?}, in {:?}", d, src);
                    }
                    _ => {
                        for i in 0..n {
                            for j in 0..3 {
                                let c = corner(&scene.triangles[at + i], j);
                                if let Primitive::Sphere(x) = p {
                                    ensure!(close(dist(c, x.centre()), x.radius, 1e-6, 0.), "sphere", "{:?} is not on {:?} in {:?}", c, x, src);
                                }
                            }
                        }
                        if mats[*k].kind == "light" {
                            near += 1;
                        }
                    }
                }
                at += n;
            }
            What::Poly(h, k) => {
                let n = h.outer.len() - 2;
                ensure!(scene.triangles.len() >= at + n, "missing", "{} triangles in {:?}", scene.triangles.len(), src);
                tiles(&|| src.clone(), &scene.triangles[at..at + n], h, 1e-6)?;
                ensure!((at..at + n).all(|i| scene.front_material_indexes[i] == *k && scene.back_material_indexes[i] == *k), "modifier", "an object has another material in {:?}", src);
                at += n;
                if mats[*k].kind == "light" {
                    near += n;
                }
            }
        }
    }
    ensure!(at == scene.triangles.len() && near == scene.lights.len() && far == scene.distant_lights.len(), "extra", "{} triangles, {} lights and {} sources in {:?}", scene.triangles.len(), scene.lights.len(), scene.distant_lights.len(), src);
    // incomplete: either an error or a panic, but not a scene
    let k = s.us(1, tokens.len());
    if !ends.contains(&k) {
        let cut = tokens[..k].join(" ");
        let r = std::panic::catch_unwind(|| Scene::from_radiance_source(cut.as_bytes()).is_ok());
        ensure!(!matches!(r, Ok(true)), "truncated", "{:?} is not complete, but it was accepted", cut);
    }
    // objects with a modifier that is not there
    if !names.is_empty() {
        let bad = format!("{} nobody sphere x 0 0 4 0 0 0 1", src).replace(" nobody sphere", "\nnobody sphere");
        let r = std::panic::catch_unwind(|| Scene::from_radiance_source(bad.as_bytes()).is_ok());
        ensure!(!matches!(r, Ok(true)), "modifier-missing", "{:?} has an unknown modifier", bad);
    }
    Ok(())
}
fn obj(s: &mut Src) -> R {
    let mut vs: Vec<Point3D> = vec![];
    let mut out = String::from("# a file\nmtllib none.mtl\n");
    let mut faces: Vec<Holed> = vec![];
    let (mut nt, mut nn) = (0, 0);
    for i in 0..s.few(1, 6, 40) {
        let h = plain(s, true);
        let style = s.us(0, 3);
        let first = vs.len();
        for p in &h.outer {
            let p = h.pl.at(*p);
            out += &format!("v {} {} {}\n", p.x, p.y, p.z);
            vs.push(p);
        }
        if style == 1 || style == 3 {
            out += "vt 0.5 0.25\n";
            nt += 1;
        }
        if style >= 2 {
            let n = h.pl.n * if area2(&h.outer) > 0. { 1. } else { -1. };
            out += &format!("vn {} {} {}\n", n.x, n.y, n.z);
            nn += 1;
        }
        if s.chance(1, 3) {
            out += &format!("g group{}\n", i);
        }
        if s.chance(1, 3) {
            out += "usemtl something\n";
        }
        out += "f";
        // starting from any of its vertices
        let k = s.us(0, h.outer.len() - 1);
        for x in 0..h.outer.len() {
            let v = first + (x + k) % h.outer.len() + 1;
            out += &match style {
                0 => format!(" {}", v),
                1 => format!(" {}/{}", v, nt),
                2 => format!(" {}//{}", v, nn),
                _ => format!(" {}/{}/{}", v, nt, nn),
            };
        }
        out += "\n";
        faces.push(h);
    }
    s.nontrivial_if(faces.len() > 1);
    s.note(|| out.clone());
    let mut scene = Scene::new();
    let pre = s.us(0, 2);
    for _ in 0..pre + 2 {
        let c = colour(s);
        scene.push_material(Material::Mirror(rendering::material::Mirror(c)));
    }
    scene.add_from_obj_source(out.as_bytes(), pre, pre + 1);
    let n: usize = faces.iter().map(|h| h.outer.len() - 2).sum();
    ensure!(scene.triangles.len() == n && scene.front_material_indexes == vec![pre; n] && scene.back_material_indexes == vec![pre + 1; n], "faces", "{} triangles instead of {} in {}", scene.triangles.len(), n, out);
    // files are read in single precision; faces may be in any order
    let mut left: Vec<Triangle> = scene.triangles.clone();
    for h in &faces {
        let m = h.outer.len() - 2;
        let corners: Vec<Point3D> = h.outer.iter().map(|p| h.pl.at(*p)).collect();
        let belongs = |t: &Triangle| (0..3).all(|i| corners.iter().any(|c| dist(*c, corner(t, i)) < 1e-4));
        let mine: Vec<Triangle> = left.iter().filter(|t| belongs(t)).cloned().collect();
        ensure!(mine.len() == m, "face", "{} triangles instead of {} in face {:?} of {}", mine.len(), m, h.outer, out);
        left.retain(|t| !belongs(t));
        tiles(&|| out.clone(), &mine, h, 3e-3)?;
    }
    Ok(())
}
fn verts(h: &Holed) -> Vec<f64> {
    h.outer.iter().flat_map(|p| arr(h.pl.at(*p))).collect()
}
/// what light does when it hits a substance
#[derive(Clone, Debug)]
struct Sub {
    front: Option<f64>,
    back: Option<f64>,
    tau: Option<f64>,
}
fn reflects(what: &str, m: &Material, x: &Sub, front: bool) -> R {
    match x.tau {
        Some(t) if t > 0.05 => {
            let g = match m {
                Material::Glass(g) => g,
                _ => bail!("glass", "{}: {:?} instead of a glass", what, m),
            };
            // its transmittance, at normal incidence
            let r = ((g.refraction_index - 1.) / (g.refraction_index + 1.)).powi(2);
            for c in g.colour.0 {
                let tt = c * (1. - r).powi(2) / (1. - (r * c).powi(2));
                ensure!(close(tt, t, 0.005, 0.), "transmittance", "{}: it transmits {} instead of {}", what, tt, t);
            }
        }
        _ => {
            ensure!(matches!(m, Material::Plastic(p) if p.specularity == 0.) || matches!(m, Material::Diffuse(_)), "opaque", "{}: {:?} instead of something opaque and matte", what, m);
            let a = if front { x.front } else { x.back.or(x.front) };
            let (e, guess) = (1. - a.unwrap_or(0.7), !front && x.back.is_none());
            let ok = |e: f64| same(m.colour(), Spectrum::gray(e), 1e-9);
            // the reflectance of a back that has none may also be the default
            ensure!(ok(e) || (guess && ok(0.3)), "reflectance", "{}: {:?} instead of a reflectance of {}", what, m, e);
        }
    }
    Ok(())
}
fn simple(s: &mut Src) -> R {
    let mut j = json!({"buildings":[],"spaces":[],"substances":[],"materials":[],"constructions":[],"surfaces":[],"fenestrations":[],"hvacs":[],"luminaires":[],"site_details":null});
    let push = |j: &mut Value, k: &str, v: Value| j[k].as_array_mut().unwrap().push(v);
    let mut subs = vec![];
    for i in 0..s.few(1, 4, 20) {
        let mut opt = |p: u64| if s.chance(p, 4) { Some(s.f(0., 1.)) } else { None };
        let (front, back) = (opt(3), opt(3));
        let tau = if s.chance(1, 3) { Some(if s.chance(1, 4) { 0. } else { s.f(0.06, 0.9) }) } else { None };
        let mut v = json!({"type":"Normal","name":format!("sub{}", i)});
        for (k, x) in [("front_solar_absorbtance", front), ("back_solar_absorbtance", back), ("solar_transmittance", tau)] {
            if let Some(x) = x {
                v[k] = json!(x);
            }
        }
        push(&mut j, "substances", v);
        push(&mut j, "materials", json!({"name":format!("mat{}", i),"substance":format!("sub{}", i),"thickness":0.1}));
        subs.push(Sub { front, back, tau });
    }
    let mut cons = vec![];
    for i in 0..s.few(1, 3, 20) {
        let l: Vec<usize> = (0..s.us(1, 3)).map(|_| s.us(0, subs.len() - 1)).collect();
        push(&mut j, "constructions", json!({"name":format!("c{}", i),"materials":l.iter().map(|k| format!("mat{}", k)).collect::<Vec<_>>()}));
        cons.push((l[0], l[l.len() - 1]));
    }
    let mut surfs = vec![];
    let mut fens = vec![];
    let out = json!({"type":"Outdoor"});
    for i in 0..s.few(1, 4, 20) {
        let h = if s.bool() { plain(s, false) } else { Holed::gen(s, 1) };
        let c = s.us(0, cons.len() - 1);
        push(&mut j, "surfaces", json!({"name":format!("w{}", i),"construction":format!("c{}", c),"vertices":verts(&h),"front_boundary":out,"back_boundary":out}));
        for x in &h.holes {
            let f = Holed { pl: h.pl, outer: x.clone(), holes: vec![] };
            fens.push((f, Some(i)));
        }
        surfs.push((h, c));
    }
    for _ in 0..s.us(0, 2) {
        let h = plain(s, false);
        fens.push((h, None));
    }
    let mut wins = vec![];
    for (i, (h, parent)) in fens.into_iter().enumerate() {
        let c = s.us(0, cons.len() - 1);
        let cat = *s.pick(&["Window", "Door", "Opening"]);
        let mut v = json!({"name":format!("f{}", i),"construction":format!("c{}", c),"vertices":verts(&h),"front_boundary":out,"back_boundary":out,"category":cat});
        if let Some(p) = parent {
            v["parent_surface"] = json!(format!("w{}", p));
        }
        push(&mut j, "fenestrations", v);
        wins.push((h, c, cat != "Opening"));
    }
    s.nontrivial_if(surfs.len() + wins.len() > 1);
    s.note(|| j.to_string());
    // surfaces with holes can only be written as text
    let mut text = String::new();
    for (k, ty) in [("substances", "Substance"), ("materials", "Material"), ("constructions", "Construction"), ("surfaces", "Surface"), ("fenestrations", "Fenestration")] {
        for v in j[k].as_array().unwrap() {
            text.push_str(&format!("{} {}\n", ty, serde_json::to_string_pretty(v).unwrap()));
        }
    }
    let (m, _) = Model::from_bytes(text.as_bytes())?;
    let mut reader = SimpleModelReader::default();
    let (scene, map) = match reader.build_scene(&m, &Wavelengths::Solar) {
        Ok(x) => x,
        Err(e) => bail!("rejected", "{}: {}", j, e),
    };
    ensure!(map.len() == scene.triangles.len() && scene.front_material_indexes.len() == map.len() && scene.back_material_indexes.len() == map.len(), "map", "{} triangles, {} in the map: {}", scene.triangles.len(), map.len(), j);
    ensure!(scene.lights.is_empty() && scene.distant_lights.is_empty() && scene.sky.is_none(), "lights", "{}", j);
    let mut seen = 0;
    let every = surfs.iter().enumerate().map(|(i, (h, c))| (SceneElement::Surface, i, h, *c, true)).chain(wins.iter().enumerate().map(|(i, (h, c, real))| (SceneElement::Fenestration, i, h, *c, *real)));
    for (kind, i, h, c, real) in every {
        let mine: Vec<usize> = (0..map.len()).filter(|k| map[*k] == (kind, i)).collect();
        seen += mine.len();
        let what = || format!("{:?} {} of {}", kind, i, j);
        if !real {
            ensure!(mine.is_empty(), "opening", "{} is an opening, but it is in the scene", what());
            continue;
        }
        let t: Vec<Triangle> = mine.iter().map(|k| scene.triangles[*k]).collect();
        tiles(&what, &t, h, 1e-6)?;
        for k in mine {
            reflects(&what(), &scene.materials[scene.front_material_indexes[k]], &subs[cons[c].0], true)?;
            reflects(&what(), &scene.materials[scene.back_material_indexes[k]], &subs[cons[c].1], false)?;
        }
    }
    ensure!(seen == map.len(), "extra", "{} triangles of something else in {}", map.len() - seen, j);
    Ok(())
}
pub fn r05() -> Property {
    Property {
        id: "R05",
        facets: vec![
            Facet::new("radiance", radiance, 3000, 300_000, "objects, and more than one material"),
            Facet::new("obj", obj, 3000, 300_000, "more than one face"),
            Facet::new("simple", simple, 3000, 300_000, "more than one surface or fenestration"),
        ],
        assumptions: vec![
            "the names of the modifiers in a Radiance file are unique, and there are no comments",
            "faces in OBJ files are convex",
            "a surface has up to one hole (triangulations may give up when there are more); transmittances are between 0.06 and 0.9, or zero",
        ],
    }
}
