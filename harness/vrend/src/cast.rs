//! R01 rays find the nearest surface
use crate::geom::{dir, pt};
use fw::*;
use geometry::intersection::SurfaceSide;
use geometry::{Point3D, Ray3D, Sphere3D, Triangle3D, Vector3D};
use rendering::material::{Diffuse, Light, Material, Mirror};
use rendering::primitive::Primitive;
use rendering::triangle::{mesh_sphere, triangle_area, world_bounds, Triangle};
use rendering::{Scene, Spectrum};
use std::f64::consts::PI;

type V = [f64; 3];
fn v(t: &Triangle, i: usize) -> V {
    [t[3 * i], t[3 * i + 1], t[3 * i + 2]]
}
pub fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
pub struct Hit {
    pub t: f64,
    /// the smallest baricentric coordinate
    pub margin: f64,
    /// how far from parallel
    pub a: f64,
    /// twice the area
    pub area2: f64,
}
/// Where a ray crosses the plane of a triangle, and how much inside of the triangle that is
pub fn hit(t: &Triangle, o: V, d: V) -> Option<Hit> {
    let (a, b, c) = (v(t, 0), v(t, 1), v(t, 2));
    let (e1, e2) = (sub(b, a), sub(c, a));
    let n = cross(e1, e2);
    let nn = dot(n, n);
    let den = dot(n, d);
    if nn < 1e-24 || den.abs() < 1e-14 {
        return None;
    }
    let tt = dot(n, sub(a, o)) / den;
    let p = [o[0] + tt * d[0], o[1] + tt * d[1], o[2] + tt * d[2]];
    let w = dot(cross(sub(b, a), sub(p, a)), n) / nn;
    let u = dot(cross(sub(c, b), sub(p, b)), n) / nn;
    let q = dot(cross(sub(a, c), sub(p, c)), n) / nn;
    Some(Hit { t: tt, margin: u.min(w).min(q), a: den.abs(), area2: nn.sqrt() })
}
pub fn arr(p: Point3D) -> V {
    [p.x, p.y, p.z]
}
pub fn arv(p: Vector3D) -> V {
    [p.x, p.y, p.z]
}
/// Many kinds of scenes, as triangles
pub fn soup(s: &mut Src) -> Vec<(Point3D, Point3D, Point3D)> {
    soup_of(s, true)
}
pub fn soup_of(s: &mut Src, closed: bool) -> Vec<(Point3D, Point3D, Point3D)> {
    let mut ret = vec![];
    for _ in 0..s.few(0, 4, 12) {
        match s.us(0, 5) {
            0 => {
                // anywhere, any size
                let size = s.logf(0.002, 20.);
                for _ in 0..s.few(1, 30, 600) {
                    let c = pt(s, 10.);
                    let (a, b) = (pt(s, size), pt(s, size));
                    ret.push((c, c + Vector3D::new(a.x, a.y, a.z), c + Vector3D::new(b.x, b.y, b.z)));
                }
            }
            1 | 2 => {
                // a grid in a plane, like a facade or a floor
                let (n, m, d) = (s.few(1, 8, 30), s.few(1, 8, 30), s.logf(0.1, 3.));
                let o = pt(s, 10.);
                let axis = s.us(0, 2);
                let p = |i: usize, j: usize| {
                    let (x, y) = (i as f64 * d, j as f64 * d);
                    match axis {
                        0 => Point3D::new(o.x, o.y + x, o.z + y),
                        1 => Point3D::new(o.x + x, o.y, o.z + y),
                        _ => Point3D::new(o.x + x, o.y + y, o.z),
                    }
                };
                for i in 0..n {
                    for j in 0..m {
                        ret.push((p(i, j), p(i + 1, j), p(i + 1, j + 1)));
                        ret.push((p(i, j), p(i + 1, j + 1), p(i, j + 1)));
                    }
                }
            }
            3 => {
                // a box
                let o = pt(s, 10.);
                let (x, y, z) = (s.f(0.2, 8.), s.f(0.2, 8.), s.f(0.2, 8.));
                let p = |k: usize| Point3D::new(o.x + if k & 1 > 0 { x } else { 0. }, o.y + if k & 2 > 0 { y } else { 0. }, o.z + if k & 4 > 0 { z } else { 0. });
                for (a, b, c, d) in [(0, 1, 3, 2), (4, 5, 7, 6), (0, 1, 5, 4), (2, 3, 7, 6), (0, 2, 6, 4), (1, 3, 7, 5)] {
                    if !closed && a == 4 {
                        continue;
                    }
                    ret.push((p(a), p(b), p(c)));
                    ret.push((p(a), p(c), p(d)));
                }
            }
            4 => {
                // several with the same bounds, or at least the same centre
                let c = pt(s, 10.);
                for _ in 0..s.few(2, 40, 400) {
                    let (a, b) = (s.f(0., 2. * PI), s.logf(0.3, 4.));
                    let w = Vector3D::new(a.cos() * b, a.sin() * b, s.f(-1., 1.));
                    let w2 = Vector3D::new(-a.sin() * b, a.cos() * b, 0.1);
                    ret.push((c + w, c - w, c + w2));
                }
            }
            _ => {
                // progressively farther
                let (mut x, d) = (s.f(0.1, 1.), dir(s));
                let o = pt(s, 3.);
                for _ in 0..s.us(3, 25) {
                    let p = o + d * x;
                    let (a, b) = (pt(s, x.min(5.)), pt(s, x.min(5.)));
                    ret.push((p, p + Vector3D::new(a.x, a.y, a.z), p + Vector3D::new(b.x, b.y, b.z)));
                    x *= s.f(1.05, 1.9);
                }
            }
        }
    }
    ret.retain(|(a, b, c)| {
        let n = cross(sub(arr(*b), arr(*a)), sub(arr(*c), arr(*a)));
        let l = sub(arr(*b), arr(*a)).iter().chain(sub(arr(*c), arr(*a)).iter()).fold(0., |m: f64, x| m.max(x.abs()));
        let l2 = len(sub(arr(*c), arr(*b)));
        len(n) > 1e-3 * l.max(l2).powi(2) && len(n) > 1e-7 && Triangle3D::new(*a, *b, *c).is_ok()
    });
    ret
}
pub struct Built {
    pub scene: Scene,
    /// triangles, normals and materials, as they were pushed
    pub tri: Vec<Triangle>,
    pub mats: Vec<(usize, usize)>,
    pub map: Vec<usize>,
}
pub fn build(s: &mut Src, t: &[(Point3D, Point3D, Point3D)]) -> Result<Built, Fail> {
    let mut scene = Scene::new();
    let n = s.us(1, 4);
    for i in 0..n {
        let c = Spectrum::gray(0.1 * i as f64);
        let m = match s.us(0, 2) {
            0 => Material::Diffuse(Diffuse { colour: c }),
            1 => Material::Mirror(Mirror(c)),
            _ => Material::Light(Light(c)),
        };
        ensure!(scene.push_material(m) == i, "material", "the position of the material is wrong");
    }
    let mut mats = vec![];
    for (a, b, c) in t {
        let m = (s.us(0, n - 1), s.us(0, n - 1));
        mats.push(m);
        scene.push_object(m.0, m.1, Primitive::Triangle(Triangle3D::new(*a, *b, *c)?));
    }
    let tri: Vec<Triangle> = scene.triangles.clone();
    ensure!(tri.len() == t.len(), "push", "{} triangles became {}", t.len(), tri.len());
    for (x, (a, b, c)) in tri.iter().zip(t) {
        ensure!(*x == [a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z], "push", "{} {} {} became {:?}", a, b, c, x);
    }
    let is_light: Vec<bool> = scene.materials.iter().map(|m| matches!(m, Material::Light(_))).collect();
    let lights = mats.iter().filter(|m| is_light[m.0] || is_light[m.1]).count();
    ensure!(scene.lights.len() == lights && scene.count_all_lights() == lights, "lights", "{} lights, not {}", scene.lights.len(), lights);
    let mut map = scene.build_accelerator();
    if s.chance(1, 8) {
        let m2 = scene.rebuild_accelerator();
        map = m2.iter().map(|i| map[*i]).collect();
    }
    Ok(Built { scene, tri, mats, map })
}
fn order(b: &Built) -> R {
    let n = b.tri.len();
    let mut seen = vec![false; n];
    ensure!(b.map.len() == n && b.scene.triangles.len() == n && b.scene.normals.len() == n && b.scene.front_material_indexes.len() == n && b.scene.back_material_indexes.len() == n, "order", "{} triangles became {}", n, b.scene.triangles.len());
    for (i, o) in b.map.iter().enumerate() {
        ensure!(*o < n && !seen[*o], "order", "the mapping is not a permutation: {:?}", b.map);
        seen[*o] = true;
        ensure!(b.scene.triangles[i] == b.tri[*o], "order", "triangle {} is not what was triangle {}", i, o);
        ensure!((b.scene.front_material_indexes[i], b.scene.back_material_indexes[i]) == b.mats[*o], "order_materials", "triangle {}, which was {}, changed its materials", i, o);
        let t = &b.tri[*o];
        let nn = cross(sub(v(t, 1), v(t, 0)), sub(v(t, 2), v(t, 0)));
        let l = len(nn);
        let m = b.scene.normals[i];
        for k in [m.0, m.1, m.2] {
            ensure!(close(k.x, nn[0] / l, 0., 1e-7) && close(k.y, nn[1] / l, 0., 1e-7) && close(k.z, nn[2] / l, 0., 1e-7), "order_normals", "triangle {}, which was {}, has normal {} but should be {:?}", i, o, k, nn);
        }
    }
    Ok(())
}
fn ray(s: &mut Src, b: &Built) -> Ray3D {
    let mut origin = pt(s, 15.);
    let mut direction = dir(s);
    let n = b.tri.len();
    if n > 0 && s.chance(2, 3) {
        // towards a point within a triangle
        let t = &b.tri[s.us(0, n - 1)];
        let (x, y) = (s.f(0.02, 0.96), s.f(0.02, 0.96));
        let (x, y) = if x + y > 0.98 { (0.3, 0.3) } else { (x, y) };
        let p = Point3D::new(
            t[0] + x * (t[3] - t[0]) + y * (t[6] - t[0]),
            t[1] + x * (t[4] - t[1]) + y * (t[7] - t[1]),
            t[2] + x * (t[5] - t[2]) + y * (t[8] - t[2]),
        );
        if s.chance(1, 4) {
            // from the surface itself
            origin = p;
        } else if s.chance(1, 3) {
            origin = p - direction * s.logf(0.01, 30.);
        } else {
            let d = p - origin;
            if d.length() > 1e-3 {
                direction = d.get_normalized();
            }
        }
    }
    Ray3D { origin, direction }
}
/// distances to whatever is certainly hit; and the closest that may be hit
fn brute(tri: &[Triangle], r: &Ray3D) -> Vec<(usize, f64, bool)> {
    let (o, d) = (arr(r.origin), arv(r.direction));
    let mut all = vec![];
    for (i, t) in tri.iter().enumerate() {
        if let Some(h) = hit(t, o, d) {
            if h.t > 5e-5 && h.margin > -1e-6 {
                all.push((i, h.t, h.t > 2e-3 && h.margin > 1e-6 && h.a > 1e-3 * h.area2));
            }
        }
    }
    all
}
fn nearest(s: &mut Src) -> R {
    let t = soup(s);
    let b = build(s, &t)?;
    s.note(|| format!("{:?}", b.tri));
    order(&b)?;
    let mut aux = [0; 32];
    let mut hits = 0;
    for _ in 0..s.us(1, 12) {
        let r = ray(s, &b);
        let all = brute(&b.tri, &r);
        let sure = all.iter().filter(|x| x.2).map(|x| x.1).fold(f64::MAX, f64::min);
        let what = || format!("from {} to {} among {:?}", r.origin, r.direction, b.tri);
        match b.scene.cast_ray(r, &mut aux) {
            None => ensure!(sure == f64::MAX, "missed", "the ray hits nothing but there is something at {}: {}", sure, what()),
            Some((i, x)) => {
                ensure!(i < b.map.len(), "index", "hit {} of {}", i, b.map.len());
                let o = b.map[i];
                let Some(h) = all.iter().find(|x| x.0 == o) else { bail!("phantom", "triangle {} was hit, but it is not in the way: {}", o, what()) };
                ensure!(h.1 <= sure + 1e-6 * (1. + sure.min(1e9)), "nearest", "triangle {} was hit at {} but there is another one at {}: {}", o, h.1, sure, what());
                let p = r.origin + r.direction * h.1;
                ensure!((p - x.point).length() < 1e-5 * (1. + h.1), "point", "the hit is at {} but should be at {}: {}", x.point, p, what());
                let g = &x.geometry_shading;
                ensure!((x.wo + r.direction).length() < 1e-12, "wo", "wo is {}: {}", x.wo, what());
                let tr = &b.tri[o];
                let n = cross(sub(v(tr, 1), v(tr, 0)), sub(v(tr, 2), v(tr, 0)));
                let l = len(n);
                let c = dot(n, arv(r.direction)) / l;
                if c.abs() > 1e-3 {
                    let (side, k) = if c < 0. { (SurfaceSide::Front, 1.) } else { (SurfaceSide::Back, -1.) };
                    ensure!(g.side == side, "side", "hit the {:?} of triangle {}, but it is the {:?}: {}", g.side, o, side, what());
                    ensure!(close(g.normal.x, k * n[0] / l, 0., 1e-7) && close(g.normal.y, k * n[1] / l, 0., 1e-7) && close(g.normal.z, k * n[2] / l, 0., 1e-7), "normal", "the normal is {} but should be {} {:?}: {}", g.normal, k, n, what());
                    let (a, c) = (g.dpdu, g.dpdv);
                    ensure!((a.length() - 1.).abs() < 1e-6 && (c.length() - 1.).abs() < 1e-6 && (a * c).abs() < 1e-6 && (a * g.normal).abs() < 1e-6 && (c * g.normal).abs() < 1e-6, "frame", "the local axes are {} {} {}: {}", a, c, g.normal, what());
                }
                hits += 1;
            }
        }
        // and how far can it go?
        let d = match s.us(0, 2) {
            0 => s.logf(0.01, 60.),
            1 if sure < f64::MAX => sure * s.f(0.5, 1.5),
            _ => 1e5,
        };
        // close to the end of the way does not count
        let near_end = |t: f64| (t * t - d * d).abs() < 3e-4 + 1e-9 * d * d;
        let blocked = all.iter().any(|x| x.2 && x.1 < d && !near_end(x.1));
        let maybe = all.iter().any(|x| x.1 < d || near_end(x.1));
        // several of them in the same place as the origin, or too close, may hide another one
        let unsure = all.iter().any(|x| x.1 <= 2e-3);
        let got = b.scene.unobstructed_distance(r, d * d, &mut aux);
        if blocked && !unsure {
            ensure!(!got, "unobstructed", "nothing within {} m, but there is something at {}: {}", d, sure, what());
        } else if !maybe {
            ensure!(got, "obstructed", "something within {} m, but there is nothing: {}", d, what());
        }
    }
    s.nontrivial_if(b.tri.len() > 4 && hits > 0);
    Ok(())
}
/// A sphere becomes triangles around it, facing out
fn spheres(s: &mut Src) -> R {
    let (c, r) = (pt(s, 10.), s.logf(0.05, 20.));
    let sp = Sphere3D::new(r, c);
    let (t, n) = mesh_sphere(&sp);
    s.nontrivial();
    s.note(|| format!("{} {}", c, r));
    ensure!(t.len() == n.len() && t.len() >= 100, "count", "{} triangles and {} normals", t.len(), n.len());
    let mut area = 0.;
    let mut volume = 0.;
    for (x, m) in t.iter().zip(&n) {
        for (k, q) in [m.0, m.1, m.2].iter().enumerate() {
            let p = sub(v(x, k), arr(c));
            ensure!((len(p) - r).abs() < 1e-6 * r, "radius", "a vertex is at {} from {}, not {}", len(p), c, r);
            ensure!(len(sub(arv(*q), [p[0] / r, p[1] / r, p[2] / r])) < 1e-6, "normal", "the normal at {:?} is {}", p, q);
        }
        let nn = cross(sub(v(x, 1), v(x, 0)), sub(v(x, 2), v(x, 0)));
        let out = sub(v(x, 0), arr(c));
        ensure!(dot(nn, out) > 0., "inside_out", "triangle {:?} of the sphere {} {} faces in", x, c, r);
        ensure!(close(triangle_area(x), len(nn) / 2., 1e-5, 1e-12), "area", "{:?} has an area of {}, not {}", x, triangle_area(x), len(nn) / 2.);
        area += len(nn) / 2.;
        volume += dot(out, nn) / 6.;
    }
    ensure!(close(area, 4. * PI * r * r, 0.01, 0.), "total_area", "{} m2 for a radius of {}", area, r);
    ensure!(close(volume, 4. / 3. * PI * r.powi(3), 0.01, 0.), "volume", "{} m3 for a radius of {}: it overlaps or has holes", volume, r);
    // and it is seen
    let mut scene = Scene::new();
    let m = scene.push_material(Material::Diffuse(Diffuse { colour: Spectrum::ONE }));
    scene.push_object(m, m, Primitive::Sphere(sp));
    scene.build_accelerator();
    let mut aux = [0; 32];
    for _ in 0..10 {
        let d = dir(s);
        let origin = pt(s, 40.);
        if (origin - c).length() < 1.1 * r + 0.02 {
            continue;
        }
        let target = c + d * (r * 0.8);
        let direction = (target - origin).get_normalized();
        // through an edge?
        if brute(&scene.triangles, &Ray3D { origin, direction }).iter().any(|x| !x.2) {
            continue;
        }
        let (o, dd) = (sub(arr(origin), arr(c)), arv(direction));
        let bb = dot(o, dd);
        let want = -bb - (bb * bb - dot(o, o) + r * r).max(0.).sqrt();
        match scene.cast_ray(Ray3D { origin, direction }, &mut aux) {
            None => bail!("unseen", "a ray from {} to {} does not hit the sphere of radius {} at {}", origin, direction, r, c),
            Some((_, x)) => {
                let got = (x.point - origin).length();
                ensure!((got - want).abs() < 0.02 * r, "sphere_hit", "a ray from {} to {} hits the sphere of radius {} at {} after {} m, not {}", origin, direction, r, c, got, want);
                ensure!(x.geometry_shading.side == SurfaceSide::Front, "sphere_side", "hit the {:?} of the sphere", x.geometry_shading.side);
            }
        }
    }
    Ok(())
}
fn triangles(s: &mut Src) -> R {
    let size = s.logf(0.01, 100.);
    let (a, b, c) = (pt(s, size), pt(s, size), pt(s, size));
    let t: Triangle = [a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z];
    s.note(|| format!("{:?}", t));
    let n = cross(sub(arr(b), arr(a)), sub(arr(c), arr(a)));
    let ar = len(n) / 2.;
    if ar < 1e-3 * size * size {
        return Ok(());
    }
    s.nontrivial();
    ensure!(close(triangle_area(&t), ar, 1e-6, 0.), "area", "{:?} has an area of {}, not {}", t, triangle_area(&t), ar);
    let w = world_bounds(&t);
    for k in 0..3 {
        let (lo, hi) = (t[k].min(t[k + 3]).min(t[k + 6]), t[k].max(t[k + 3]).max(t[k + 6]));
        let (x, y) = ([w.min.x, w.min.y, w.min.z][k], [w.max.x, w.max.y, w.max.z][k]);
        ensure!(x <= lo && y >= hi && x > lo - 1e-2 && y < hi + 1e-2, "bounds", "{:?} is within {:?} and {:?}", t, w.min, w.max);
    }
    Ok(())
}
pub fn r01() -> Property {
    Property {
        id: "R01",
        facets: vec![
            Facet::new("nearest", nearest, 4000, 400000, "five or more triangles, and some hit"),
            Facet::new("spheres", spheres, 12, 400, "always"),
            Facet::new("triangles", triangles, 4000, 100000, "not degenerate"),
        ],
        assumptions: vec![
            "hits within 1e-6 of an edge of a triangle, nearer than 2 mm or almost parallel to the surface are accepted, but not required",
            "obstructions within 0.3 mm2 of the end of the way may count or not",
        ],
    }
}
