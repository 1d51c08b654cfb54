//! R03 the ray tracer conserves and carries light
use crate::geom::{dir, pt};
use crate::mats::{average, colour, same};
use fw::*;
use geometry::{DistantSource3D, Point3D, Ray3D, Sphere3D, Triangle3D, Vector3D};
use rendering::material::{Diffuse, Glass, Light, Material, Mirror};
use rendering::primitive::Primitive;
use rendering::rand::*;
use rendering::samplers::*;
use rendering::{RayTracer, Scene, Spectrum};
use std::f64::consts::PI;

fn zero() -> Vector3D {
    Vector3D::new(0., 0., 0.)
}
fn rng(s: &mut Src) -> RandGen {
    RandGen::seed_from_u64(s.draw(u64::MAX))
}
fn basis(n: Vector3D) -> (Vector3D, Vector3D) {
    let a = if n.x.abs() < 0.6 { Vector3D::new(1., 0., 0.) } else { Vector3D::new(0., 1., 0.) };
    let e1 = (a - n * (a * n)).get_normalized();
    (e1, n.cross(e1))
}
/// The points and directions that are sampled are where they should, and uniformly so
fn samplers(s: &mut Src) -> R {
    let mut g = rng(s);
    let n = 1500usize;
    // as they come, or spread evenly (which tells much smaller differences)
    let even = s.bool();
    let mut at: (f64, f64) = g.gen();
    let mut u = move || -> (f64, f64) {
        if even {
            at = ((at.0 + 1. / n as f64).fract(), (at.1 + 0.6180339887498949).fract());
            at
        } else {
            g.gen()
        }
    };
    let average = |x: f64, e: f64, sd: f64, n: usize| if even { (x - e).abs() <= 0.015 * sd } else { average(x, e, sd, n) };
    s.nontrivial();
    match s.us(0, 5) {
        0 => {
            let (a, b, c) = (pt(s, 10.), pt(s, 10.), pt(s, 10.));
            s.note(|| format!("triangle {} {} {}", a, b, c));
            let (ab, ac) = (b - a, c - a);
            let nn = ab.cross(ac);
            if nn.length() < 1e-2 {
                return Ok(());
            }
            let mut sums = [0.; 5];
            for _ in 0..n {
                let p = uniform_sample_triangle(u(), a, b, c);
                let d = p - a;
                // baricentric
                let y = ab.cross(d) * nn / (nn * nn);
                let x = d.cross(ac) * nn / (nn * nn);
                ensure!(x > -1e-6 && y > -1e-6 && x + y < 1. + 1e-6 && (d - ab * x - ac * y).length() < 1e-6, "triangle", "{} is not within {} {} {}", p, a, b, c);
                for (k, v) in [x, y, x * x, y * y, x * y].iter().enumerate() {
                    sums[k] += v / n as f64;
                }
            }
            for (k, (e, sd)) in [(1. / 3., 0.236), (1. / 3., 0.236), (1. / 6., 0.2), (1. / 6., 0.2), (1. / 12., 0.075)].iter().enumerate() {
                ensure!(average(sums[k], *e, *sd, n), "triangle_uniform", "moment {} is {} instead of {}", k, sums[k], e);
            }
        }
        1 => {
            let (r, c, d) = (s.logf(0.01, 10.), pt(s, 10.), dir(s));
            s.note(|| format!("disc {} {} {}", r, c, d));
            let (e1, e2) = basis(d);
            let (mut m, mut q, mut f) = (zero(), [0.; 3], 0);
            for _ in 0..n {
                let p = uniform_sample_tilted_disc(u(), r, c, d) - c;
                ensure!((p * d).abs() < 1e-6 * (1. + r) && p.length() < r * (1. + 1e-6), "disc", "{} is not on the disc", p);
                m = m + p * (1. / r / n as f64);
                let (x, y) = (p * e1 / r, p * e2 / r);
                q[0] += x * x / n as f64;
                q[1] += y * y / n as f64;
                q[2] += x * y / n as f64;
                f += (p.length() < 0.5 * r) as usize;
            }
            ensure!(average(m * e1, 0., 0.5, n) && average(m * e2, 0., 0.5, n) && average(q[0], 0.25, 0.26, n) && average(q[1], 0.25, 0.26, n) && average(q[2], 0., 0.21, n), "disc_uniform", "average {} {:?}", m, q);
            ensure!(average(f as f64 / n as f64, 0.25, 0.44, n), "disc_uniform", "{} of {} are within half of the radius", f, n);
        }
        2 => {
            let d = dir(s);
            let (e1, e2) = basis(d);
            s.note(|| format!("hemisphere {}", d));
            let (mut m, mut q) = (zero(), [0.; 3]);
            for _ in 0..n {
                let p = uniform_sample_tilted_hemisphere(u(), e1, e2, d);
                ensure!((p.length() - 1.).abs() < 1e-6 && p * d > -1e-9, "hemisphere", "{} is not in the hemisphere around {}", p, d);
                m = m + p * (1. / n as f64);
                q[0] += (p * d).powi(2) / n as f64;
                q[1] += (p * e1).powi(2) / n as f64;
                q[2] += (p * e1) * (p * e2) / n as f64;
            }
            ensure!(average(m * d, 0.5, 0.29, n) && average(m * e1, 0., 0.58, n) && average(m * e2, 0., 0.58, n), "hemisphere_uniform", "average {} around {}", m, d);
            ensure!(average(q[0], 1. / 3., 0.3, n) && average(q[1], 1. / 3., 0.3, n) && average(q[2], 0., 0.26, n), "hemisphere_uniform", "{:?} around {}", q, d);
        }
        3 => {
            s.note(|| "cosine".into());
            let (mut m, mut q) = (zero(), [0.; 2]);
            for _ in 0..n {
                let p = sample_cosine_weighted_horizontal_hemisphere(u());
                ensure!((p.length() - 1.).abs() < 1e-6 && p.z >= 0., "cosine", "{} is not in the hemisphere", p);
                m = m + p * (1. / n as f64);
                q[0] += p.z.powi(2) / n as f64;
                q[1] += p.x.powi(2) / n as f64;
            }
            ensure!(average(m.z, 2. / 3., 0.236, n) && average(m.x, 0., 0.5, n) && average(m.y, 0., 0.5, n) && average(q[0], 0.5, 0.29, n) && average(q[1], 0.25, 0.26, n), "cosine_distribution", "{} {:?}", m, q);
        }
        4 => {
            s.note(|| "hemisphere".into());
            let (mut m, mut q) = (zero(), 0.);
            for _ in 0..n {
                let p = sample_uniform_hemisphere(u());
                ensure!((p.length() - 1.).abs() < 1e-6 && p.z >= 0., "up", "{} is not in the hemisphere", p);
                m = m + p * (1. / n as f64);
                q += p.z.powi(2) / n as f64;
            }
            ensure!(average(m.z, 0.5, 0.29, n) && average(m.x, 0., 0.58, n) && average(m.y, 0., 0.58, n) && average(q, 1. / 3., 0.3, n), "up_uniform", "{} {}", m, q);
        }
        _ => {
            s.note(|| "sphere".into());
            let (mut m, mut q) = (zero(), [0.; 3]);
            for _ in 0..n {
                let p = uniform_sample_sphere(u());
                let p = Vector3D::new(p.x, p.y, p.z);
                ensure!((p.length() - 1.).abs() < 1e-6, "sphere", "{} is not on the sphere", p);
                m = m + p * (1. / n as f64);
                q[0] += p.x.powi(2) / n as f64;
                q[1] += p.y.powi(2) / n as f64;
                q[2] += p.z.powi(2) / n as f64;
            }
            ensure!(average(m.z, 0., 0.58, n) && average(m.x, 0., 0.58, n) && average(m.y, 0., 0.58, n) && q.iter().all(|q| average(*q, 1. / 3., 0.3, n)), "sphere_uniform", "{} {:?}", m, q);
        }
    }
    Ok(())
}
/// solid angle of a triangle (Van Oosterom and Strackee)
fn omega(t: &[Point3D; 3], p: Point3D) -> f64 {
    let v: Vec<Vector3D> = t.iter().map(|x| *x - p).collect();
    let l: Vec<f64> = v.iter().map(|x| x.length()).collect();
    let num = (v[0] * v[1].cross(v[2])).abs();
    let den = l[0] * l[1] * l[2] + (v[0] * v[1]) * l[2] + (v[0] * v[2]) * l[1] + (v[1] * v[2]) * l[0];
    2. * num.atan2(den)
}
/// Rays sent to a light reach it, with the probability that is declared
fn lights(s: &mut Src) -> R {
    let mut g = rng(s);
    let p = pt(s, 10.);
    let n = 600;
    match s.us(0, 2) {
        0 => {
            let (c, size) = (pt(s, 10.), s.logf(0.05, 3.));
            let t = [c, c + dir(s) * size, c + dir(s) * size];
            let nn = (t[1] - t[0]).cross(t[2] - t[0]);
            s.note(|| format!("triangle {:?} from {}", t, p));
            let far = t.iter().map(|x| (*x - p).length()).fold(f64::MAX, f64::min);
            if nn.length() < 0.02 * size * size || far < 0.3 * size {
                return Ok(());
            }
            let pr = Primitive::Triangle(Triangle3D::new(t[0], t[1], t[2])?);
            if s.chance(1, 4) {
                // from beside the light, almost in its plane
                s.nontrivial();
                let unit = nn * (1. / nn.length());
                let rise = s.logf(3e-6, 1.) * s.sign();
                let (e1, e2) = (s.f(0.1, 0.4), s.f(0.1, 0.4));
                let aim = t[0] + (t[1] - t[0]) * e1 + (t[2] - t[0]) * e2;
                let along = (t[1] - t[0]) * (1. / (t[1] - t[0]).length());
                let d = along + unit * rise;
                let d = d * (1. / d.length());
                let away = s.logf(0.5, 5.);
                let ray = Ray3D { origin: aim - d * away, direction: d };
                s.note(|| format!("grazing {} {}", rise, away));
                let Some(i) = pr.intersect(&ray) else { return Ok(()) };
                let pdf = pr.solid_angle_pdf(&i, &ray);
                let exp = away * away / (d * unit).abs() / (nn.length() / 2.);
                ensure!(close(pdf, exp, 1e-3, 0.), "grazing_pdf", "the probability of {} from {} to {:?} is {}, not {}", d, ray.origin, t, pdf, exp);
                return Ok(());
            }
            let h = ((p - t[0]) * nn / nn.length()).abs();
            if h < 0.2 * far || h < 0.2 * size {
                return Ok(());
            }
            s.nontrivial();
            let (mut sum, mut sq) = (0., 0.);
            for _ in 0..n {
                let d = pr.sample_direction(&mut g, p);
                ensure!((d.length() - 1.).abs() < 1e-6, "unit", "{} is not a unit vector", d);
                let ray = Ray3D { origin: p, direction: d };
                let Some(i) = pr.intersect(&ray) else { bail!("missed", "the ray sent from {} towards {} misses the light {:?}", p, d, t) };
                let pdf = pr.solid_angle_pdf(&i, &ray);
                let exp = (i.p - p).length_squared() / ((d * nn).abs() / nn.length()) / (nn.length() / 2.);
                ensure!(close(pdf, exp, 1e-4, 0.), "triangle_pdf", "the probability of {} from {} to {:?} is {}, not {}", d, p, t, pdf, exp);
                sum += 1. / pdf;
                sq += 1. / pdf / pdf;
            }
            let (m, o) = (sum / n as f64, omega(&t, p));
            let sd = (sq / n as f64 - m * m).max(0.).sqrt();
            ensure!((m - o).abs() <= 7. * sd / (n as f64).sqrt() + 0.02 * o, "solid_angle", "the light {:?} fills {} from {}, not {}", t, m, p, o);
            let (l, d) = pr.direction(p);
            let c = Point3D::new((t[0].x + t[1].x + t[2].x) / 3., (t[0].y + t[1].y + t[2].y) / 3., (t[0].z + t[1].z + t[2].z) / 3.) - p;
            ensure!(close(l, c.length(), 1e-6, 0.) && (d - c * (1. / c.length())).length() < 1e-6, "direction", "the triangle is {} away, towards {}", l, d);
        }
        1 => {
            let (c, r) = (pt(s, 10.), s.logf(0.01, 3.));
            s.note(|| format!("sphere {} {} from {}", c, r, p));
            let l = (c - p).length();
            if l < 1.05 * r {
                return Ok(());
            }
            s.nontrivial();
            let pr = Primitive::Sphere(Sphere3D::new(r, c));
            let cosmax = (1. - (r / l).powi(2)).sqrt();
            let o = 2. * PI * (1. - cosmax);
            let mut mean = zero();
            for _ in 0..n {
                let d = pr.sample_direction(&mut g, p);
                ensure!((d.length() - 1.).abs() < 1e-6, "unit", "{} is not a unit vector", d);
                let ray = Ray3D { origin: p, direction: d };
                let Some(i) = pr.intersect(&ray) else { bail!("missed", "the ray sent from {} towards {} misses the sphere {} {}", p, d, c, r) };
                let pdf = pr.solid_angle_pdf(&i, &ray);
                ensure!(close(pdf, 1. / o, 1e-3, 0.), "sphere_pdf", "the probability of {} from {} to the sphere {} {} is {}, not {}", d, p, c, r, pdf, 1. / o);
                mean = mean + d * (1. / n as f64);
            }
            let (t, d) = pr.direction(p);
            ensure!(close(t, l - r, 1e-6, 1e-9) && (d - (c - p) * (1. / l)).length() < 1e-6, "direction", "the sphere is {} away, towards {}", t, d);
            let off = mean - d * (mean * d);
            ensure!(off.length() <= 7. * (r / l) / (n as f64).sqrt() + 1e-9, "sphere_centre", "rays go around {} instead of {}", mean, d);
            ensure!(((1. - mean * d) - (1. - cosmax) / 2.).abs() <= 7. * (1. - cosmax) / (12. * n as f64).sqrt() + 1e-4 * (1. - cosmax) + 1e-14, "sphere_spread", "the average cosine is {} in a cone of {}", mean * d, cosmax);
        }
        _ => {
            let (d0, a) = (dir(s), s.logf(0.1, 170.).to_radians());
            s.note(|| format!("source {} {}", d0, a));
            s.nontrivial();
            let pr = Primitive::Source(DistantSource3D::new(d0, a));
            let o = 2. * PI * (1. - (a / 2.).cos());
            let mut mean = zero();
            for _ in 0..n {
                let d = pr.sample_direction(&mut g, p);
                ensure!((d.length() - 1.).abs() < 1e-6 && d * d0 >= (a / 2.).cos() - 1e-9, "source_cone", "{} is not within {} of {}", d, a, d0);
                let ray = Ray3D { origin: p, direction: d };
                if d * d0 > (a / 2.).cos() + 1e-9 {
                    let Some(i) = pr.intersect(&ray) else { bail!("missed", "the ray sent towards {} misses the source {} {}", d, d0, a) };
                    let pdf = pr.solid_angle_pdf(&i, &ray);
                    ensure!(close(pdf, 1. / o, 1e-5, 0.), "source_pdf", "the probability of {} in the source {} {} is {}, not {}", d, d0, a, pdf, 1. / o);
                }
                mean = mean + d * (1. / n as f64);
            }
            let off = mean - d0 * (mean * d0);
            ensure!(off.length() <= 7. * (a / 2.).tan() / (n as f64).sqrt(), "source_centre", "rays go around {} instead of {}", mean, d0);
            let cosmax = (a / 2.).cos();
            ensure!(((1. - mean * d0) - (1. - cosmax) / 2.).abs() <= 7. * (1. - cosmax) / (12. * n as f64).sqrt() + 1e-4 * (1. - cosmax) + 1e-14, "source_spread", "the average cosine is {} in a cone of {}", mean * d0, cosmax);
            let away = -d0;
            ensure!(pr.intersect(&Ray3D { origin: p, direction: away }).is_none(), "source_behind", "the source {} is also behind", d0);
        }
    }
    Ok(())
}
fn tracer(s: &mut Src, max_depth: usize) -> RayTracer {
    RayTracer { max_depth, n_shadow_samples: s.us(1, 10), n_ambient_samples: s.us(0, 20) }
}
/// In a place where everything reflects all light, under a sky that is the same everywhere, everything looks like the sky
fn furnace(s: &mut Src) -> R {
    // (many large triangles make mazes from which light does not come out)
    let mut t = crate::cast::soup_of(s, false);
    t.truncate(60);
    let mut scene = Scene::new();
    let (b, c) = (s.logf(0.1, 1000.), colour(s));
    let mut kinds = vec![Material::Diffuse(Diffuse { colour: Spectrum::ONE }), Material::Mirror(Mirror(Spectrum::ONE)), Material::Glass(Glass { colour: Spectrum::ONE, refraction_index: s.f(1.2, 1.9) })];
    let only = s.us(0, 4);
    if only < 3 {
        kinds = vec![kinds[only].clone()];
    }
    for k in &kinds {
        scene.push_material(k.clone());
    }
    let n = kinds.len();
    for (p, q, r) in &t {
        let (f, k) = (s.us(0, n - 1), s.us(0, n - 1));
        scene.push_object(f, k, Primitive::Triangle(Triangle3D::new(*p, *q, *r)?));
    }
    scene.sky = Some(Box::new(move |_| b));
    scene.sky_colour = Some(c);
    scene.build_accelerator();
    s.note(|| format!("{} triangles of {:?}", t.len(), kinds));
    let mut rt = tracer(s, 100_000);
    if s.chance(1, 6) {
        rt.n_shadow_samples = 0;
    }
    let mut g = rng(s);
    let mut aux = [0; 32];
    let mut hits = 0;
    for _ in 0..6 {
        // (exactly perpendicular to parallel mirrors would never leave)
        let j: (f64, f64, f64) = g.gen();
        let ray = Ray3D { origin: pt(s, 15.), direction: (dir(s) + Vector3D::new(j.0 - 0.5, j.1 - 0.5, j.2 - 0.5) * 0.2).get_normalized() };
        hits += scene.cast_ray(ray, &mut aux).is_some() as usize;
        let x = rt.trace_ray(&mut g, &scene, ray, &mut aux);
        ensure!(same(x, c * b, 1e-3), "furnace", "a white place under a sky of {:?} looks {:?}", c * b, x);
        let x = rt.trace_all_rays(&mut g, &scene, ray, &mut aux);
        ensure!(same(x, c * b, 1e-3), "furnace_average", "a white place under a sky of {:?} looks {:?}", c * b, x);
    }
    s.nontrivial_if(hits > 0);
    Ok(())
}
/// Nothing more than the sky
fn empty(s: &mut Src) -> R {
    let mut scene = Scene::new();
    let (a, b, c) = (dir(s), s.f(0., 5.), colour(s));
    scene.sky = Some(Box::new(move |d| 10. + b * (d * a)));
    let exp = |d: Vector3D| 10. + b * (d * a);
    let coloured = s.bool();
    if coloured {
        scene.sky_colour = Some(c);
    }
    let c = if coloured { c } else { Spectrum::ONE };
    // a sun
    let (sun, angle, l) = (dir(s), s.f(0.3, 20.).to_radians(), colour(s) * 1000.);
    let m = scene.push_material(Material::Light(Light(l)));
    scene.push_object(m, m, Primitive::Source(DistantSource3D::new(sun, angle)));
    // and a wall that stops it
    let w = scene.push_material(Material::Diffuse(Diffuse { colour: Spectrum::BLACK }));
    let (e1, e2) = basis(sun);
    let o = pt(s, 5.);
    scene.push_object(w, w, Primitive::Triangle(Triangle3D::new(o + e1 * 4., o - e1 * 2. + e2 * 3., o - e1 * 2. - e2 * 3.)?));
    scene.build_accelerator();
    s.nontrivial();
    let mut rt = tracer(s, 10);
    if s.chance(1, 6) {
        // nothing is looked for from what is hit
        rt.n_shadow_samples = 0;
    }
    let mut g = rng(s);
    let mut aux = [0; 32];
    for _ in 0..10 {
        let origin = pt(s, 5.);
        let direction = if s.bool() { dir(s) } else { (sun + dir(s) * (angle / 2.)).get_normalized() };
        let ray = Ray3D { origin, direction };
        if ((direction * sun) - (angle / 2.).cos()).abs() < 1e-6 {
            continue;
        }
        let hit = scene.cast_ray(ray, &mut aux).is_some();
        let mut x = c * exp(direction);
        if direction * sun > (angle / 2.).cos() {
            x += l;
        }
        if hit {
            x = Spectrum::BLACK;
        }
        let y = rt.trace_ray(&mut g, &scene, ray, &mut aux);
        ensure!(same(x, y, 1e-6), "sky", "looking {} from {}, sees {:?}, not {:?}", direction, origin, y, x);
    }
    Ok(())
}
/// Lights, seen directly or through mirrors and glasses
fn seen(s: &mut Src) -> R {
    let mut scene = Scene::new();
    let l = colour(s) * s.logf(0.1, 100.);
    let other = colour(s) * s.logf(0.1, 100.);
    let lm = scene.push_material(Material::Light(Light(l)));
    let om = scene.push_material(Material::Light(Light(other)));
    let mut exp = Spectrum::ONE;
    // A path that bounces
    let mut p = pt(s, 5.);
    let mut d = dir(s);
    let ray = Ray3D { origin: p, direction: d };
    let mut what = vec![];
    let put = |scene: &mut Scene, p: Point3D, n: Vector3D, f: usize, b: usize, size: f64| -> R {
        // the normal is that of the front
        let (e1, e2) = basis(n);
        scene.push_object(f, b, Primitive::Triangle(Triangle3D::new(p + e1 * size, p - e1 * (size / 2.) + e2 * size, p - e1 * (size / 2.) - e2 * size)?));
        Ok(())
    };
    let n = s.us(0, 4);
    for _ in 0..n {
        p = p + d * s.f(0.5, 3.);
        // facing whoever comes
        let mut nn = dir(s);
        if (nn * d).abs() < 0.2 {
            nn = -d;
        }
        if nn * d > 0. {
            nn = -nn;
        }
        let m = {
            let c = colour(s) * 0.9 + Spectrum::gray(0.1);
            exp *= c;
            what.push(format!("mirror {:?} at {} facing {}", c, p, nn));
            d = d - nn * (2. * (d * nn));
            scene.push_material(Material::Mirror(Mirror(c)))
        };
        if s.bool() {
            put(&mut scene, p, nn, m, om, 0.05)?;
        } else {
            put(&mut scene, p, -nn, om, m, 0.05)?;
        }
    }
    p = p + d * s.f(0.5, 3.);
    // and then a light
    if s.bool() {
        put(&mut scene, p, -d, lm, om, 0.1)?;
    } else {
        put(&mut scene, p, d, om, lm, 0.1)?;
    }
    let exp = exp * l;
    scene.build_accelerator();
    s.note(|| format!("{:?}", what));
    // Is it the path we thought about?
    let mut aux = [0; 32];
    let (x1, x2) = basis(ray.direction);
    for off in [zero(), x1, x2, -x1, -x2] {
        // (nearby rays as well, so that nothing is too close to the way)
        let (mut r, mut len, mut reached) = (ray, 0, false);
        r.origin = r.origin + off * 2e-4;
        while let Some((i, x)) = scene.cast_ray(r, &mut aux) {
            let m = match x.geometry_shading.side {
                geometry::intersection::SurfaceSide::Front => scene.front_material_indexes[i],
                _ => scene.back_material_indexes[i],
            };
            if m == lm {
                reached = true;
                break;
            }
            if m == om || len > 10 {
                return Ok(());
            }
            let q = x.geometry_shading.normal;
            r = Ray3D { origin: x.point + q * 1e-5, direction: r.direction - q * (2. * (r.direction * q)) };
            len += 1;
        }
        if !reached || len != n || (r.direction - d).length() > 1e-3 {
            return Ok(());
        }
    }
    s.nontrivial_if(n > 0);
    let rt = tracer(s, 20);
    let mut g = rng(s);
    // russian roulette may stop it
    let k = 400;
    let (mut sum, mut pos) = (Spectrum::BLACK, 0);
    for _ in 0..k {
        let x = rt.trace_ray(&mut g, &scene, ray, &mut aux);
        if x.max() > 0. {
            pos += 1;
        }
        sum += x;
    }
    sum = sum / k as f64;
    let prob = exp.radiance() / l.radiance().max(1e-9);
    if n == 0 || what.is_empty() {
        ensure!(same(sum, exp, 1e-6), "light", "a light of {:?} looks {:?}", exp, sum);
    } else if exp.max() > 0. && prob > 0. {
        let _ = pos;
        // the weights of surviving paths never exceed that of a path of radiance 1
        let sd = exp.max() / (exp.radiance() / l.radiance()).max(1e-3);
        for ch in 0..3 {
            ensure!((sum.0[ch] - exp.0[ch]).abs() <= 7. * (exp.0[ch] * sd.max(exp.0[ch]) * 4. / k as f64).sqrt() + 8. * 4. * sd / k as f64, "mirrors", "after {:?}, a light of {:?} looks {:?} instead of {:?}", what, l, sum, exp);
        }
    }
    Ok(())
}
/// The light that arrives directly from a few sources
fn direct(s: &mut Src) -> R {
    let rho = colour(s);
    let mut scene = Scene::new();
    let floor = scene.push_material(Material::Diffuse(Diffuse { colour: rho }));
    let black = scene.push_material(Material::Diffuse(Diffuse { colour: Spectrum::BLACK }));
    let (o, n) = (pt(s, 5.), dir(s));
    let (e1, e2) = basis(n);
    // the receiver
    scene.push_object(floor, floor, Primitive::Triangle(Triangle3D::new(o + e1 * 0.02, o - e1 * 0.01 + e2 * 0.02, o - e1 * 0.01 - e2 * 0.02)?));
    let up = s.bool();
    let top = if up { n } else { -n };
    let k = s.us(1, 3);
    let mut exp = vec![];
    let mut what = vec![];
    let mut dirs = vec![];
    for _ in 0..k {
        let l = (colour(s) * 0.9 + Spectrum::gray(0.1)) * s.logf(1., 1000.);
        let m = scene.push_material(Material::Light(Light(l)));
        let d = dir(s);
        let cos = d * top;
        // not in the way of another one
        if cos.abs() < 0.4 || dirs.iter().any(|x: &Vector3D| *x * d > 0.95) {
            return Ok(());
        }
        dirs.push(d);
        let blocked = s.chance(1, 4);
        let dist;
        let w = match s.us(0, 2) {
            0 => {
                dist = 4.;
                let a = s.f(0.2, 1.).to_radians();
                scene.push_object(m, m, Primitive::Source(DistantSource3D::new(d, a)));
                what.push(format!("sun {} {} {:?}", d, a, l));
                2. * PI * (1. - (a / 2.).cos())
            }
            1 => {
                dist = s.f(3., 10.);
                let r = dist * s.f(0.002, 0.006);
                scene.push_object(m, m, Primitive::Sphere(Sphere3D::new(r, o + d * dist)));
                what.push(format!("sphere {} {} {:?}", o + d * dist, r, l));
                2. * PI * (1. - (1. - (r / dist).powi(2)).sqrt())
            }
            _ => {
                dist = s.f(3., 10.);
                let c = o + d * dist;
                let mut f = dir(s);
                if (f * d).abs() < 0.1 {
                    f = d;
                }
                let size = dist * s.f(0.002, 0.006);
                let (a, b) = basis(f);
                let t = [c + a * size, c - a * (size / 2.) + b * size, c - a * (size / 2.) - b * size];
                scene.push_object(m, m, Primitive::Triangle(Triangle3D::new(t[0], t[1], t[2])?));
                what.push(format!("triangle {:?} {:?}", t, l));
                omega(&t, o)
            }
        };
        if blocked {
            let (a, b) = basis(d);
            let c = o + d * (dist / 2.);
            let z = 0.08;
            scene.push_object(black, black, Primitive::Triangle(Triangle3D::new(c + a * (2. * z), c - a * z + b * (2. * z), c - a * z - b * (2. * z))?));
            what.push("blocked".into());
        }
        exp.push(if blocked || cos < 0. { Spectrum::BLACK } else { rho * l * (cos * w / PI) });
    }
    // nothing else in the way
    scene.build_accelerator();
    let mut view = dir(s);
    if view * top < 0. {
        view = -view;
    }
    if view * top < 0.1 {
        view = top;
    }
    s.note(|| format!("{:?} receives {:?} at {} facing {}", rho, what, o, top));
    let mut aux = [0; 32];
    let ray = Ray3D { origin: o + view * 0.5, direction: -view };
    let Some((_, x)) = scene.cast_ray(ray, &mut aux) else { bail!("view", "the receiver is not seen") };
    if (x.point - o).length() > 1e-4 {
        return Ok(()); // something else in the way
    }
    // lights and distant lights are listed in different order, so only compare as a set
    let rt = tracer(s, 0);
    let mut g = rng(s);
    let tries = 40 * k;
    let mut seen = vec![0; k];
    for _ in 0..tries {
        let y = rt.trace_ray(&mut g, &scene, ray, &mut aux) / k as f64;
        let Some(i) = (0..k).find(|i| same(exp[*i], y, 0.06)) else { bail!("direct", "the radiance of the receiver is {:?} (times {}), which does not correspond to any of the lights: {:?} {:?}", y, k, what, exp) };
        seen[i] += 1;
    }
    let dup = (0..k).any(|i| (0..i).any(|j| same(exp[i], exp[j], 0.13)));
    if !dup {
        s.nontrivial();
        ensure!(seen.iter().all(|x| average(*x as f64 / tries as f64, 1. / k as f64, 0.5, tries)), "uniform_light", "the lights were used {:?} times", seen);
    }
    Ok(())
}
/// The irradiance of a polygon that emits the same everywhere, over what it emits (Lambert)
fn lambert(t: &[Point3D; 3], p: Point3D, n: Vector3D) -> f64 {
    let mut e = zero();
    for i in 0..3 {
        let (a, b) = ((t[i] - p).get_normalized(), (t[(i + 1) % 3] - p).get_normalized());
        e = e + a.cross(b).get_normalized() * (a * b).max(-1.).min(1.).acos();
    }
    (e * n / 2.).abs()
}
/// The light that arrives directly, from sources of any size
fn large(s: &mut Src) -> R {
    let rho = colour(s) * 0.9 + Spectrum::gray(0.05);
    let mut scene = Scene::new();
    let floor = scene.push_material(Material::Diffuse(Diffuse { colour: rho }));
    let (o, n) = (pt(s, 5.), dir(s));
    let (e1, e2) = basis(n);
    scene.push_object(floor, floor, Primitive::Triangle(Triangle3D::new(o + e1 * 0.02, o - e1 * 0.01 + e2 * 0.02, o - e1 * 0.01 - e2 * 0.02)?));
    let mut e = 0.;
    let mut near = f64::MAX;
    let mut caps: Vec<(Vector3D, f64)> = vec![];
    let mut what = vec![];
    let l = (colour(s) * 0.9 + Spectrum::gray(0.1)) * s.logf(0.1, 100.);
    let m = scene.push_material(Material::Light(Light(l)));
    let k = s.us(1, 2);
    for _ in 0..k {
        let d = (n + dir(s) * s.f(0., 0.9)).get_normalized();
        match s.us(0, 2) {
            0 => {
                // all of it above the horizon
                let a = s.f(0.01, 1.) * (PI / 2. - (d * n).min(1.).acos());
                scene.push_object(m, m, Primitive::Source(DistantSource3D::new(d, 2. * a)));
                e += PI * a.sin().powi(2) * (d * n);
                caps.push((d, a));
                what.push(format!("source {} {}", d, 2. * a));
            }
            1 => {
                let (r, dist) = (s.f(0.1, 3.), s.f(0.2, 5.));
                let dist = dist + r;
                if (d * n) * dist < r {
                    return Ok(());
                }
                scene.push_object(m, m, Primitive::Sphere(Sphere3D::new(r, o + d * dist)));
                near = near.min(dist - r);
                e += PI * (r / dist).powi(2) * (d * n);
                caps.push((d, (r / dist).asin()));
                what.push(format!("sphere {} at {}", r, o + d * dist));
            }
            _ => {
                let h = s.f(0.5, 4.);
                let c = o + d * h;
                let f = (d + dir(s) * 0.6).get_normalized();
                let (a, b) = basis(f);
                let size = s.f(0.1, 5.);
                let t = [c + a * size, c - a * (size / 2.) + b * size, c - a * (size / 2.) - b * size];
                if t.iter().any(|p| (*p - o) * n < 0.01) {
                    return Ok(());
                }
                scene.push_object(m, m, Primitive::Triangle(Triangle3D::new(t[0], t[1], t[2])?));
                near = near.min(h);
                caps.push((d, t.iter().map(|p| ((*p - o).get_normalized() * d).min(1.).acos()).fold(0., f64::max)));
                e += lambert(&t, o + n * 0.001, n);
                what.push(format!("triangle {:?}", t));
            }
        }
    }
    // lights may be in front of one another
    if k == 2 && (caps[0].0 * caps[1].0).min(1.).acos() < caps[0].1 + caps[1].1 + 0.01 {
        return Ok(());
    }
    scene.build_accelerator();
    let view = (n + dir(s) * 0.5).get_normalized();
    let ray = Ray3D { origin: o + view * 0.1, direction: -view };
    let mut aux = [0; 32];
    let Some((_, x)) = scene.cast_ray(ray, &mut aux) else { return Ok(()) };
    if (x.point - o).length() > 1e-4 {
        return Ok(());
    }
    let rt = RayTracer { max_depth: s.us(0, 3), n_shadow_samples: s.us(2, 10), n_ambient_samples: 1 };
    let exp = rho * l * (e / PI);
    s.nontrivial();
    s.note(|| format!("{:?} receives {:?} from {:?} at {} facing {}, with {:?} samples and {} bounces", rho, l, what, o, n, rt.n_shadow_samples, rt.max_depth));
    let mut g = rng(s);
    let tries = 3000;
    let (mut sum, mut sq) = (0., 0.);
    for _ in 0..tries {
        let y = rt.trace_ray(&mut g, &scene, ray, &mut aux).0[0] / exp.0[0];
        sum += y;
        sq += y * y;
    }
    let mean = sum / tries as f64;
    let sd = (sq / tries as f64 - mean * mean).max(0.).sqrt();
    ensure!((mean - 1.).abs() < 6.5 * sd / (tries as f64).sqrt() + 0.004 + 0.004 / near, "large", "the radiance of the receiver is {} times what it should be (the deviation of each sample is {})", mean, sd);
    Ok(())
}
/// A sky and the sun
fn perez(s: &mut Src) -> R {
    use calendar::Date;
    let date = Date { month: s.us(1, 12) as u8, day: s.us(1, 28) as u8, hour: s.f(0., 23.99) };
    let (mut lat, lon) = (s.f(-60., 60.), s.f(-170., 170.));
    if s.chance(1, 3) {
        lat = s.f(-24., 24.);
    }
    let mer = (lon / 15.).round() * 15.;
    let (dif, dni) = (s.f(1., 500.), s.f(0., 1000.));
    let mut scene = Scene::new();
    scene.add_perez_sky(date, lat, lon, mer, dif, dni);
    let solar = ::weather::Solar::new(lat.to_radians(), lon.to_radians(), mer.to_radians());
    let sun = solar.sun_position(::weather::Time::Standard(date.day_of_year()));
    s.note(|| format!("{:?} {} {} {} {}: sun at {:?}", date, lat, lon, dif, dni, sun));
    let Some(sky) = &scene.sky else { bail!("sky", "there is no sky") };
    let f = ::weather::PerezSky::get_sky_func_standard_time(::weather::SkyUnits::Visible, &solar, date, 11., dif, dni);
    for _ in 0..5 {
        let d = dir(s);
        let (a, b) = (sky(d), f(d));
        ensure!(a == b || (a - b).abs() < 1e-9 * a.abs() || (a.is_nan() && b.is_nan()), "sky", "the sky is {} towards {}, not {}", a, d, b);
    }
    match sun {
        None => ensure!(scene.distant_lights.is_empty(), "night", "there is a sun at night"),
        Some(p) => {
            ensure!(scene.distant_lights.len() == 1 && scene.lights.is_empty() && scene.triangles.is_empty(), "sun", "there is no sun");
            s.nontrivial();
            let l = &scene.distant_lights[0];
            let (_, d) = l.primitive.direction(Point3D::new(0., 0., 0.));
            ensure!((d - p).length() < 1e-6, "sun_position", "the sun is at {} instead of {}", d, p);
            let w = {
                let r = Ray3D { origin: Point3D::new(0., 0., 0.), direction: d };
                let Some(i) = l.primitive.intersect(&r) else { bail!("sun", "the sun is not seen") };
                1. / l.primitive.solid_angle_pdf(&i, &r)
            };
            ensure!(close(w, 6.8e-5, 0.02, 0.), "sun_size", "the sun fills {} sr", w);
            let e = scene.materials[l.front_material_index].colour() * w * 179.;
            // illuminance in proportion to irradiance: between 60 and 140 lm/W, smoothly
            let zen = p.z.max(-1.).min(1.).acos().max(3f64.to_radians()).min(PI / 2.);
            let brightness = ::weather::PerezSky::sky_brightness(dif, ::weather::solar::air_mass(zen), solar.normal_extraterrestrial_radiation(solar.unwrap_solar_time(::weather::Time::Standard(date.day_of_year())))).clamp(0.01, 9e9);
            let clear = ::weather::PerezSky::sky_clearness(dif, dni, zen).clamp(-9e9, 11.9);
            let ratio = ::weather::PerezSky::direct_illuminance_ratio(::weather::PerezSky::precipitable_water_content(11.), zen, brightness, ::weather::PerezSky::clearness_category(clear));
            ensure!(e.0.iter().all(|x| close(*x, dni * ratio, 0.01, 1e-6)), "sun_illuminance", "{} W/m2 are {:?} lux, not {}", dni, e, dni * ratio);
        }
    }
    Ok(())
}
pub fn r03() -> Property {
    Property {
        id: "R03",
        facets: vec![
            Facet::new("samplers", samplers, 300, 30000, "every case"),
            Facet::new("lights", lights, 400, 40000, "the light is not seen edge-on, nor from within"),
            Facet::new("furnace", furnace, 400, 20000, "at least one ray hits something"),
            Facet::new("empty", empty, 2000, 100000, "every case"),
            Facet::new("seen", seen, 500, 30000, "at least one mirror in between"),
            Facet::new("direct", direct, 1000, 60000, "the contribution of each light can be told from that of the others"),
            Facet::new("large", large, 60, 20000, "no light hides another"),
            Facet::new("perez", perez, 2000, 100000, "the sun is up"),
        ],
        assumptions: vec![
            "the light that arrives directly from large sources is checked where two or more shadow rays are sent, as a single one goes to the middle of the source, and without interreflections",
            "frequencies and averages are compared within 6.5 standard deviations",
        ],
    }
}
