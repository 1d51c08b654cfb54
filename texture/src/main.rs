//! G07: the parameters and derivatives reported with a hit (geometry built with its `textures` feature)
use fw::*;
use geometry::intersection::{IntersectionInfo, SurfaceSide};
use geometry::{Cylinder3D, Disk3D, Point3D, Ray3D, Sphere3D, Transform, Triangle3D, Vector3D};
use std::f64::consts::PI;

type V = [f64; 3];
fn add(a: V, b: V, k: f64) -> V {
    [a[0] + b[0] * k, a[1] + b[1] * k, a[2] + b[2] * k]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
fn unit(a: V) -> V {
    let l = len(a);
    [a[0] / l, a[1] / l, a[2] / l]
}
fn vp(p: Point3D) -> V {
    [p.x, p.y, p.z]
}
fn vv(p: Vector3D) -> V {
    [p.x, p.y, p.z]
}
fn pnt(a: V) -> Point3D {
    Point3D::new(a[0], a[1], a[2])
}
fn vec(a: V) -> Vector3D {
    Vector3D::new(a[0], a[1], a[2])
}
fn dir(s: &mut Src) -> V {
    if s.chance(1, 8) {
        let a = s.us(0, 2);
        let g = s.sign();
        let mut v = [0.; 3];
        v[a] = g;
        return v;
    }
    let z = s.uniform(-1., 1.);
    let phi = s.uniform(0., 2. * PI);
    let r = (1. - z * z).max(0.).sqrt();
    [r * phi.cos(), r * phi.sin(), z]
}
fn pt(s: &mut Src, r: f64) -> V {
    [s.f(-r, r), s.f(-r, r), s.f(-r, r)]
}

/// A rigid motion, applied part by part
#[derive(Clone, Debug)]
enum Op {
    T(V),
    X(f64),
    Y(f64),
    Z(f64),
}
fn ops(s: &mut Src) -> Vec<Op> {
    let n = s.us(0, 3);
    (0..n)
        .map(|_| match s.draw(4) {
            0 => Op::T(pt(s, 10.)),
            1 => Op::X(s.f(-180., 180.)),
            2 => Op::Y(s.f(-180., 180.)),
            _ => Op::Z(s.f(-180., 180.)),
        })
        .collect()
}
fn transform(ops: &[Op]) -> Transform {
    let mut t = Transform::new();
    for o in ops {
        t *= match o {
            Op::T(v) => Transform::translate(v[0], v[1], v[2]),
            Op::X(a) => Transform::rotate_x(*a),
            Op::Y(a) => Transform::rotate_y(*a),
            Op::Z(a) => Transform::rotate_z(*a),
        };
    }
    t
}
fn apply(ops: &[Op], mut p: V, point: bool) -> V {
    // t = o1 * o2 * ... : the last one acts first
    for o in ops.iter().rev() {
        p = match o {
            Op::T(v) => {
                if point {
                    add(p, *v, 1.)
                } else {
                    p
                }
            }
            Op::X(a) => {
                let (sn, cs) = a.to_radians().sin_cos();
                [p[0], p[1] * cs - p[2] * sn, p[1] * sn + p[2] * cs]
            }
            Op::Y(a) => {
                let (sn, cs) = a.to_radians().sin_cos();
                [p[0] * cs + p[2] * sn, p[1], -p[0] * sn + p[2] * cs]
            }
            Op::Z(a) => {
                let (sn, cs) = a.to_radians().sin_cos();
                [p[0] * cs - p[1] * sn, p[0] * sn + p[1] * cs, p[2]]
            }
        };
    }
    p
}

/// Judges a hit against the surface it is on: `at(u, v)` gives the point and the (unit) normal there, in world coordinates
fn judge(what: &str, info: &IntersectionInfo, ray: &Ray3D, u: f64, v: f64, size: f64, at: &dyn Fn(f64, f64) -> (V, V)) -> R {
    let (p, n) = at(u, v);
    let d = vv(ray.direction);
    ensure!(len(add(vp(info.p), p, -1.)) < 1e-6 * size, "point", "{}: hit at {:?}, expected {:?} (u={} v={})", what, info.p, p, u, v);
    ensure!((info.u - u).abs() < 1e-5, "u", "{}: u={} at {:?}, expected {} (v={})", what, info.u, info.p, u, v);
    ensure!((info.v - v).abs() < 1e-5, "v", "{}: v={} at {:?}, expected {} (u={})", what, info.v, info.p, v, u);
    let nn = vv(info.normal);
    ensure!((len(nn) - 1.).abs() < 1e-6, "normal", "{}: a normal of length {}", what, len(nn));
    ensure!(dot(nn, d) < 0., "normal", "{}: the normal {:?} does not face the ray {:?}", what, nn, d);
    let sg = dot(nn, n).signum();
    ensure!((dot(nn, n).abs() - 1.).abs() < 1e-7, "normal", "{}: normal {:?}, expected {:?}", what, nn, n);
    let h = 1e-4;
    let ((pu1, nu1), (pu0, nu0)) = (at(u + h, v), at(u - h, v));
    let ((pv1, nv1), (pv0, nv0)) = (at(u, v + h), at(u, v - h));
    for (name, got, hi, lo, k) in [
        ("dpdu", vv(info.dpdu), pu1, pu0, 1.),
        ("dpdv", vv(info.dpdv), pv1, pv0, 1.),
        ("dndu", vv(info.dndu), nu1, nu0, sg),
        ("dndv", vv(info.dndv), nv1, nv0, sg),
    ] {
        let e = add(hi, lo, -1.);
        let e = [e[0] * k / (2. * h), e[1] * k / (2. * h), e[2] * k / (2. * h)];
        let scale = if name.starts_with("dn") { 1. } else { size };
        ensure!(len(add(got, e, -1.)) < 1e-5 * (scale + len(e)), name, "{}: {} is {:?} at {:?} (u={} v={}), expected {:?}", what, name, got, info.p, u, v, e);
    }
    Ok(())
}

fn hit(s: &mut Src, what: &str, u: f64, v: f64, size: f64, step: f64, reflect: bool, at: &dyn Fn(f64, f64) -> (V, V), f: &dyn Fn(&Ray3D) -> Option<IntersectionInfo>, tr: &Transform) -> R {
    let (p, n) = at(u, v);
    // from either side, not grazing
    let d = dir(s);
    let c = dot(d, n);
    if c.abs() < 0.1 {
        return Ok(());
    }
    let k = if s.chance(1, 3) { s.logf(0.1, 10.) } else { 1. };
    let _ = reflect;
    let ray = Ray3D { origin: pnt(add(p, d, -step)), direction: vec([d[0] * k, d[1] * k, d[2] * k]) };
    s.note(|| format!("{} u={} v={} {:?}", what, u, v, ray));
    let info = match f(&ray) {
        Some(i) => i,
        None => bail!("missed", "{}: {:?} should hit at {:?} (u={} v={})", what, ray, p, u, v),
    };
    s.nontrivial();
    judge(what, &info, &ray, u, v, size, at)?;
    // moving the hit and back again changes nothing
    let back = info.transform(tr).inv_transform(tr);
    for (name, a, b) in [
        ("p", vp(back.p), vp(info.p)),
        ("normal", vv(back.normal), vv(info.normal)),
        ("dpdu", vv(back.dpdu), vv(info.dpdu)),
        ("dpdv", vv(back.dpdv), vv(info.dpdv)),
        ("dndu", vv(back.dndu), vv(info.dndu)),
        ("dndv", vv(back.dndv), vv(info.dndv)),
        ("uv", [back.u, back.v, 0.], [info.u, info.v, 0.]),
    ] {
        ensure!(len(add(a, b, -1.)) < 1e-8 * (1. + size + len(b)) * 10., "round-trip", "{}: {} is {:?} after moving the hit there and back, it was {:?}", what, name, a, b);
    }
    ensure!(back.side == info.side && info.side != SurfaceSide::NonApplicable, "round-trip", "{}: side {:?} became {:?}", what, info.side, back.side);
    Ok(())
}

fn uv(s: &mut Src) -> (f64, f64) {
    (s.uniform(0.02, 0.98), s.uniform(0.02, 0.98))
}

fn sphere(s: &mut Src) -> R {
    let r = s.logf(0.05, 20.);
    let (mut lo, mut hi, mut phi) = (-1., 1., 360.);
    if s.chance(2, 3) {
        lo = s.uniform(-1.2, 0.8);
        hi = lo + s.uniform(0.1, 1.5);
        phi = if s.bool() { 360. } else { s.uniform(5., 360.) };
    }
    let (clo, chi) = (f64::max(lo, -1.), f64::min(hi, 1.));
    // v goes from the top to the bottom
    let (t0, t1) = (chi.acos(), clo.acos());
    let (u, v) = uv(s);
    let th = t0 + (t1 - t0) * v;
    if th.sin() < 0.1 || chi - clo < 0.02 {
        return Ok(());
    }
    let moved = s.draw(3);
    let o = match moved {
        0 => std::vec![],
        1 => std::vec![Op::T(pt(s, 10.))],
        _ => ops(s),
    };
    let sp = match (moved, &o[..]) {
        (0, _) => Sphere3D::new_partial_transformed(r, lo * r, hi * r, phi, None),
        (1, [Op::T(c)]) => Sphere3D::new_partial(r, pnt(*c), lo * r, hi * r, phi),
        _ => Sphere3D::new_partial_transformed(r, lo * r, hi * r, phi, Some(transform(&o).into())),
    };
    let m = phi.to_radians();
    let at = |u: f64, v: f64| {
        let (f, t) = (u * m, t0 + (t1 - t0) * v);
        let n = [t.sin() * f.cos(), t.sin() * f.sin(), t.cos()];
        (apply(&o, [n[0] * r, n[1] * r, n[2] * r], true), apply(&o, n, false))
    };
    let k = ops(s);
    let step = s.uniform(0.05, 0.19) * r;
    hit(s, &format!("sphere r={} z={}..{} phi={}", r, lo * r, hi * r, phi), u, v, 1. + r, step, true, &at, &|y| sp.intersect(y), &transform(&k))
}

fn cylinder(s: &mut Src) -> R {
    let r = s.logf(0.05, 10.);
    let h = s.logf(0.1, 4.) * r;
    let z0 = s.uniform(-1., 1.) * r;
    let phi = if s.bool() { 360. } else { s.uniform(5., 360.) };
    let o = ops(s);
    let cyl = Cylinder3D::new_transformed(r, z0, z0 + h, phi, Some(transform(&o).into()));
    let (u, v) = uv(s);
    let m = phi.to_radians();
    let at = |u: f64, v: f64| {
        let f = u * m;
        let n = [f.cos(), f.sin(), 0.];
        (apply(&o, [n[0] * r, n[1] * r, z0 + v * h], true), apply(&o, n, false))
    };
    let k = ops(s);
    let step = s.uniform(0.05, 0.19) * r;
    hit(s, &format!("cylinder r={} h={} phi={}", r, h, phi), u, v, 1. + r + h, step, true, &at, &|y| cyl.intersect(y), &transform(&k))
}

fn disk(s: &mut Src) -> R {
    let r = s.logf(0.05, 20.);
    let inner = if s.bool() { 0. } else { r * s.uniform(0.05, 0.9) };
    let phi = if s.bool() { 360. } else { s.uniform(5., 360.) };
    let (c, n, a) = (pt(s, 10.), dir(s), dir(s));
    if len(cross(n, a)) < 0.1 {
        return Ok(());
    }
    let z0 = unit(add(a, n, -dot(a, n)));
    let z1 = cross(n, z0);
    let o = ops(s);
    let placed = s.bool();
    let o = if placed { o } else { std::vec![] };
    let dk = Disk3D::new_detailed(pnt(c), vec(n), r, inner, vec(a), phi, if placed { Some(transform(&o).into()) } else { None });
    let (u, v) = uv(s);
    let m = phi.to_radians();
    let at = |u: f64, v: f64| {
        let (f, q) = (u * m, r + (inner - r) * v);
        (apply(&o, add(add(c, z0, q * f.cos()), z1, q * f.sin()), true), apply(&o, n, false))
    };
    let k = ops(s);
    let step = s.logf(0.05, 10.) * r;
    hit(s, &format!("disk r={}..{} phi={} c={:?} n={:?} zero={:?}", inner, r, phi, c, n, z0), u, v, 1. + r, step, false, &at, &|y| dk.intersect(y), &transform(&k))
}

fn triangle(s: &mut Src) -> R {
    let k = s.logf(0.1, 10.);
    let (a, b, c) = (pt(s, k), pt(s, k), pt(s, k));
    let (e1, e2) = (add(b, a, -1.), add(c, a, -1.));
    let n = cross(e1, e2);
    let longest = len(e1).max(len(e2)).max(len(add(c, b, -1.)));
    if len(n) < 0.02 * longest * longest || longest < 0.05 * k {
        return Ok(());
    }
    let n = unit(n);
    let t = match Triangle3D::new(pnt(a), pnt(b), pnt(c)) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let (mut u, mut v) = uv(s);
    if u + v > 0.98 {
        u = 1. - u;
        v = 1. - v;
    }
    if u + v > 0.98 {
        return Ok(());
    }
    let at = |u: f64, v: f64| (add(add(a, e1, u), e2, v), n);
    let tr = ops(s);
    let step = s.logf(0.05, 10.) * longest;
    hit(s, &format!("triangle {:?} {:?} {:?}", a, b, c), u, v, 1. + k, step, false, &at, &|y| t.intersect(y), &transform(&tr))
}

fn main() {
    fw::main_with(std::vec![Property {
        id: "G07",
        facets: std::vec![
            Facet::new("sphere", sphere, 200_000, 8_000_000, "the hit was judged"),
            Facet::new("cylinder", cylinder, 200_000, 8_000_000, "the hit was judged"),
            Facet::new("disk", disk, 200_000, 8_000_000, "the hit was judged"),
            Facet::new("triangle", triangle, 200_000, 8_000_000, "the hit was judged"),
        ],
        assumptions: std::vec![
            "hits are at least 2% of the range of u and v away from the ends, and (spheres) where the sine of the polar angle is at least 0.1; rays at more than 6 degrees from the surface",
            "shapes are placed by rotations and translations; triangles are not slivers",
        ],
    }])
}
