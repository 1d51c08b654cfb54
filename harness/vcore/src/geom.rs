//! G01 transforms and boxes, G02 ray intersections, G06 numeric primitives
use fw::*;
use geometry::intersection::{IntersectionInfo, SurfaceSide};
use geometry::round_error::ApproxFloat;
use geometry::{BBox3D, BBoxAxis, Cylinder3D, Disk3D, DistantSource3D, Plane3D, Point3D, Ray3D, Segment3D, Sphere3D, Transform, Triangle3D, Vector3D};
use std::f64::consts::PI;

pub fn pt(s: &mut Src, r: f64) -> Point3D {
    Point3D::new(s.f(-r, r), s.f(-r, r), s.f(-r, r))
}
/// unit vector; with axis-aligned ones included
pub fn dir(s: &mut Src) -> Vector3D {
    if s.chance(1, 8) {
        let a = s.us(0, 2);
        let g = s.sign();
        return Vector3D::new(if a == 0 { g } else { 0. }, if a == 1 { g } else { 0. }, if a == 2 { g } else { 0. });
    }
    let z = s.uniform(-1., 1.);
    let phi = s.uniform(0., 2. * PI);
    let r = (1. - z * z).max(0.).sqrt();
    Vector3D::new(r * phi.cos(), r * phi.sin(), z).get_normalized()
}
pub fn dist(a: Point3D, b: Point3D) -> f64 {
    let (x, y, z) = (a.x - b.x, a.y - b.y, a.z - b.z);
    (x * x + y * y + z * z).sqrt()
}
fn dot(a: Vector3D, b: Vector3D) -> f64 {
    a.x * b.x + a.y * b.y + a.z * b.z
}
fn cross(a: Vector3D, b: Vector3D) -> Vector3D {
    Vector3D::new(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x)
}
fn sub(a: Point3D, b: Point3D) -> Vector3D {
    Vector3D::new(a.x - b.x, a.y - b.y, a.z - b.z)
}
fn adv(a: Point3D, d: Vector3D, t: f64) -> Point3D {
    Point3D::new(a.x + d.x * t, a.y + d.y * t, a.z + d.z * t)
}
fn len(a: Vector3D) -> f64 {
    dot(a, a).sqrt()
}
/// two unit vectors perpendicular to n (right-handed: u x v = n)
pub fn frame(n: Vector3D) -> (Vector3D, Vector3D) {
    let h = if n.x.abs() < 0.6 { Vector3D::new(1., 0., 0.) } else { Vector3D::new(0., 1., 0.) };
    let mut u = cross(h, n);
    let l = len(u);
    u = Vector3D::new(u.x / l, u.y / l, u.z / l);
    (u, cross(n, u))
}

#[derive(Clone, Copy, Debug)]
enum Op {
    T(f64, f64, f64),
    S(f64, f64, f64),
    X(f64),
    Y(f64),
    Z(f64),
}
impl Op {
    fn gen(s: &mut Src, rigid: bool) -> Op {
        match s.draw(if rigid { 4 } else { 5 }) {
            0 => Op::X(s.f(-360., 360.)),
            1 => Op::Y(s.f(-360., 360.)),
            2 => Op::Z(s.f(-360., 360.)),
            3 => Op::T(s.f(-20., 20.), s.f(-20., 20.), s.f(-20., 20.)),
            _ => {
                let mut v = [0.; 3];
                for x in v.iter_mut() {
                    *x = s.sign() * s.logf(0.2, 5.);
                }
                Op::S(v[0], v[1], v[2])
            }
        }
    }
    fn tr(self) -> Transform {
        match self {
            Op::T(x, y, z) => Transform::translate(x, y, z),
            Op::S(x, y, z) => Transform::scale(x, y, z),
            Op::X(a) => Transform::rotate_x(a),
            Op::Y(a) => Transform::rotate_y(a),
            Op::Z(a) => Transform::rotate_z(a),
        }
    }
    /// reference
    fn lin(self, p: [f64; 3]) -> [f64; 3] {
        let rot = |a: f64, x: f64, y: f64| {
            let (s, c) = a.to_radians().sin_cos();
            (c * x - s * y, s * x + c * y)
        };
        match self {
            Op::T(..) => p,
            Op::S(x, y, z) => [p[0] * x, p[1] * y, p[2] * z],
            Op::X(a) => {
                let (y, z) = rot(a, p[1], p[2]);
                [p[0], y, z]
            }
            Op::Y(a) => {
                let (z, x) = rot(a, p[2], p[0]);
                [x, p[1], z]
            }
            Op::Z(a) => {
                let (x, y) = rot(a, p[0], p[1]);
                [x, y, p[2]]
            }
        }
    }
    fn point(self, p: [f64; 3]) -> [f64; 3] {
        let q = self.lin(p);
        match self {
            Op::T(x, y, z) => [q[0] + x, q[1] + y, q[2] + z],
            _ => q,
        }
    }
}
fn compose(ops: &[Op]) -> Transform {
    let mut t = Transform::new();
    for o in ops {
        t *= o.tr();
    }
    t
}
/// (A *= B) is A after B
fn ref_pt(ops: &[Op], p: Point3D) -> Point3D {
    let mut v = [p.x, p.y, p.z];
    for o in ops.iter().rev() {
        v = o.point(v);
    }
    Point3D::new(v[0], v[1], v[2])
}
fn ref_vec(ops: &[Op], p: Vector3D) -> Vector3D {
    let mut v = [p.x, p.y, p.z];
    for o in ops.iter().rev() {
        v = o.lin(v);
    }
    Vector3D::new(v[0], v[1], v[2])
}
fn vdist(a: Vector3D, b: Vector3D) -> f64 {
    len(Vector3D::new(a.x - b.x, a.y - b.y, a.z - b.z))
}

/// The errors that are reported contain those that are made (and not much more)
fn bounds(t: &Transform, p: Point3D, d: Vector3D, s: &mut Src) -> R {
    let z = Point3D::new(0., 0., 0.);
    let ax = [Vector3D::new(1., 0., 0.), Vector3D::new(0., 1., 0.), Vector3D::new(0., 0., 1.)];
    let e = Point3D::new(s.logf(1e-12, 1e-3), s.logf(1e-12, 1e-3), s.logf(1e-12, 1e-3));
    for inv in [false, true] {
        // the elements of the matrix, exactly
        let col = |k: usize| if inv { t.inv_transform_vec(ax[k]) } else { t.transform_vec(ax[k]) };
        let c = [col(0), col(1), col(2)];
        let o = if inv { t.inv_transform_pt(z) } else { t.transform_pt(z) };
        let m = [[c[0].x, c[1].x, c[2].x, o.x], [c[0].y, c[1].y, c[2].y, o.y], [c[0].z, c[1].z, c[2].z, o.z]];
        let (q, er) = if inv { t.inv_transform_pt_with_error(p) } else { t.transform_pt_with_error(p) };
        let (v, ev) = if inv { t.inv_transform_vec_with_error(d) } else { t.transform_vec_with_error(d) };
        let (qq, ep) = if inv { t.inv_transform_pt_propagate_error(p, e) } else { t.transform_pt_propagate_error(p, e) };
        let (vv, eq) = if inv { t.inv_transform_vec_propagate_error(d, e) } else { t.transform_vec_propagate_error(d, e) };
        let (got, er, ep) = ([q.x, q.y, q.z], [er.x, er.y, er.z], [ep.x, ep.y, ep.z]);
        let (gov, ev, eq) = ([v.x, v.y, v.z], [ev.x, ev.y, ev.z], [eq.x, eq.y, eq.z]);
        ensure!(q == qq && vdist(v, vv) == 0., "propagate-value", "{:?} {:?} {:?} {:?}", q, qq, v, vv);
        for i in 0..3 {
            let exact = |x: [f64; 4]| {
                let (mut hi, mut lo) = (0., 0.);
                for k in 0..4 {
                    let (a, b) = two_prod(m[i][k], x[k]);
                    let (h, l) = two_sum(hi, a);
                    hi = h;
                    lo += l + b;
                }
                (hi, lo, (0..4).map(|k| (m[i][k] * x[k]).abs()).sum::<f64>())
            };
            let (hi, lo, sum) = exact([p.x, p.y, p.z, 1.]);
            let err = ((got[i] - hi) - lo).abs();
            // (four roundings, of which three are considered)
            ensure!(er[i] * 1.34 >= err && er[i] <= 2e-14 * sum + 1e-300, "error-of-point", "coordinate {} of {:?} (inverse: {}) has error {:e} and reports {:e}; its terms add up to {:e}", i, p, inv, err, er[i], sum);
            let (hi, lo, vsum) = exact([d.x, d.y, d.z, 0.]);
            let err = ((gov[i] - hi) - lo).abs();
            ensure!(ev[i] * 1.34 >= err && ev[i] <= 2e-14 * (vsum + m[i][3].abs()) + 1e-300, "error-of-vector", "coordinate {} of {:?} (inverse: {}) has error {:e} and reports {:e}; its terms add up to {:e}", i, d, inv, err, ev[i], vsum);
            let (_, _, grown) = exact([e.x, e.y, e.z, 0.]);
            ensure!(ep[i] >= grown * (1. - 1e-12) && ep[i] <= grown * (1. + 1e-12) + er[i] * (1. + 1e-9), "propagate-point", "{:?} becomes {:?} instead of {:e} in coordinate {} (inverse: {})", e, ep, grown, i, inv);
            ensure!(eq[i] >= grown * (1. - 1e-12) && eq[i] <= grown * (1. + 1e-12) + ev[i] * (1. + 1e-9), "propagate-vector", "{:?} becomes {:?} instead of {:e} in coordinate {} (inverse: {})", e, eq, grown, i, inv);
        }
    }
    Ok(())
}
fn transforms(s: &mut Src) -> R {
    let n = s.us(0, 4);
    let ops: Vec<Op> = (0..n).map(|_| Op::gen(s, false)).collect();
    let t = compose(&ops);
    let p = pt(s, 10.);
    let d = dir(s);
    let kinds = ops.iter().map(|o| std::mem::discriminant(o)).collect::<std::collections::HashSet<_>>().len();
    s.nontrivial_if(kinds >= 2);
    s.note(|| format!("{:?} on {:?}", ops, p));
    let e = 1e-8; // coordinates of at most a few thousands
    let scale = 1. + dist(ref_pt(&ops, p), Point3D::new(0., 0., 0.));
    let q = t.transform_pt(p);
    ensure!(dist(q, ref_pt(&ops, p)) < e * scale, "point", "{:?}: {:?} became {:?}, expected {:?}", ops, p, q, ref_pt(&ops, p));
    let v = t.transform_vec(d);
    ensure!(vdist(v, ref_vec(&ops, d)) < e * 700., "vector", "{:?}: vector {:?} became {:?}, expected {:?}", ops, d, v, ref_vec(&ops, d));
    // inverses
    let back = t.inv_transform_pt(q);
    let amp = 1e-6 * scale;
    ensure!(dist(back, p) < amp, "inverse-point", "{:?}: {:?} comes back as {:?}", ops, p, back);
    let back = t.transform_pt(t.inv_transform_pt(p));
    ensure!(dist(back, p) < 1e-6 * 2000., "inverse-point2", "{:?}: {:?} comes back as {:?}", ops, p, back);
    let bv = t.inv_transform_vec(v);
    ensure!(vdist(bv, d) < 1e-8 * 700., "inverse-vector", "{:?}: vector {:?} comes back as {:?}", ops, d, bv);
    // with error
    let (qe, er) = t.transform_pt_with_error(p);
    ensure!(dist(qe, q) < 1e-12 * scale.max(1.) && er.x >= 0. && er.y >= 0. && er.z >= 0. && er.x + er.y + er.z < 1e-11 * scale.max(2e4), "error-bound", "{:?}: {:?} with error {:?}", ops, qe, er);
    let (qe, er) = t.inv_transform_pt_with_error(p);
    ensure!(dist(qe, t.inv_transform_pt(p)) < 1e-9 * scale.max(1.) && er.x >= 0. && er.y >= 0. && er.z >= 0., "error-bound", "{:?}: {:?} with error {:?}", ops, qe, er);
    let (ve, er) = t.transform_vec_with_error(d);
    ensure!(vdist(ve, v) < 1e-12 * scale.max(1.) && er.x >= 0. && er.y >= 0. && er.z >= 0., "error-bound", "{:?}: {:?} with error {:?}", ops, ve, er);
    bounds(&t, p, d, s)?;
    // normals stay perpendicular to the surface, and on the same side of it
    let (a, b) = frame(d);
    let (ta, tb, tn) = (t.transform_vec(a), t.transform_vec(b), t.transform_normal(d));
    let off = tb * 0.; // keeps Vector3D: Copy honest
    let _ = off;
    let k = len(tn);
    ensure!((dot(tn, ta) / (k * len(ta))).abs() < 1e-6 && (dot(tn, tb) / (k * len(tb))).abs() < 1e-6, "normal", "{:?}: normal {:?} became {:?}, which is not perpendicular to the surface", ops, d, tn);
    ensure!(dot(tn, v) > 0., "normal-side", "{:?}: normal {:?} changed sides: {:?}", ops, d, tn);
    let inn = t.inv_transform_normal(tn);
    ensure!(vdist(inn, d) < 1e-6, "inverse-normal", "{:?}: normal {:?} comes back as {:?}", ops, d, inn);
    // handedness
    let neg = ops.iter().filter(|o| matches!(o, Op::S(x, y, z) if x * y * z < 0.)).count();
    ensure!(t.changes_hands() == (neg % 2 == 1), "hands", "{:?}: changes_hands is {}", ops, t.changes_hands());
    // rays
    let ray = Ray3D { origin: p, direction: d };
    let (r, oe, de) = t.transform_ray(&ray);
    ensure!(vdist(r.direction, v) < 1e-12 * scale.max(1.), "ray-direction", "{:?}: direction {:?} became {:?}", ops, d, r.direction);
    ensure!(dist(r.origin, q) < 1e-9 * scale.max(2e4), "ray-origin", "{:?}: origin {:?} became {:?}, expected {:?}", ops, p, r.origin, q);
    ensure!(oe.x >= 0. && de.x >= 0., "error-bound", "ray");
    let (r2, ..) = t.inv_transform_ray(&r);
    ensure!(vdist(r2.direction, d) < 1e-5 && dist(r2.origin, p) < 1e-5 * scale, "ray-inverse", "{:?}: ray {:?} comes back as {:?}", ops, ray, r2);
    let (r3, oe3, _) = t.transform_ray_propagate_error(&ray, Point3D::new(1e-9, 1e-9, 1e-9), Point3D::new(1e-9, 1e-9, 1e-9));
    ensure!(vdist(r3.direction, v) < 1e-12 * scale.max(1.) && oe3.x >= oe.x * 0.999999 && oe3.y >= oe.y * 0.999999 && oe3.z >= oe.z * 0.999999, "propagate", "{:?}: propagated error {:?} is smaller than {:?}", ops, oe3, oe);
    let (r4, ..) = t.inv_transform_ray_propagate_error(&r, Point3D::new(0., 0., 0.), Point3D::new(0., 0., 0.));
    ensure!(vdist(r4.direction, d) < 1e-5 && dist(r4.origin, p) < 1e-5 * scale, "ray-inverse", "{:?}: ray {:?} comes back (with errors) as {:?}", ops, ray, r4);
    // boxes
    let (b0, b1) = (pt(s, 10.), pt(s, 10.));
    let bb = BBox3D::new(b0, b1);
    let tb = t.transform_bbox(bb);
    let ib = t.inv_transform_bbox(bb);
    let mut lo = [f64::MAX; 3];
    let mut hi = [f64::MIN; 3];
    for i in 0..8 {
        let c = Point3D::new(if i & 1 == 0 { b0.x } else { b1.x }, if i & 2 == 0 { b0.y } else { b1.y }, if i & 4 == 0 { b0.z } else { b1.z });
        let x = ref_pt(&ops, c);
        for (k, v) in [x.x, x.y, x.z].into_iter().enumerate() {
            lo[k] = lo[k].min(v);
            hi[k] = hi[k].max(v);
        }
        let y = t.inv_transform_pt(c);
        ensure!(y.x >= ib.min.x && y.x <= ib.max.x && y.y >= ib.min.y && y.y <= ib.max.y && y.z >= ib.min.z && y.z <= ib.max.z, "inverse-bbox", "{:?}: {:?} -> {:?} is out of {:?}", ops, c, y, ib);
    }
    let tol = 1e-7 * 1e3;
    for (a, b) in [(tb.min.x, lo[0]), (tb.min.y, lo[1]), (tb.min.z, lo[2]), (tb.max.x, hi[0]), (tb.max.y, hi[1]), (tb.max.z, hi[2])] {
        ensure!((a - b).abs() < tol, "bbox", "{:?}: box {:?} became {:?}, expected {:?} {:?}", ops, bb, tb, lo, hi);
    }
    Ok(())
}

fn boxes(s: &mut Src) -> R {
    let gp = |s: &mut Src| Point3D::new(s.int(-6, 6) as f64, s.int(-6, 6) as f64, s.int(-6, 6) as f64);
    let (a, b, c, d) = (gp(s), gp(s), gp(s), gp(s));
    let p = if s.bool() { gp(s) } else { pt(s, 7.) };
    let b1 = BBox3D::new(a, b);
    let b2 = BBox3D::new(c, d);
    let ar = |p: Point3D| [p.x, p.y, p.z];
    let (a, b, c, d) = (ar(a), ar(b), ar(c), ar(d));
    let lo1: Vec<f64> = (0..3).map(|i| a[i].min(b[i])).collect();
    let hi1: Vec<f64> = (0..3).map(|i| a[i].max(b[i])).collect();
    let lo2: Vec<f64> = (0..3).map(|i| c[i].min(d[i])).collect();
    let hi2: Vec<f64> = (0..3).map(|i| c[i].max(d[i])).collect();
    let eq = |bb: &BBox3D, lo: &[f64], hi: &[f64]| ar(bb.min)[..] == lo[..] && ar(bb.max)[..] == hi[..];
    ensure!(eq(&b1, &lo1, &hi1), "new", "{:?} and {:?} gave {:?}", a, b, b1);
    let u = BBox3D::from_union(&b1, &b2);
    let mn = |x: &[f64], y: &[f64]| -> Vec<f64> { (0..3).map(|i| x[i].min(y[i])).collect() };
    let mx = |x: &[f64], y: &[f64]| -> Vec<f64> { (0..3).map(|i| x[i].max(y[i])).collect() };
    ensure!(eq(&u, &mn(&lo1, &lo2), &mx(&hi1, &hi2)), "union", "union of {:?} and {:?} is {:?}", b1, b2, u);
    let up = BBox3D::from_union_point(&b1, p);
    ensure!(eq(&up, &mn(&lo1, &ar(p)), &mx(&hi1, &ar(p))), "union-point", "union of {:?} and {:?} is {:?}", b1, p, up);
    ensure!(eq(&BBox3D::from_point(p), &ar(p), &ar(p)), "from-point", "from_point");
    let over = (0..3).all(|i| hi1[i] >= lo2[i] && lo1[i] <= hi2[i]);
    ensure!(b1.overlaps(&b2) == over && b2.overlaps(&b1) == over, "overlaps", "{:?} and {:?} overlap: {}", b1, b2, b1.overlaps(&b2));
    if over {
        s.nontrivial();
        let x = BBox3D::from_intersection(&b1, &b2);
        ensure!(eq(&x, &mx(&lo1, &lo2), &mn(&hi1, &hi2)), "intersection", "intersection of {:?} and {:?} is {:?}", b1, b2, x);
    }
    let p_ = ar(p);
    ensure!(b1.point_inside(p) == (0..3).all(|i| p_[i] >= lo1[i] && p_[i] <= hi1[i]), "inside", "{:?} in {:?}", p, b1);
    ensure!(b1.point_inside_exclusive(p) == (0..3).all(|i| p_[i] >= lo1[i] && p_[i] < hi1[i]), "inside-exclusive", "{:?} in {:?}", p, b1);
    let e: Vec<f64> = (0..3).map(|i| hi1[i] - lo1[i]).collect();
    ensure!(b1.surface_area() == 2. * (e[0] * e[1] + e[1] * e[2] + e[0] * e[2]), "surface", "surface of {:?} is {}", b1, b1.surface_area());
    let m = match b1.max_extent() {
        BBoxAxis::X => e[0],
        BBoxAxis::Y => e[1],
        BBoxAxis::Z => e[2],
    };
    ensure!(m == e[0].max(e[1]).max(e[2]), "max-extent", "max_extent of {:?}", b1);
    s.note(|| format!("{:?} {:?}", b1, b2));
    Ok(())
}

fn box_ray(s: &mut Src) -> R {
    let c = pt(s, 5.);
    let flat = s.chance(1, 6);
    let h = [s.logf(0.01, 4.), s.logf(0.01, 4.), if flat { 0.0 } else { s.logf(0.01, 4.) }];
    let bb = BBox3D::new(Point3D::new(c.x - h[0], c.y - h[1], c.z - h[2]), Point3D::new(c.x + h[0], c.y + h[1], c.z + h[2]));
    let d = dir(s);
    let k = s.logf(0.1, 10.);
    let d = d * k;
    let o = if s.chance(1, 5) {
        // inside
        Point3D::new(c.x + h[0] * s.uniform(-0.9, 0.9), c.y + h[1] * s.uniform(-0.9, 0.9), c.z + h[2] * s.uniform(-0.9, 0.9))
    } else if s.bool() {
        // aim at a point of the box
        let q = Point3D::new(c.x + h[0] * s.uniform(-1., 1.), c.y + h[1] * s.uniform(-1., 1.), c.z + h[2] * s.uniform(-1., 1.));
        let t = s.uniform(-20., 20.);
        adv(q, d, -t)
    } else {
        pt(s, 12.)
    };
    // reference, with a tolerance
    let hit = |m: f64| -> bool {
        let (mut t0, mut t1) = (0.0f64, f64::INFINITY);
        for (o, d, c, h) in [(o.x, d.x, c.x, h[0]), (o.y, d.y, c.y, h[1]), (o.z, d.z, c.z, h[2])] {
            let h = h + m;
            if h < 0. {
                return false;
            }
            if d == 0. {
                if (o - c).abs() > h {
                    return false;
                }
            } else {
                let (a, b) = ((c - h - o) / d, (c + h - o) / d);
                t0 = t0.max(a.min(b));
                t1 = t1.min(a.max(b));
            }
        }
        t0 <= t1
    };
    let ray = Ray3D { origin: o, direction: d };
    let inv = Vector3D::new(1. / d.x, 1. / d.y, 1. / d.z);
    let got = bb.intersect(ray, &inv);
    let flat_hit = flat && d.z != 0. && hit(1e-9) && {
        // a flat box can be hit, too
        let t = (c.z - o.z) / d.z;
        let q = adv(o, d, t);
        t > 1e-6 && (q.x - c.x).abs() < h[0] - 1e-6 && (q.y - c.y).abs() < h[1] - 1e-6
    };
    s.note(|| format!("{:?} and {:?}: {}", bb, ray, got));
    if hit(-1e-6) || flat_hit {
        s.nontrivial();
        ensure!(got, "miss", "{:?} should hit {:?}", ray, bb);
    } else if !hit(1e-6) {
        ensure!(!got, "hit", "{:?} should not hit {:?}", ray, bb);
    }
    Ok(())
}

pub fn g01() -> Property {
    Property {
        id: "G01",
        facets: vec![
            Facet::new("transforms", transforms, 150_000, 6_000_000, "at least two kinds of elementary transform are composed"),
            Facet::new("boxes", boxes, 200_000, 4_000_000, "the boxes overlap"),
            Facet::new("box_ray", box_ray, 200_000, 6_000_000, "the ray goes through the box"),
        ],
        assumptions: vec!["up to four elementary transforms are composed, scales between 0.2 and 5", "rays that graze a box within 1e-6 are not judged"],
    }
}

fn info_ok(what: &str, ray: &Ray3D, info: &IntersectionInfo, p: Point3D, n: Vector3D, tol: f64, front: Option<bool>) -> R {
    ensure!(dist(info.p, p) < tol, "hit-point", "{}: {:?} hits {:?}, expected {:?}", what, ray, info.p, p);
    let k = len(info.normal);
    let c = dot(info.normal, n) / (k * len(n));
    ensure!(c.abs() > 1. - 1e-6, "normal", "{}: {:?} has normal {:?}, expected {:?}", what, ray, info.normal, n);
    let dn = dot(n, ray.direction) / len(ray.direction) / len(n);
    if dn.abs() > 1e-4 {
        ensure!(dot(info.normal, ray.direction) < 0., "normal-side", "{}: {:?} hits with normal {:?}, which does not face the ray", what, ray, info.normal);
        ensure!(info.side != SurfaceSide::NonApplicable, "side", "{}: no side", what);
        if let Some(f) = front {
            ensure!((info.side == SurfaceSide::Front) == f, "side", "{}: {:?} hits side {:?}", what, ray, info.side);
        }
    }
    Ok(())
}

fn rigid_ops(s: &mut Src) -> Vec<Op> {
    let n = s.us(0, 3);
    (0..n).map(|_| Op::gen(s, true)).collect()
}

/// Reference for surfaces of revolution, in local coordinates. Returns the hit, or Err if too close to call
fn revolution(o: Point3D, d: Vector3D, roots: Option<(f64, f64)>, inside: &dyn Fn(Point3D) -> Result<bool, ()>) -> Result<Option<f64>, ()> {
    let (t0, t1) = match roots {
        None => return Ok(None),
        Some(x) => x,
    };
    for t in [t0, t1] {
        if t.abs() < 1e-6 {
            return Err(());
        }
        if t < 0. {
            continue;
        }
        if inside(adv(o, d, t))? {
            return Ok(Some(t));
        }
    }
    Ok(None)
}
fn quad(a: f64, b: f64, c: f64, margin: f64) -> Result<Option<(f64, f64)>, ()> {
    if a.abs() < 1e-9 {
        return Err(());
    }
    // half-b form
    let b = b / 2.;
    let disc = b * b - a * c;
    if disc.abs() < margin {
        return Err(());
    }
    if disc < 0. {
        return Ok(None);
    }
    let q = -(b + b.signum() * disc.sqrt());
    if q.abs() < 1e-9 {
        return Err(());
    }
    let (x, y) = (q / a, c / q);
    Ok(Some((x.min(y), x.max(y))))
}
fn phi_ok(x: f64, y: f64, max_deg: f64) -> Result<bool, ()> {
    if max_deg >= 360. {
        return Ok(true);
    }
    let mut phi = y.atan2(x).to_degrees();
    if phi < 0. {
        phi += 360.
    }
    if (phi - max_deg).abs() < 1e-3 || phi < 1e-3 || phi > 360. - 1e-3 {
        return Err(());
    }
    Ok(phi < max_deg)
}
fn between(z: f64, lo: f64, hi: f64, r: f64) -> Result<bool, ()> {
    let m = 1e-4 * r;
    if (z - lo).abs() < m || (z - hi).abs() < m {
        return Err(());
    }
    Ok(z > lo && z < hi)
}
/// a local ray that has a good chance of hitting something of radius r around the origin
fn aim(s: &mut Src, r: f64) -> (Point3D, Vector3D) {
    let d = dir(s);
    let q = pt(s, 1.2 * r);
    let t = s.uniform(-1., 8.) * r;
    let k = if s.chance(1, 4) { s.logf(0.1, 10.) } else { 1.0 };
    (adv(q, d, -t), d * k)
}

fn sphere(s: &mut Src) -> R {
    let r = s.logf(0.05, 20.);
    let partial = s.chance(1, 2);
    let (mut zmin, mut zmax, mut phi) = (-2. * r, 2. * r, 360.);
    if partial {
        let (a, b) = (s.uniform(-1.3, 1.3) * r, s.uniform(-1.3, 1.3) * r);
        zmin = a.min(b);
        zmax = a.max(b);
        if zmax - zmin < 0.01 * r {
            zmax = zmin + 0.01 * r;
        }
        if zmin > 0.99 * r || zmax < -0.99 * r {
            return Ok(());
        }
        phi = if s.bool() { 360. } else { s.uniform(5., 360.) };
    }
    let (mut o, mut d) = aim(s, r);
    if s.chance(1, 10) {
        // exactly through the poles
        let z = s.f(0., 4.) * r;
        let sg = s.sign();
        o = Point3D::new(0., 0., sg * z);
        d = Vector3D::new(0., 0., s.sign());
    }
    let way = s.draw(3);
    let centre = pt(s, 10.);
    let ops = if way == 1 { rigid_ops(s) } else { vec![] };
    let sp = match way {
        0 if partial => Sphere3D::new_partial(r, centre, zmin, zmax, phi),
        0 => Sphere3D::new(r, centre),
        1 if partial => Sphere3D::new_partial_transformed(r, zmin, zmax, phi, Some(compose(&ops).into())),
        1 => Sphere3D::new_transformed(r, Some(compose(&ops).into())),
        _ => Sphere3D::new_partial_transformed(r, zmin, zmax, phi, None),
    };
    let world = |p: Point3D| match way {
        0 => Point3D::new(p.x + centre.x, p.y + centre.y, p.z + centre.z),
        1 => ref_pt(&ops, p),
        _ => p,
    };
    let wvec = |v: Vector3D| if way == 1 { ref_vec(&ops, v) } else { v };
    ensure!(dist(sp.centre(), world(Point3D::new(0., 0., 0.))) < 1e-9 * (1. + 100.), "centre", "centre is {:?}", sp.centre());
    let (lo, hi) = (zmin.max(-r), zmax.min(r));
    let area = phi.to_radians() * r * (hi - lo);
    ensure!(close(sp.area(), area, 1e-9, 1e-12), "area", "area of a sphere r={} z in [{}, {}] phi {} is {}", r, lo, hi, phi, sp.area());
    let a = dot(d, d);
    let oo = Vector3D::new(o.x, o.y, o.z);
    let exp = quad(a, 2. * dot(oo, d), dot(oo, oo) - r * r, 1e-6 * a * (r * r + dot(oo, oo))).and_then(|roots| {
        revolution(o, d, roots, &|p| {
            let zc = if zmin > -r || zmax < r { between(p.z, if zmin > -r { zmin } else { -9. * r }, if zmax < r { zmax } else { 9. * r }, r)? } else { true };
            if phi < 360. && (p.x * p.x + p.y * p.y) < 1e-8 * r * r {
                return Err(());
            }
            Ok(zc && phi_ok(p.x, p.y, phi)?)
        })
    });
    let exp = match exp {
        Ok(e) => e,
        Err(()) => return Ok(()),
    };
    let ray = Ray3D { origin: world(o), direction: wvec(d) };
    let got = sp.intersect(&ray);
    let simple = sp.simple_intersect(&ray);
    s.note(|| format!("r={} z=[{},{}] phi={} {:?} -> {:?}", r, zmin, zmax, phi, ray, exp));
    match (exp, got) {
        (None, None) => ensure!(simple.is_none(), "simple", "simple_intersect hits and intersect does not"),
        (Some(t), Some(info)) => {
            s.nontrivial();
            let p = adv(o, d, t);
            let tol = 1e-5 * (r + 1.) * 3.;
            let outside = dot(oo, oo) > r * r;
            // first root from outside: outer face
            let out_face = dot(Vector3D::new(p.x, p.y, p.z), d) < 0.;
            let _ = outside;
            info_ok("sphere", &ray, &info, world(p), wvec(Vector3D::new(p.x, p.y, p.z)), tol, Some(out_face))?;
            ensure!(simple.map_or(false, |q| dist(q, info.p) < tol), "simple", "simple_intersect {:?}, intersect {:?}", simple, info.p);
            let bb = sp.world_bounds();
            let q = info.p;
            let m = tol;
            ensure!(q.x >= bb.min.x - m && q.x <= bb.max.x + m && q.y >= bb.min.y - m && q.y <= bb.max.y + m && q.z >= bb.min.z - m && q.z <= bb.max.z + m, "bounds", "hit {:?} out of bounds {:?}", q, bb);
        }
        (e, g) => bail!("hit", "sphere r={} z=[{},{}] phi={} {:?}: {:?}, expected {:?}", r, zmin, zmax, phi, ray, g.map(|x| x.p), e.map(|t| world(adv(o, d, t)))),
    }
    Ok(())
}

fn cylinder(s: &mut Src) -> R {
    let r = s.logf(0.05, 10.);
    let h = s.logf(0.1, 4.) * r;
    let (mut o, d) = aim(s, r.max(h / 2.));
    o.z += h / 2.;
    let two_points = s.bool();
    let (p0, ax) = (pt(s, 10.), dir(s));
    let phi = if two_points || s.bool() { 360. } else { s.uniform(5., 360.) };
    let ops = if two_points { vec![] } else { rigid_ops(s) };
    let zmin = if two_points { 0. } else { s.uniform(-1., 1.) * r };
    let (u, v) = frame(ax);
    let cyl = if two_points {
        Cylinder3D::new(p0, adv(p0, ax, h), r)
    } else {
        Cylinder3D::new_transformed(r, zmin, zmin + h, phi, Some(compose(&ops).into()))
    };
    let world = |p: Point3D| if two_points { adv(adv(adv(p0, u, p.x), v, p.y), ax, p.z) } else { ref_pt(&ops, p) };
    let wvec = |p: Vector3D| if two_points { Vector3D::new(u.x * p.x + v.x * p.y + ax.x * p.z, u.y * p.x + v.y * p.y + ax.y * p.z, u.z * p.x + v.z * p.y + ax.z * p.z) } else { ref_vec(&ops, p) };
    ensure!(close(cyl.area(), phi.to_radians() * r * h, 1e-9, 1e-12), "area", "area of a cylinder r={} h={} phi={} is {}", r, h, phi, cyl.area());
    let a = d.x * d.x + d.y * d.y;
    let exp = quad(a, 2. * (o.x * d.x + o.y * d.y), o.x * o.x + o.y * o.y - r * r, 1e-6 * a * (r * r + o.x * o.x + o.y * o.y) + 1e-9).and_then(|roots| revolution(o, d, roots, &|p| Ok(between(p.z, zmin, zmin + h, r)? && phi_ok(p.x, p.y, phi)?)));
    let exp = match exp {
        Ok(e) => e,
        Err(()) => return Ok(()),
    };
    if a < 1e-3 * dot(d, d) {
        return Ok(());
    }
    let ray = Ray3D { origin: world(o), direction: wvec(d) };
    let got = cyl.intersect(&ray);
    let simple = cyl.simple_intersect(&ray);
    s.note(|| format!("r={} h={} phi={} {:?} -> {:?}", r, h, phi, ray, exp));
    match (exp, got) {
        (None, None) => ensure!(simple.is_none(), "simple", "simple_intersect hits and intersect does not"),
        (Some(t), Some(info)) => {
            s.nontrivial();
            let p = adv(o, d, t);
            let tol = 1e-6 * (r + h + 1.) * 10.;
            info_ok("cylinder", &ray, &info, world(p), wvec(Vector3D::new(p.x, p.y, 0.)), tol, None)?;
            ensure!(simple.map_or(false, |q| dist(q, info.p) < tol), "simple", "simple_intersect {:?}, intersect {:?}", simple, info.p);
            let bb = cyl.world_bounds();
            let (q, m) = (info.p, tol);
            ensure!(q.x >= bb.min.x - m && q.x <= bb.max.x + m && q.y >= bb.min.y - m && q.y <= bb.max.y + m && q.z >= bb.min.z - m && q.z <= bb.max.z + m, "bounds", "hit {:?} out of bounds {:?}", q, bb);
            // the other face of the same point
            let out = Point3D::new(p.x * 2., p.y * 2., p.z);
            let inn = Point3D::new(p.x * 0.5, p.y * 0.5, p.z);
            let ro = Ray3D { origin: world(out), direction: wvec(Vector3D::new(-p.x, -p.y, 0.)) };
            let ri = Ray3D { origin: world(inn), direction: wvec(Vector3D::new(p.x, p.y, 0.)) };
            match (cyl.intersect(&ro), cyl.intersect(&ri)) {
                (Some(a), Some(b)) => {
                    ensure!(dist(a.p, world(p)) < 2. * tol && dist(b.p, world(p)) < 2. * tol, "radial", "radial rays at {:?} hit {:?} and {:?}", world(p), a.p, b.p);
                    ensure!(a.side != b.side, "side", "both faces of a cylinder are {:?}", a.side)
                }
                _ => bail!("radial", "a radial ray misses the cylinder at {:?}", p),
            }
        }
        (e, g) => bail!("hit", "cylinder r={} h={} phi={} ({:?} to {:?}) {:?}: {:?}, expected {:?}", r, h, phi, p0, adv(p0, ax, h), ray, g.map(|x| x.p), e.map(|t| world(adv(o, d, t)))),
    }
    Ok(())
}

fn disk(s: &mut Src) -> R {
    let r = s.logf(0.05, 20.);
    let c = pt(s, 10.);
    let n = dir(s);
    let det = s.bool();
    let inner = if det { r * s.uniform(0., 0.9) } else { 0. };
    let phi = if det && s.bool() { s.uniform(5., 359.) } else { 360. };
    let (u, v) = frame(n);
    let th = s.uniform(0., 2. * PI);
    // zero direction, and the one 90 degrees counterclockwise around the normal
    let z0 = Vector3D::new(u.x * th.cos() + v.x * th.sin(), u.y * th.cos() + v.y * th.sin(), u.z * th.cos() + v.z * th.sin());
    let z1 = cross(n, z0);
    let k = s.uniform(-2., 2.);
    let dk = if det { Disk3D::new_detailed(c, n * s.logf(0.1, 10.), r, inner, z0 * 2. + n * k, phi, None) } else { Disk3D::new(c, n, r) };
    ensure!(close(dk.area(), phi.to_radians() / 2. * (r * r - inner * inner), 1e-9, 1e-12), "area", "area of a disk {} is {}", r, dk.area());
    let (x, y) = (s.uniform(-1.3, 1.3) * r, s.uniform(-1.3, 1.3) * r);
    let q = adv(adv(c, z0, x), z1, y);
    let d = dir(s) * s.logf(0.3, 3.);
    let cosd = dot(d, n) / len(d);
    if cosd.abs() < 1e-2 {
        return Ok(());
    }
    let t = s.uniform(-2., 10.) * r;
    let ray = Ray3D { origin: adv(q, d, -t), direction: d };
    let rr = (x * x + y * y).sqrt();
    if t.abs() < 1e-4 * r || (rr - r).abs() < 1e-4 * r || (rr - inner).abs() < 1e-4 * r || rr < 1e-3 * r {
        return Ok(());
    }
    let ph = match phi_ok(x, y, phi) {
        Ok(p) => p,
        Err(()) => return Ok(()),
    };
    let exp = t > 0. && rr < r && rr > inner && ph;
    let got = dk.intersect(&ray);
    let simple = dk.simple_intersect(&ray);
    s.nontrivial_if(exp);
    s.note(|| format!("c={:?} n={:?} r={}..{} phi={} {:?}: {}", c, n, inner, r, phi, ray, exp));
    ensure!(got.is_some() == exp, "hit", "disk c={:?} n={:?} r={}..{} phi={} {:?}: {:?}, expected {:?}", c, n, inner, r, phi, ray, got.map(|i| i.p), if exp { Some(q) } else { None });
    ensure!(simple.is_some() == exp, "simple", "simple_intersect is {:?}", simple);
    if let Some(info) = got {
        info_ok("disk", &ray, &info, q, n, 1e-8 * (1. + r) * 100., Some(dot(n, d) < 0.))?;
        ensure!(dist(simple.unwrap(), q) < 1e-8 * (1. + r) * 100., "simple", "simple_intersect");
    }
    // plane
    let pl = Plane3D::new(c, n * 3.);
    match pl.intersect(&ray) {
        Some(tt) => ensure!(t > 0. && (tt - t).abs() < 1e-7 * (1. + t.abs()) * 100., "plane", "plane {:?} {:?} {:?}: t={}, expected {}", c, n, ray, tt, t),
        None => ensure!(t < 0., "plane", "plane {:?} {:?} {:?}: missed, t={}", c, n, ray, t),
    }
    // a distant source
    let ang = s.uniform(0.005, 1.0);
    let src = DistantSource3D::new(n * 2., ang);
    let off = s.uniform(0., 1.2) * ang;
    let dd = Vector3D::new(n.x * off.cos() + z0.x * off.sin(), n.y * off.cos() + z0.y * off.sin(), n.z * off.cos() + z0.z * off.sin());
    if (off - ang / 2.).abs() > 1e-4 {
        let hit = src.intersect(&Ray3D { origin: c, direction: dd });
        ensure!(hit.is_some() == (off < ang / 2.), "source", "source of {} rad: a ray {} rad off hits: {}", ang, off, hit.is_some());
        let hit = src.simple_intersect(&Ray3D { origin: c, direction: dd });
        ensure!(hit.is_some() == (off < ang / 2.), "source", "source of {} rad: a ray {} rad off hits (simple): {}", ang, off, hit.is_some());
    }
    Ok(())
}

fn triangle(s: &mut Src) -> R {
    let scale = s.logf(0.2, 20.);
    let (a, b, c) = (pt(s, scale), pt(s, scale), pt(s, scale));
    let (e1, e2) = (sub(b, a), sub(c, a));
    let n = cross(e1, e2);
    let area = len(n) / 2.;
    let (l1, l2, l3) = (len(e1), len(e2), len(sub(c, b)));
    let lmin = l1.min(l2).min(l3);
    let lmax = l1.max(l2).max(l3);
    if lmin < 0.02 || area < 1e-3 * lmax * lmax || area < 1e-4 {
        return Ok(());
    }
    let t = Triangle3D::new(a, b, c)?;
    ensure!(close(t.area(), area, 1e-7, 0.), "area", "area of {:?} {:?} {:?} is {}, expected {}", a, b, c, t.area(), area);
    let k = dot(t.normal(), n) / len(n);
    ensure!((k - 1.).abs() < 1e-7, "normal", "normal of {:?} {:?} {:?} is {:?}", a, b, c, t.normal());
    let cc = t.circumcenter();
    let rad = t.circumradius();
    for p in [a, b, c] {
        ensure!(close(dist(cc, p), rad, 1e-5, 1e-6), "circum", "circumcenter {:?} is at {} of {:?}, radius {}", cc, dist(cc, p), p, rad);
    }
    ensure!(close(t.aspect_ratio(), rad / lmin, 1e-9, 0.), "aspect", "aspect ratio {}", t.aspect_ratio());
    let g = t.centroid();
    ensure!(dist(g, Point3D::new((a.x + b.x + c.x) / 3., (a.y + b.y + c.y) / 3., (a.z + b.z + c.z) / 3.)) < 1e-9 * scale, "centroid", "centroid {:?}", g);
    // barycentric target
    let (u, v) = (s.uniform(-0.4, 1.4), s.uniform(-0.4, 1.4));
    let w = 1. - u - v;
    let q = adv(adv(a, e1, u), e2, v);
    let d = dir(s) * s.logf(0.3, 3.);
    let cosd = dot(d, n) / len(d) / len(n);
    let tt = s.uniform(-2., 10.) * scale;
    let m = 1e-4;
    let edge = u.abs() < m || v.abs() < m || w.abs() < m;
    if edge {
        return Ok(());
    }
    let inside = u > 0. && v > 0. && w > 0.;
    // point in triangle
    let loc = t.test_point(q);
    ensure!((loc != geometry::PointInTriangle::Outside) == inside, "test-point", "{:?} in {:?} {:?} {:?} (u={}, v={}): {:?}", q, a, b, c, u, v, loc);
    if inside {
        ensure!(loc == geometry::PointInTriangle::Inside, "test-point", "{:?}", loc);
    }
    if cosd.abs() < 1e-2 || tt.abs() < 1e-3 * scale {
        return Ok(());
    }
    let ray = Ray3D { origin: adv(q, d, -tt), direction: d };
    let exp = inside && tt > 0.;
    s.nontrivial_if(exp);
    s.note(|| format!("{:?} {:?} {:?} {:?}: {}", a, b, c, ray, exp));
    let got = t.intersect(&ray);
    ensure!(got.is_some() == exp, "hit", "triangle {:?} {:?} {:?}, {:?}: {:?}, expected {:?} (u={} v={} t={})", a, b, c, ray, got.map(|i| i.p), exp, u, v, tt);
    let simple = t.simple_intersect(&ray);
    ensure!(simple.is_some() == exp, "simple", "triangle {:?} {:?} {:?}, {:?}: {:?}", a, b, c, ray, simple);
    if let Some(info) = got {
        info_ok("triangle", &ray, &info, q, n, 1e-7 * scale * 10., Some(dot(n, d) < 0.))?;
        let bb = t.world_bounds();
        let mm = 1e-6 * scale;
        let p = info.p;
        ensure!(p.x >= bb.min.x - mm && p.x <= bb.max.x + mm && p.y >= bb.min.y - mm && p.y <= bb.max.y + mm && p.z >= bb.min.z - mm && p.z <= bb.max.z + mm, "bounds", "{:?} out of {:?}", p, bb);
    }
    Ok(())
}

/// The corners and edges of a triangle, where points are with respect to them, and moving a corner
fn corners(s: &mut Src) -> R {
    use geometry::PointInTriangle::*;
    // everything can be represented
    let g = |s: &mut Src, k: i64| Point3D::new(s.int(-k, k) as f64 / 4., s.int(-k, k) as f64 / 4., s.int(-k, k) as f64 / 4.);
    let (a, b, c, d) = (g(s, 30), g(s, 30), g(s, 30), g(s, 30));
    let flat = |a: Point3D, b: Point3D, c: Point3D| {
        let n = cross(sub(b, a), sub(c, a));
        let l = dist(a, b).max(dist(b, c)).max(dist(c, a));
        len(n) < 0.05 * l * l
    };
    if flat(a, b, c) || dist(a, b).min(dist(b, c)).min(dist(c, a)) < 0.2 {
        return Ok(());
    }
    let t = Triangle3D::new(a, b, c)?;
    let v = [a, b, c];
    s.note(|| format!("{:?}", v));
    for i in 0..4 {
        if i == 3 {
            ensure!(t.vertex(3).is_err() && t.segment(3).is_err(), "indices", "a triangle has four sides");
            break;
        }
        let (p, q) = (v[i], v[(i + 1) % 3]);
        ensure!(dist(t.vertex(i)?, p) == 0., "vertex", "vertex {} of {:?} is {:?}", i, v, t.vertex(i));
        let e = t.segment(i)?;
        ensure!(dist(e.start(), p) == 0. && dist(e.end(), q) == 0., "segment", "segment {} of {:?} is {:?}", i, v, e);
        for (x, y) in [(p, q), (q, p)] {
            let k = t.get_edge_index_from_points(x, y);
            ensure!(k == Some(i) && t.get_edge_index_from_segment(&Segment3D::new(x, y)) == Some(i), "edge-index", "{:?} -> {:?} is the edge {:?} of {:?}", x, y, k, v);
        }
        ensure!(t.has_vertex(p), "has-vertex", "{:?} has no {:?}", v, p);
    }
    ensure!(dist(t.a(), a) == 0. && dist(t.b(), b) == 0. && dist(t.c(), c) == 0., "vertex", "{:?}: {}", v, t);
    // which one is d
    let close_to = v.iter().map(|p| dist(*p, d)).fold(1e9, f64::min);
    if close_to == 0. || close_to > 0.1 {
        ensure!(t.has_vertex(d) == (close_to == 0.), "has-vertex", "{:?} has {:?}: {}", v, d, t.has_vertex(d));
        let k = t.get_edge_index_from_points(d, a);
        let e = if dist(d, b) == 0. { Some(0) } else if dist(d, c) == 0. { Some(2) } else { None };
        ensure!(k == e, "edge-index", "{:?} -> {:?} is the edge {:?} of {:?}", d, a, k, v);
    }
    // points in it
    let i = s.us(0, 2);
    let loc = t.test_point(v[i]);
    ensure!(loc == [VertexA, VertexB, VertexC][i] && loc.is_vertex() && !loc.is_edge(), "test-vertex", "vertex {} of {:?} is {:?}", i, v, loc);
    let p = adv(v[i], sub(v[(i + 1) % 3], v[i]), s.int(1, 7) as f64 / 8.);
    let loc = t.test_point(p);
    // (rounding may leave it at either side of the edge of thin triangles)
    let thin = dist(a, b).max(dist(b, c)).max(dist(c, a)) > 4. * dist(a, b).min(dist(b, c)).min(dist(c, a)) || len(cross(sub(b, a), sub(c, a))) < 0.3 * dist(a, b) * dist(a, c);
    if !thin {
        ensure!(loc == [EdgeAB, EdgeBC, EdgeAC][i] && loc.is_edge() && !loc.is_vertex(), "test-edge", "a point of the edge {} of {:?} is {:?}", i, v, loc);
    }
    let loc = t.test_point(t.centroid());
    ensure!(loc == Inside && !loc.is_edge() && !loc.is_vertex(), "test-inside", "the centre of {:?} is {:?}", v, loc);
    // the same one, and others
    let (x, y, z) = *s.pick(&[(a, b, c), (b, c, a), (c, a, b), (a, c, b), (c, b, a), (b, a, c)]);
    ensure!(Triangle3D::new(x, y, z)?.compare(&t), "same", "{:?} in another order is another triangle", v);
    // moving a corner
    let mut w = v;
    w[i] = d;
    if flat(w[0], w[1], w[2]) || dist(d, v[(i + 1) % 3]).min(dist(d, v[(i + 2) % 3])) < 0.2 {
        return Ok(());
    }
    let mut moved = t.clone();
    match i {
        0 => moved.set_a(d),
        1 => moved.set_b(d),
        _ => moved.set_c(d),
    }
    let e = Triangle3D::new(w[0], w[1], w[2])?;
    s.nontrivial_if(close_to > 0.1);
    ensure!(moved.compare(&e) && (0..3).all(|k| dist(moved.vertex(k).unwrap(), w[k]) == 0.), "set", "{:?} with its corner {} at {:?} is {}", v, i, d, moved);
    ensure!(close(moved.area(), e.area(), 1e-12, 0.) && vdist(moved.normal(), e.normal()) < 1e-12, "set-area", "{:?} with its corner {} at {:?} has area {}, expected {}, and normal {:?}", v, i, d, moved.area(), e.area(), moved.normal());
    if close_to > 0.1 {
        ensure!(!moved.compare(&t) && !t.compare(&moved), "same", "{:?} and {:?} are the same", v, w);
    }
    Ok(())
}

pub fn g02() -> Property {
    Property {
        id: "G02",
        facets: vec![
            Facet::new("sphere", sphere, 200_000, 8_000_000, "the ray hits"),
            Facet::new("cylinder", cylinder, 200_000, 8_000_000, "the ray hits"),
            Facet::new("disk", disk, 200_000, 8_000_000, "the ray hits"),
            Facet::new("triangle", triangle, 200_000, 8_000_000, "the ray hits"),
            Facet::new("corners", corners, 50_000, 2_000_000, "one of its corners is moved elsewhere"),
        ],
        assumptions: vec!["grazing rays, and hits within about 1e-4 (relative) of an edge of the shape or of the origin of the ray, are not judged", "triangles are not slivers (area at least 1e-3 of the squared longest edge)"],
    }
}

// ---------- exact helpers for interval arithmetic: error-free transformations

/// sign of (x - a op b) where op is exact: returns Ordering of exact result against x
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    (p, a.mul_add(b, -p))
}
/// low <= hi_part + lo_part <= high, exactly
fn within(low: f64, high: f64, v: (f64, f64)) -> bool {
    // low <= v  <=>  (low - v.0) <= v.1 ; low - v.0 is exact when they are close (Sterbenz) and otherwise dominates
    let (d, e) = two_sum(low, -v.0);
    let lo_ok = d < v.1 || (d == v.1 && e <= 0.);
    let (d, e) = two_sum(high, -v.0);
    let hi_ok = d > v.1 || (d == v.1 && e >= 0.);
    lo_ok && hi_ok
}
fn interval(s: &mut Src) -> (ApproxFloat, f64) {
    let v = match s.draw(3) {
        0 => s.int(-9, 9) as f64,
        1 => s.f(-10., 10.),
        _ => s.sign() * s.logf(1e-6, 1e6),
    };
    let e = match s.draw(3) {
        0 => 0.0,
        1 => v.abs() * s.logf(1e-16, 1e-3),
        _ => s.logf(1e-12, 1.0),
    };
    let a = match s.draw(3) {
        0 => ApproxFloat::from(v),
        1 => ApproxFloat::from_value_and_error(v, e),
        _ => ApproxFloat::from_bounds(v - e, v + e * 2.),
    };
    // some value inside
    let x = match s.draw(4) {
        0 => a.low,
        1 => a.high,
        2 => v.clamp(a.low, a.high),
        _ => {
            let f = s.uniform(0., 1.);
            (a.low + (a.high - a.low) * f).clamp(a.low, a.high)
        }
    };
    (a, x)
}
fn intervals(s: &mut Src) -> R {
    let (a, x) = interval(s);
    let (b, y) = interval(s);
    s.nontrivial_if(a.low < a.high && b.low < b.high);
    s.note(|| format!("{:?} ({}) {:?} ({})", a, x, b, y));
    let ck = |what: &str, r: ApproxFloat, v: (f64, f64)| -> R {
        ensure!(within(r.low, r.high, v), what, "{:?} ({}) {} {:?} ({}): {:?} does not contain {}", a, x, what, b, y, r, v.0);
        // and it is not absurdly wide
        let w = a.high - a.low + b.high - b.low;
        let big = a.low.abs().max(a.high.abs()).max(b.low.abs()).max(b.high.abs()).max(1e-300);
        let lim = if what == "add" || what == "sub" || what == "neg" { w * 1.001 + 1e-15 * big * 4. } else { f64::INFINITY };
        ensure!(r.high - r.low <= lim, "wide", "{:?} {} {:?} = {:?} is too wide", a, what, b, r);
        Ok(())
    };
    ck("neg", -a, (-x, 0.))?;
    ck("add", a + b, two_sum(x, y))?;
    ck("sub", a - b, two_sum(x, -y))?;
    ck("mul", a * b, two_prod(x, y))?;
    let mut c = a;
    c += b;
    ck("add", c, two_sum(x, y))?;
    let mut c = a;
    c -= b;
    ck("sub", c, two_sum(x, -y))?;
    let mut c = a;
    c *= b;
    ck("mul", c, two_prod(x, y))?;
    // scalars
    let k = s.f(-5., 5.);
    ck("add-scalar", a + k, two_sum(x, k))?;
    ck("sub-scalar", a - k, two_sum(x, -k))?;
    ck("mul-scalar", a * k, two_prod(x, k))?;
    let mut c = a;
    c += k;
    ck("add-scalar", c, two_sum(x, k))?;
    let mut c = a;
    c -= k;
    ck("sub-scalar", c, two_sum(x, -k))?;
    let mut c = a;
    c *= k;
    ck("mul-scalar", c, two_prod(x, k))?;
    // division: x/y in r  <=>  checked through the product with one ulp of slack
    if b.low > 1e-9 || b.high < -1e-9 {
        let q = x / y;
        // exact quotient = q + rem/y
        let rem = (-q).mul_add(y, x) / y;
        ck("div", a / b, (q, rem))?;
        let mut c = a;
        c /= b;
        ck("div", c, (q, rem))?;
    }
    if k.abs() > 1e-9 {
        let q = x / k;
        let rem = (-q).mul_add(k, x) / k;
        ck("div-scalar", a / k, (q, rem))?;
        let mut c = a;
        c /= k;
        ck("div-scalar", c, (q, rem))?;
    }
    if a.low >= 0. && x > 0. {
        let q = x.sqrt();
        let rem = (-q).mul_add(q, x) / (2. * q);
        ck("sqrt", a.sqrt(), (q, rem))?;
    }
    let m = a.midpoint();
    ensure!(m >= a.low && m <= a.high && a.as_float() == m, "midpoint", "midpoint of {:?} is {}", a, m);
    ensure!(close(a.absolute_error(), (a.high - a.low) / 2., 1e-12, 1e-300), "abs-error", "{:?} has error {}", a, a.absolute_error());
    Ok(())
}

fn quadratics(s: &mut Src) -> R {
    // built from its roots
    let (r1, r2) = (s.f(-50., 50.), s.f(-50., 50.));
    let a = s.sign() * s.logf(0.01, 100.);
    let (b, c) = (-a * (r1 + r2), a * r1 * r2);
    let (lo, hi) = (r1.min(r2), r1.max(r2));
    if hi - lo < 1e-3 || b.abs() < 1e-9 {
        return Ok(());
    }
    s.nontrivial_if(lo < 0. && hi > 0.);
    s.note(|| format!("{} x2 + {} x + {}: {} {}", a, b, c, lo, hi));
    match ApproxFloat::solve_quadratic(a.into(), b.into(), c.into()) {
        None => bail!("none", "{} x2 + {} x + {} has roots {} and {}", a, b, c, lo, hi),
        Some((x, y)) => {
            ensure!(x.low <= x.high && y.low <= y.high, "inverted", "{} x2 + {} x + {}: {:?} {:?}", a, b, c, x, y);
            ensure!(close(x.as_float(), lo, 1e-7, 1e-8) && close(y.as_float(), hi, 1e-7, 1e-8), "roots", "{} x2 + {} x + {}: {:?} {:?} instead of {} and {}", a, b, c, x, y, lo, hi);
            // the exact roots of the rounded coefficients: f changes sign (or is tiny) over each interval
            let f = |v: f64| a * v * v + b * v + c;
            for (z, name) in [(x, "first"), (y, "second")] {
                let w = (z.high - z.low).max(1e-12 * (1. + z.high.abs()));
                let (f0, f1) = (f(z.low - w), f(z.high + w));
                ensure!(f0 * f1 <= 0., "bracket", "{} x2 + {} x + {}: the {} interval {:?} does not bracket a root", a, b, c, name, z);
            }
        }
    }
    // no real roots
    let k = s.logf(0.01, 100.);
    let (b, c) = (-2. * a * r1, a * (r1 * r1 + k));
    if k > 1e-6 * r1 * r1 {
        let r = ApproxFloat::solve_quadratic(a.into(), b.into(), c.into());
        ensure!(r.is_none(), "some", "{} x2 + {} x + {} has no real roots: {:?}", a, b, c, r);
    }
    Ok(())
}

fn vectors(s: &mut Src) -> R {
    let gp = |s: &mut Src| Point3D::new(s.int(-64, 64) as f64 / 8., s.int(-64, 64) as f64 / 8., s.int(-64, 64) as f64 / 8.);
    let (p, q) = (gp(s), gp(s));
    let (u, v) = (Vector3D::from(gp(s)), Vector3D::from(gp(s)));
    let k = s.int(-16, 16) as f64 / 4.;
    s.note(|| format!("{:?} {:?} {:?} {:?} {}", p, q, u, v, k));
    let veq = |a: Vector3D, b: [f64; 3]| close(a.x, b[0], 1e-14, 1e-300) && close(a.y, b[1], 1e-14, 1e-300) && close(a.z, b[2], 1e-14, 1e-300);
    let peq = |a: Point3D, b: [f64; 3]| close(a.x, b[0], 1e-14, 1e-300) && close(a.y, b[1], 1e-14, 1e-300) && close(a.z, b[2], 1e-14, 1e-300);
    ensure!(u * v == u.x * v.x + u.y * v.y + u.z * v.z, "dot", "{:?} . {:?}", u, v);
    ensure!(u * p == u.x * p.x + u.y * p.y + u.z * p.z && p * u == u * p && p * q == p.x * q.x + p.y * q.y + p.z * q.z, "dot", "{:?} . {:?}", u, p);
    let w = u.cross(v);
    ensure!(veq(w, [u.y * v.z - u.z * v.y, u.z * v.x - u.x * v.z, u.x * v.y - u.y * v.x]), "cross", "{:?} x {:?} = {:?}", u, v, w);
    ensure!(u.length_squared() == u * u && close(u.length() * u.length(), u * u, 1e-14, 0.), "length", "{:?}", u);
    ensure!(veq(u + v, [u.x + v.x, u.y + v.y, u.z + v.z]) && veq(u - v, [u.x - v.x, u.y - v.y, u.z - v.z]) && veq(-u, [-u.x, -u.y, -u.z]) && veq(u * k, [u.x * k, u.y * k, u.z * k]), "vector-ops", "{:?} {:?} {}", u, v, k);
    ensure!(peq(p + u, [p.x + u.x, p.y + u.y, p.z + u.z]) && peq(p - u, [p.x - u.x, p.y - u.y, p.z - u.z]) && veq(p - q, [p.x - q.x, p.y - q.y, p.z - q.z]) && peq(p + q, [p.x + q.x, p.y + q.y, p.z + q.z]) && peq(p * k, [p.x * k, p.y * k, p.z * k]), "point-ops", "{:?} {:?}", p, u);
    let (mut a, mut b, mut c) = (p, p, u);
    a += u;
    b -= u;
    ensure!(peq(a, [p.x + u.x, p.y + u.y, p.z + u.z]) && peq(b, [p.x - u.x, p.y - u.y, p.z - u.z]), "assign-ops", "{:?} {:?}", p, u);
    c += v;
    ensure!(veq(c, [u.x + v.x, u.y + v.y, u.z + v.z]), "assign-ops", "{:?} {:?}", p, u);
    c -= v;
    c *= k;
    ensure!(veq(c, [u.x * k, u.y * k, u.z * k]), "assign-ops", "{:?} {:?}", p, u);
    if k != 0. {
        ensure!(veq(u / k, [u.x / k, u.y / k, u.z / k]) && peq(p / k, [p.x / k, p.y / k, p.z / k]), "div", "{:?} / {}", u, k);
    }
    let (mut c, mut e) = (u, p);
    e *= k;
    if k != 0. {
        c /= k;
        ensure!(veq(c, [u.x / k, u.y / k, u.z / k]), "assign-ops", "{:?} / {}", u, k);
        e /= k;
        ensure!(dist(e, p) < 1e-12, "assign-ops", "{:?} * {} / {}", p, k, k);
    } else {
        ensure!(peq(e, [0.; 3]), "assign-ops", "{:?} * 0", p);
    }
    let mut e = p;
    e += q;
    ensure!(peq(e, [p.x + q.x, p.y + q.y, p.z + q.z]), "assign-ops", "{:?} + {:?}", p, q);
    ensure!(veq(u.abs(), [u.x.abs(), u.y.abs(), u.z.abs()]), "abs", "{:?} -> {:?}", u, u.abs());
    ensure!(veq(u.scale_components(v.x, v.y, k), [u.x * v.x, u.y * v.y, u.z * k]) && peq(p.scale_components(v.x, v.y, k), [p.x * v.x, p.y * v.y, p.z * k]), "scale", "{:?} {:?} by {} {} {}", u, p, v.x, v.y, k);
    ensure!(peq(u.as_point3d(), [u.x, u.y, u.z]) && peq(Point3D::from(u), [u.x, u.y, u.z]) && veq(Vector3D::from(p), [p.x, p.y, p.z]), "convert", "{:?} {:?}", u, p);
    ensure!(u.is_zero() == (u * u == 0.) && p.is_zero() == (p * p == 0.), "zero", "{:?} {:?}", u, p);
    // points of a plane
    let way = s.sign() * 3.;
    let (pa, pv, qv) = match s.us(0, 2) {
        0 => (Vector3D::new(way, 0., 0.), p.x, q.x),
        1 => (Vector3D::new(0., way, 0.), p.y, q.y),
        _ => (Vector3D::new(0., 0., way), p.z, q.z),
    };
    let plane = Plane3D::new(q, pa);
    ensure!(plane.test_point(q) && plane.test_point(p) == (pv == qv), "plane-point", "{:?} is in the plane of {:?} and normal {:?}: {}", p, q, pa, plane.test_point(p));
    // equal, or closer than what is asked for (in any single direction, also)
    let near = s.logf(1e-7, 10.);
    let axis = s.us(0, 2);
    let mut d = Vector3D::new(0., 0., 0.);
    match axis {
        0 => d.x = near,
        1 => d.y = near,
        _ => d.z = near,
    }
    let d = d * s.sign();
    let side = |limit: f64| if (near - limit).abs() < 1e-3 * limit { None } else { Some(near < limit) };
    if let Some(e) = side(1e-5) {
        ensure!(u.compare(u + d) == e, "compare", "{:?} and {:?} are the same: {}", u, u + d, !e);
    }
    if let Some(e) = side(1e-3) {
        ensure!(p.compare(p + d) == e, "compare", "{:?} and {:?} are the same: {}", p, p + d, !e);
    }
    let eps = s.logf(1e-7, 10.);
    if let Some(e) = side(eps) {
        ensure!(p.compare_by(p + d, eps) == e && (p + d).compare_by(p, eps) == e, "compare", "{:?} and {:?} are closer than {}: {}", p, p + d, eps, !e);
    }
    // collinear with the other two
    let c2 = cross(sub(q, p), u);
    let third = q + u;
    if dist(p, q) > 0. {
        let (g, e) = (third.squared_distance_to_line(p, q), dot(c2, c2) / dot(sub(q, p), sub(q, p)));
        ensure!(close(g, e, 1e-9, 1e-9), "line", "{:?} is {} (squared) from the line {:?} {:?}, expected {}", third, g, p, q, e);
    }
    let c = p.is_collinear(q, third);
    if dist(p, q) == 0. && u * u == 0. {
        ensure!(c.is_err(), "collinear", "{:?} three times is {:?}", p, c);
    } else {
        let e = dot(c2, c2) == 0.;
        ensure!(c == Ok(e), "collinear", "{:?} with {:?} and {:?} is {:?}", p, q, third, c);
    }
    ensure!(close(p.squared_distance(q), (p - q) * (p - q), 1e-12, 1e-300) && close(p.distance(q), p.squared_distance(q).sqrt(), 1e-12, 1e-300), "distance", "{:?} {:?}", p, q);
    let t = k;
    let r = Ray3D { origin: p, direction: u };
    ensure!(peq(r.project(t), [p.x + u.x * t, p.y + u.y * t, p.z + u.z * t]), "project", "{:?} at {}", r, t);
    let mut r2 = r;
    r2.advance(t);
    ensure!(dist(r2.origin, r.project(t)) < 1e-12 && veq(r2.direction, [u.x, u.y, u.z]), "advance", "{:?} by {}", r, t);
    if u * u > 0. {
        s.nontrivial();
        let n = u.get_normalized();
        ensure!((n.length() - 1.).abs() < 1e-14 && vdist(n * u.length(), u) < 1e-12, "normalize", "{:?} -> {:?}", u, n);
        let pe = u.get_perpendicular()?;
        ensure!((pe.length() - 1.).abs() < 1e-12 && (pe * n).abs() < 1e-12, "perpendicular", "perpendicular of {:?} is {:?}", u, pe);
        // plane distance and projection
        let dd = p.distance_to_plane(q, n);
        ensure!(close(dd, (p - q) * n, 1e-12, 1e-12), "plane-distance", "{:?}", dd);
        let pp = p.project_into_plane(q, n);
        ensure!(pp.distance_to_plane(q, n).abs() < 1e-10 && close(dist(pp, p), dd.abs(), 1e-10, 1e-10), "plane-projection", "{:?} -> {:?}", p, pp);
        // distance to a line
        let l = p.distance_to_line(q, q + u);
        let e = cross(sub(p, q), u);
        ensure!(close(l, len(e) / len(u), 1e-9, 1e-7), "line-distance", "distance from {:?} to line {:?} {:?} is {}", p, q, u, l);
        // parallels
        if u * u > 0.5 && v * v > 0.5 {
            let c2 = cross(u, v);
            let par = dot(c2, c2) == 0.;
            ensure!(u.is_parallel(v) == par, "parallel", "{:?} {:?} parallel: {}", u, v, u.is_parallel(v));
            ensure!(u.is_same_direction(v) == (par && u * v > 0.), "same-direction", "{:?} {:?}", u, v);
            let kk = s.sign() * s.int(1, 4) as f64;
            ensure!(u.is_parallel(u * kk) && u.is_same_direction(u * kk) == (kk > 0.), "parallel", "{:?} and its multiple by {}", u, kk);
            // at any scale
            let ka = 2f64.powi(s.int(-9, 14) as i32);
            let kb = 2f64.powi(s.int(-9, 14) as i32);
            let sin2 = dot(c2, c2) / dot(u, u) / dot(v, v);
            let (us, vs) = (u * ka / len(u), v * kb / len(v));
            if sin2 > 0.01 {
                ensure!(!us.is_parallel(vs), "parallel", "{:?} is parallel to {:?}", us, vs);
            } else if sin2 == 0. {
                ensure!(us.is_parallel(vs), "parallel", "{:?} is not parallel to {:?}", us, vs);
            }
        }
    }
    Ok(())
}

/// Where two segments meet, and what is in them
fn segments(s: &mut Src) -> R {
    let exact = s.bool();
    let (x, d1, d2, ta, tb);
    if exact {
        // everything can be represented
        let mut g = |s: &mut Src, k: i64| Point3D::new(s.int(-k, k) as f64 / 4., s.int(-k, k) as f64 / 4., s.int(-k, k) as f64 / 4.);
        x = g(s, 40);
        let (mut p, mut q) = (g(s, 16), g(s, 16));
        if s.bool() {
            // both in a plane with two of the axes
            match s.us(0, 2) {
                0 => (p.x, q.x) = (0., 0.),
                1 => (p.y, q.y) = (0., 0.),
                _ => (p.z, q.z) = (0., 0.),
            }
        }
        (d1, d2) = (Vector3D::from(p) * 4., Vector3D::from(q) * 4.);
        ta = s.int(-4, 8) as f64 / 4.;
        tb = s.int(-4, 8) as f64 / 4.;
    } else {
        x = pt(s, 20.);
        let (l1, l2) = (s.logf(0.05, 50.), s.logf(0.05, 50.));
        let (e1, e2) = (dir(s), dir(s));
        (d1, d2) = (e1 * l1, e2 * l2);
        ta = s.uniform(-1., 2.);
        tb = s.uniform(-1., 2.);
    }
    let (l1, l2) = (len(d1), len(d2));
    if l1 < 0.04 || l2 < 0.04 {
        return Ok(());
    }
    let a0 = adv(x, d1, -ta);
    let b0 = adv(x, d2, -tb);
    let a = Segment3D::new(a0, adv(a0, d1, 1.));
    let b = Segment3D::new(b0, adv(b0, d2, 1.));
    s.note(|| format!("{:?} {:?} at {} {}", a, b, ta, tb));
    ensure!(close(a.length(), l1, 1e-9, 0.) && dist(a.start(), a0) == 0. && dist(adv(a0, d1, 0.5), a.midpoint()) < 1e-9 * (1. + l1) && vdist(a.as_vector3d(), d1) < 1e-9 && vdist(a.as_reversed_vector3d(), -d1) < 1e-9, "segment", "{:?} is {} long", a, a.length());
    // the same, whatever the direction
    let back = Segment3D::new(a.end(), a.start());
    let off = s.logf(1e-5, 1.);
    let which = s.bool();
    let aside = dir(s) * off;
    let moved = if which { Segment3D::new(a.start() + aside, a.end()) } else { Segment3D::new(a.end(), a.start() + aside) };
    ensure!(a.compare(&a) && a.compare(&back) && back.compare(&a), "same", "{:?} is not itself", a);
    if (off - 1e-3).abs() > 1e-5 && off < 0.3 * l1 {
        ensure!(a.compare(&moved) == (off < 1e-3) && moved.compare(&a) == (off < 1e-3), "same", "{:?} and {:?} are the same: {}", a, moved, a.compare(&moved));
    }
    // what it has
    let t = if exact { s.int(-4, 8) as f64 / 4. } else { s.uniform(-1., 2.) };
    let n = cross(d1, d2);
    let sin = len(n) / l1 / l2;
    if (t.abs() * l1 > 2e-3 && (t - 1.).abs() * l1 > 2e-3) || (exact && t == 0.) {
        let p = adv(a0, d1, t);
        let e = (0. ..=1.).contains(&t);
        let g = a.contains_point(p)?;
        ensure!(g == e, "contains", "{:?} at {} of {:?} is in it: {}", p, t, a, g);
        let f = s.f(1., 4.) * (2e-5 / l1).max(2e-3);
        let q = p + dir_across(d1, s) * f;
        let g = a.contains_point(q)?;
        ensure!(!g, "contains", "{:?}, {} from {:?}, is in it", q, f, a);
        let t2 = if exact { s.int(-4, 8) as f64 / 4. } else { s.uniform(-1., 2.) };
        if (t2.abs() * l1 > 2e-3 && (t2 - 1.).abs() * l1 > 2e-3) || (exact && t2 == 0.) {
            let part = Segment3D::new(p, adv(a0, d1, t2));
            let g = a.contains(&part)?;
            ensure!(g == (e && (0. ..=1.).contains(&t2)), "contains", "{:?} has {:?} in it: {}", a, part, g);
        }
    }
    // where they meet
    let mut out = Point3D::new(1e9, 1e9, 1e9);
    if sin < 1e-9 {
        ensure!(a.get_intersection_pt(&b).is_none() && !a.intersect(&b, &mut out) && !a.touches(&b, &mut out), "parallel", "{:?} and {:?} are parallel", a, b);
        return Ok(());
    }
    if sin < 0.1 {
        return Ok(());
    }
    let unit = n * (1. / len(n));
    let away = if s.chance(1, 4) { s.logf(1e-4, 10.) * s.sign() + 3e-5 / len(n) } else { 0. };
    if away.abs() * len(n) > 2e-5 {
        let b = Segment3D::new(b.start() + unit * away, b.end() + unit * away);
        ensure!(a.get_intersection_pt(&b).is_none() && !a.intersect(&b, &mut out) && !a.touches(&b, &mut out), "apart", "{:?} and {:?} are {} apart", a, b, away);
        return Ok(());
    }
    if away != 0. {
        return Ok(());
    }
    s.nontrivial();
    match a.get_intersection_pt(&b) {
        Some((u, v)) => ensure!((u - ta).abs() < 1e-4 && (v - tb).abs() < 1e-4 && (!exact || (u - ta).abs().max((v - tb).abs()) < 1e-12), "meet", "{:?} and {:?} meet at {} and {}, not {} and {}", a, b, u, v, ta, tb),
        None => bail!("meet", "{:?} and {:?} do not meet", a, b),
    }
    let inside = |t: f64| t > 0. && t < 1.;
    let far = |t: f64| t.abs() > 1e-3 && (t - 1.).abs() > 1e-3;
    let near = |p: Point3D| dist(p, x) < 1e-4 * (1. + l1);
    if far(ta) && (far(tb) || exact) {
        out = Point3D::new(1e9, 1e9, 1e9);
        let g = a.intersect(&b, &mut out);
        ensure!(g == (inside(ta) && inside(tb)), "cross", "{:?} and {:?} cross: {}", a, b, g);
        ensure!(!g || near(out), "cross_at", "{:?} and {:?} cross at {}, not {}", a, b, out, x);
    }
    if exact || (far(ta) && far(tb)) {
        out = Point3D::new(1e9, 1e9, 1e9);
        let g = a.touches(&b, &mut out);
        let e = (0. ..=1.).contains(&ta) && (0. ..=1.).contains(&tb);
        ensure!(g == e, "touch", "{:?} and {:?} touch: {}", a, b, g);
        ensure!(!g || near(out), "touch_at", "{:?} and {:?} touch at {}, not {}", a, b, out, x);
    }
    Ok(())
}
fn dir_across(d: Vector3D, s: &mut Src) -> Vector3D {
    let (u, v) = frame(d * (1. / len(d)));
    let a = s.uniform(0., 2. * PI);
    u * a.cos() + v * a.sin()
}

pub fn g06() -> Property {
    Property {
        id: "G06",
        facets: vec![
            Facet::new("intervals", intervals, 300_000, 10_000_000, "both intervals have some width"),
            Facet::new("quadratics", quadratics, 200_000, 6_000_000, "one root is positive and the other is negative"),
            Facet::new("segments", segments, 200_000, 6_000_000, "the segments, or what follows them, meet"),
            Facet::new("vectors", vectors, 200_000, 6_000_000, "the vector is not zero"),
        ],
        assumptions: vec!["intervals between 1e-6 and 1e6 in magnitude; divisors do not contain zero", "roots at least 1e-3 apart"],
    }
}
