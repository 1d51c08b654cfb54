//! G03 loops, G04 polygons with holes, G05 triangulation
use crate::geom::{dir, dist, frame, pt};
use fw::*;
use geometry::{Loop3D, Point3D, Polygon3D, Segment3D, Triangulation3D, Vector3D};
use std::f64::consts::PI;

type P2 = (f64, f64);

/// A plane: origin and right-handed frame
#[derive(Clone, Copy)]
pub struct Pl {
    pub o: Point3D,
    pub u: Vector3D,
    pub v: Vector3D,
    pub n: Vector3D,
}
impl Pl {
    pub fn gen(s: &mut Src) -> Pl {
        let n = dir(s);
        let (u, v) = frame(n);
        let o = if s.chance(1, 3) { Point3D::new(0., 0., 0.) } else { pt(s, 30.) };
        Pl { o, u, v, n }
    }
    pub fn at(&self, p: P2) -> Point3D {
        self.off(p, 0.)
    }
    pub fn off(&self, p: P2, h: f64) -> Point3D {
        Point3D::new(
            self.o.x + self.u.x * p.0 + self.v.x * p.1 + self.n.x * h,
            self.o.y + self.u.y * p.0 + self.v.y * p.1 + self.n.y * h,
            self.o.z + self.u.z * p.0 + self.v.z * p.1 + self.n.z * h,
        )
    }
    pub fn back(&self, p: Point3D) -> P2 {
        let d = p - self.o;
        (d * self.u, d * self.v)
    }
}

pub fn area2(p: &[P2]) -> f64 {
    let n = p.len();
    (0..n).map(|i| p[i].0 * p[(i + 1) % n].1 - p[i].1 * p[(i + 1) % n].0).sum::<f64>() / 2.
}
fn perim2(p: &[P2]) -> f64 {
    let n = p.len();
    (0..n).map(|i| d2(p[i], p[(i + 1) % n])).sum()
}
fn d2(a: P2, b: P2) -> f64 {
    ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt()
}
fn cr(a: P2, b: P2, c: P2) -> f64 {
    (b.0 - a.0) * (c.1 - b.1) - (b.1 - a.1) * (c.0 - b.0)
}
fn lerp(a: P2, b: P2, t: f64) -> P2 {
    (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t)
}
/// distance from p to the segment ab
fn dseg(p: P2, a: P2, b: P2) -> f64 {
    let (vx, vy) = (b.0 - a.0, b.1 - a.1);
    let l2 = vx * vx + vy * vy;
    let t = if l2 > 0. { (((p.0 - a.0) * vx + (p.1 - a.1) * vy) / l2).clamp(0., 1.) } else { 0. };
    d2(p, lerp(a, b, t))
}
fn dpoly(p: P2, q: &[P2]) -> f64 {
    let n = q.len();
    (0..n).map(|i| dseg(p, q[i], q[(i + 1) % n])).fold(f64::MAX, f64::min)
}
/// Inside, by the winding angle (no rays)
pub fn inside2(p: P2, q: &[P2]) -> bool {
    let n = q.len();
    let mut w = 0.;
    for i in 0..n {
        let a = (q[i].0 - p.0, q[i].1 - p.1);
        let b = (q[(i + 1) % n].0 - p.0, q[(i + 1) % n].1 - p.1);
        w += (a.0 * b.1 - a.1 * b.0).atan2(a.0 * b.0 + a.1 * b.1);
    }
    w.abs() > PI
}
/// the parameters at which segments ab and cd cross, unless they are close to parallel
fn cross2(a: P2, b: P2, c: P2, d: P2) -> Option<(f64, f64)> {
    let r = (b.0 - a.0, b.1 - a.1);
    let q = (d.0 - c.0, d.1 - c.1);
    let det = r.0 * q.1 - r.1 * q.0;
    if det.abs() < 0.05 * d2(a, b) * d2(c, d) {
        return None;
    }
    let w = (c.0 - a.0, c.1 - a.1);
    Some(((w.0 * q.1 - w.1 * q.0) / det, (w.0 * r.1 - w.1 * r.0) / det))
}

/// whether two segments cross
fn crosses(a: P2, b: P2, c: P2, d: P2) -> bool {
    cr(a, b, c) * cr(a, b, d) < 0. && cr(c, d, a) * cr(c, d, b) < 0.
}

/// usually between `lo` and `hi`; at times many more
fn few(s: &mut Src, lo: usize, hi: usize, most: usize) -> usize {
    if s.chance(1, 24) {
        s.us(hi, most)
    } else {
        s.us(lo, hi)
    }
}

/// A simple polygon, counterclockwise, whose vertices are all real corners.
pub fn shape(s: &mut Src, convex_only: bool) -> Vec<P2> {
    let size = *s.pick(&[1., 2., 4.]);
    let mut p: Vec<P2> = match if convex_only { s.us(0, 1) } else { s.us(0, 3) } {
        0 => {
            // a rectangle
            let (w, h) = (size * s.f(1., 4.), size * s.f(1., 4.));
            vec![(0., 0.), (w, 0.), (w, h), (0., h)]
        }
        1 => {
            // vertices on an ellipse: convex
            let n = few(s, 3, 9, 40);
            let (a, b) = (size * s.f(1.5, 3.), size * s.f(1.5, 3.));
            let st = 2. * PI / n as f64;
            (0..n)
                .map(|i| {
                    let t = st * (i as f64 + s.f(-0.2, 0.2));
                    (a * t.cos(), b * t.sin())
                })
                .collect()
        }
        2 => {
            // star-shaped
            let n = few(s, 4, 12, 40);
            let st = 2. * PI / n as f64;
            (0..n)
                .map(|i| {
                    let t = st * (i as f64 + s.f(-0.2, 0.2));
                    let r = size * s.f(1., 3.5);
                    (r * t.cos(), r * t.sin())
                })
                .collect()
        }
        _ => {
            // skyline: rectilinear, with several re-entrant corners
            let n = few(s, 2, 5, 14);
            let mut x = 0.;
            let mut top = vec![];
            let mut last = 0.;
            for _ in 0..n {
                let w = size * s.f(0.6, 2.);
                let mut h = size * s.f(0.6, 4.);
                if f64::abs(h - last) < 0.3 * size {
                    h = last + 0.5 * size;
                }
                top.push((x, h));
                top.push((x + w, h));
                last = h;
                x += w;
            }
            let mut v = vec![(0., 0.), (x, 0.)];
            top.reverse();
            v.extend(top);
            v
        }
    };
    // remove the corners that are not sharp enough to be corners
    let mut i = 0;
    while i < p.len() && p.len() > 3 {
        let n = p.len();
        let (a, b, c) = (p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
        if cr(a, b, c).abs() < 0.03 * d2(a, b) * d2(b, c) || d2(a, b) < 0.2 {
            p.remove(i);
            i = 0;
        } else {
            i += 1;
        }
    }
    // at times, as large as a city block or as small as a frame
    if s.chance(1, 16) {
        let k = *s.pick(&[8., 30., 0.2, 0.08]);
        p.iter_mut().for_each(|q| *q = (q.0 * k, q.1 * k));
    }
    p
}

fn build(pl: &Pl, p: &[P2]) -> Result<Loop3D, Fail> {
    let mut l = Loop3D::new();
    for (i, q) in p.iter().enumerate() {
        l.push(pl.at(*q)).map_err(|e| Fail { kind: "push".into(), msg: format!("vertex {} of {:?} was rejected: {}", i, p, e) })?;
    }
    l.close().map_err(|e| Fail { kind: "close".into(), msg: format!("{:?} could not be closed: {}", p, e) })?;
    Ok(l)
}
/// same cyclic sequence of points
fn same_cycle(l: &[Point3D], e: &[Point3D]) -> bool {
    let n = e.len();
    l.len() == n && (0..n).any(|k| (0..n).all(|i| dist(l[(i + k) % n], e[i]) < 1e-9))
}
fn rotated<T: Clone>(v: &[T], k: usize) -> Vec<T> {
    let mut r = v.to_vec();
    if !r.is_empty() {
        let n = r.len();
        r.rotate_left(k % n);
    }
    r
}
/// vertices plus points in the middle of some edges
fn with_collinear(s: &mut Src, p: &[P2]) -> Vec<P2> {
    let n = p.len();
    let mut r = vec![];
    for i in 0..n {
        r.push(p[i]);
        let k = if s.chance(1, 3) { s.us(1, 2) } else { 0 };
        for j in 0..k {
            let t = (j as f64 + s.f(0.3, 0.7)) / k as f64;
            r.push(lerp(p[i], p[(i + 1) % n], t));
        }
    }
    r
}

fn measures(s: &mut Src) -> R {
    let pl = Pl::gen(s);
    let mut p = shape(s, false);
    let cw = s.bool();
    if cw {
        p.reverse();
    }
    let k = s.us(0, p.len() - 1);
    let p = rotated(&p, k);
    let mut pushed = with_collinear(s, &p);
    let k2 = s.us(0, pushed.len() - 1);
    pushed = rotated(&pushed, k2);
    if s.chance(1, 4) {
        // repeating the same point does nothing
        let i = s.us(0, pushed.len() - 1);
        let q = pushed[i];
        pushed.insert(i, q);
    }
    s.nontrivial_if(p.len() > 4 || pushed.len() > p.len());
    s.note(|| format!("corners {:?} pushed as {:?} on a plane with normal {:?}", p, pushed, pl.n));
    let a2 = area2(&p);
    let mut l = Loop3D::new();
    for (i, q) in pushed.iter().enumerate() {
        let r = l.push(pl.at(*q));
        ensure!(r.is_ok(), "push", "point {} of {:?} was rejected: {:?}", i, pushed, r);
        ensure!(l.area().is_err() && l.perimeter().is_err() && l.centroid().is_err() && !l.is_closed(), "open", "an open loop reports an area");
        ensure!(l.test_point(pl.at(*q)).is_err(), "open", "an open loop tests points");
    }
    let r = l.close();
    ensure!(r.is_ok(), "close", "{:?} cannot be closed: {:?}", pushed, r);
    ensure!(l.is_closed() && l.closed(), "close", "not closed");
    let e: Vec<Point3D> = p.iter().map(|q| pl.at(*q)).collect();
    ensure!(same_cycle(l.vertices(), &e), "vertices", "pushing {:?} gives {:?}, instead of the corners {:?}", pushed, l.vertices(), e);
    ensure!(l.len() == p.len() && !l.is_empty(), "len", "{}", l.len());
    let area = l.area()?;
    ensure!(close(area, a2.abs(), 1e-9, 1e-9), "area", "area of {:?} is {}, expected {}", p, area, a2.abs());
    let per = l.perimeter()?;
    ensure!(close(per, perim2(&p), 1e-9, 1e-9), "perimeter", "perimeter of {:?} is {}, expected {}", p, per, perim2(&p));
    let en = if a2 > 0. { pl.n } else { pl.n * -1. };
    let nn = l.normal();
    ensure!((nn - en).length() < 1e-7, "normal", "{:?}: normal is {:?}, expected {:?}", p, nn, en);
    let c = l.centroid()?;
    let m = p.len() as f64;
    let ec = pl.at((p.iter().map(|q| q.0).sum::<f64>() / m, p.iter().map(|q| q.1).sum::<f64>() / m));
    ensure!(dist(c, ec) < 1e-9, "centroid", "{:?}: centroid {:?}, expected {:?}", p, c, ec);
    let b = l.bbox()?;
    for (lo, hi, f) in [(b.min.x, b.max.x, 0), (b.min.y, b.max.y, 1), (b.min.z, b.max.z, 2)] {
        let g = |q: &Point3D| if f == 0 { q.x } else if f == 1 { q.y } else { q.z };
        let (el, eh) = (e.iter().map(g).fold(f64::MAX, f64::min), e.iter().map(g).fold(f64::MIN, f64::max));
        ensure!((lo - el).abs() < 1e-9 && (hi - eh).abs() < 1e-9, "bbox", "{:?}: bounding box {:?}", p, b);
    }
    // a closed loop takes no more points
    let mut c2 = l.clone();
    ensure!(c2.push(pl.at((0.3, 0.3))).is_err() && c2.len() == p.len(), "closed-push", "a closed loop accepted a point");
    // reversing
    let rev = l.get_reversed();
    ensure!((rev.normal() + nn).length() < 1e-12, "reverse", "normal of the reversed loop: {:?}", rev.normal());
    ensure!(close(rev.area()?, area, 1e-12, 0.) && close(rev.perimeter()?, per, 1e-12, 0.), "reverse", "reversed loop has area {:?}", rev.area());
    let mut ev = e.clone();
    ev.reverse();
    ensure!(same_cycle(rev.vertices(), &ev), "reverse", "reversed {:?} into {:?}", e, rev.vertices());
    // equality: starting point and direction are irrelevant
    let k = s.us(0, p.len() - 1);
    let other = build(&pl, &rotated(&p, k))?;
    ensure!(l.is_equal(&other, 1e-3)? && other.is_equal(&l, 1e-3)?, "is-equal", "{:?} differs from itself starting at vertex {}", p, k);
    let back: Vec<P2> = rotated(&p, k).into_iter().rev().collect();
    let other = build(&pl, &back)?;
    ensure!(l.is_equal(&other, 1e-3)? && rev.is_equal(&l, 1e-3)?, "is-equal", "{:?} differs from itself backwards", p);
    let moved = build(&pl, &p.iter().map(|q| (q.0 + 0.05, q.1)).collect::<Vec<_>>())?;
    ensure!(!l.is_equal(&moved, 1e-3)?, "is-equal", "{:?} equals itself moved by 5 cm", p);
    // edges
    let n = e.len();
    for i in 0..n {
        let (a, b) = (e[i], e[(i + 1) % n]);
        ensure!(l.contains_segment(&Segment3D::new(a, b)) && l.contains_segment(&Segment3D::new(b, a)), "contains-segment", "edge {} of {:?} is not in it", i, p);
        ensure!(l.contains_vertex(a, 1e-6), "contains-vertex", "vertex {}", i);
        let mid = (a + b) * 0.5;
        ensure!(!l.contains_vertex(mid, 1e-3), "contains-vertex", "the middle of edge {} is a vertex", i);
        let ci = l.containing_segment(mid);
        let v = l.vertices();
        ensure!(ci.map_or(false, |j| dist((v[j] + v[(j + 1) % n]) * 0.5, mid) < 1e-6), "containing-segment", "middle of edge {} is in segment {:?}", i, ci);
        ensure!(l.test_point(mid)?, "test-edge", "{:?}: the middle of edge {} is not in the loop", p, i);
        if n > 3 {
            let far = e[(i + 2) % n];
            ensure!(!l.contains_segment(&Segment3D::new(a, far)), "contains-segment", "a diagonal is reported as an edge of {:?}", p);
        }
    }
    // text and JSON
    let js = serde_json::to_string(&l).map_err(|e| format!("{}", e))?;
    let l2: Loop3D = serde_json::from_str(&js).map_err(|e| format!("JSON of {:?} cannot be read: {}", p, e))?;
    ensure!(l2.vertices().len() == n && l2.vertices().iter().zip(l.vertices()).all(|(a, b)| dist(*a, *b) < 1e-12), "json", "{} came back as {:?}", js, l2.vertices());
    ensure!((l2.area()? - area).abs() < 1e-9 && (l2.normal() - nn).length() < 1e-9 && l2.is_closed(), "json", "area or normal changed");
    // sanitizing a clean loop changes nothing
    let sn = l.clone().sanitize()?;
    ensure!(same_cycle(sn.vertices(), &e) && sn.is_closed() && (sn.normal() - nn).length() < 1e-9, "sanitize", "{:?} was sanitized into {:?}", e, sn.vertices());
    Ok(())
}

fn points(s: &mut Src) -> R {
    let pl = Pl::gen(s);
    let mut p = shape(s, false);
    if s.bool() {
        p.reverse();
    }
    let k = s.us(0, p.len() - 1);
    let p = rotated(&p, k);
    let l = build(&pl, &p)?;
    let (x0, x1) = (p.iter().map(|q| q.0).fold(f64::MAX, f64::min), p.iter().map(|q| q.0).fold(f64::MIN, f64::max));
    let (y0, y1) = (p.iter().map(|q| q.1).fold(f64::MAX, f64::min), p.iter().map(|q| q.1).fold(f64::MIN, f64::max));
    s.note(|| format!("{:?} normal {:?}", p, pl.n));
    let mut some = (false, false);
    for _ in 0..8 {
        let q = match s.us(0, 4) {
            0 => {
                // next to an edge
                let i = s.us(0, p.len() - 1);
                let (a, b) = (p[i], p[(i + 1) % p.len()]);
                let t = if s.chance(1, 3) { 0.5 } else { s.uniform(0.02, 0.98) };
                let m = lerp(a, b, t);
                let h = s.sign() * s.logf(2.1e-3, 0.5);
                let d = d2(a, b);
                (m.0 - (b.1 - a.1) / d * h, m.1 + (b.0 - a.0) / d * h)
            }
            1 => {
                // lined up with a vertex, but inexactly
                let i = s.us(0, p.len() - 1);
                let e = s.logf(1e-6, 1e-2) * s.sign();
                (s.uniform(x0 - 1., x1 + 1.), p[i].1 + e)
            }
            2 => (s.f(x0 - 1., x1 + 1.), s.f(y0 - 1., y1 + 1.)),
            _ => (s.uniform(x0, x1), s.uniform(y0, y1)),
        };
        let d = dpoly(q, &p);
        if d < 2e-3 {
            continue;
        }
        let e = inside2(q, &p);
        if e {
            some.0 = true
        } else {
            some.1 = true
        }
        let g = l.test_point(pl.at(q))?;
        ensure!(g == e, "inside", "{:?}: point {:?} is {} (distance to the edges: {}) but test_point says {}", p, q, if e { "inside" } else { "outside" }, d, g);
        let h = s.sign() * s.logf(1e-3, 5.);
        ensure!(!l.test_point(pl.off(q, h))?, "off-plane", "{:?}: a point {} m off its plane is inside", p, h);
    }
    s.nontrivial_if(some.0 && some.1 && p.len() > 3);
    Ok(())
}

/// Invalid points are rejected, and leave no trace
fn rejects(s: &mut Src) -> R {
    let pl = Pl::gen(s);
    let mut p = shape(s, false);
    if s.bool() {
        p.reverse();
    }
    let k = s.us(0, p.len() - 1);
    let p = rotated(&p, k);
    let n = p.len();
    s.note(|| format!("{:?} normal {:?}", p, pl.n));
    let mut l = Loop3D::new();
    let mut tried = 0;
    for i in 0..n {
        if i < 3 {
            let c = l.close();
            ensure!(c.is_err() && !l.is_closed(), "close-few", "a loop with {} vertices was closed", i);
        }
        if i >= 3 && s.chance(1, 2) {
            let q = lerp(p[i], p[0], s.uniform(0., 0.8));
            let h = s.sign() * s.logf(1e-4, 3.);
            let r = l.push(pl.off(q, h));
            ensure!(r.is_err(), "non-coplanar", "{:?}: a point {} m off the plane was accepted", p, h);
            tried += 1;
        }
        if i >= 3 && s.chance(1, 2) {
            // an edge from the last vertex through an earlier edge
            let j = s.us(0, i - 3);
            let m = lerp(p[j], p[j + 1], s.uniform(0.2, 0.8));
            let q = lerp(p[i - 1], m, s.uniform(1.2, 2.));
            if let Some((ta, tb)) = cross2(p[i - 1], q, p[j], p[j + 1]) {
                if d2(p[i - 1], m) > 0.3 && d2(p[j], p[j + 1]) > 0.3 && (0.05..0.95).contains(&ta) && (0.05..0.95).contains(&tb) {
                    let r = l.push(pl.at(q));
                    ensure!(r.is_err(), "self-intersection", "{:?}: with {} vertices, going to {:?} crosses edge {} but was accepted", p, i, q, j);
                    tried += 1;
                }
            }
        }
        ensure!(l.len() == i, "trace", "a rejected point was added to {:?}", p);
        let r = l.push(pl.at(p[i]));
        ensure!(r.is_ok(), "push", "vertex {} of {:?} was rejected: {:?}", i, p, r);
    }
    l.close().map_err(|e| format!("{:?}: {}", p, e))?;
    ensure!(close(l.area()?, area2(&p).abs(), 1e-9, 1e-9), "trace", "{:?}: area became {:?} after rejecting points", p, l.area());
    s.nontrivial_if(tried > 1);
    // closing an outline that crosses itself when it is closed
    let (a, b) = (s.f(2., 5.), s.f(2., 5.));
    let z = [(0., 0.), (a, 0.), (a, b), (a * s.uniform(0.3, 0.7), -b * s.uniform(0.3, 1.)), (-a * 0.5, b)];
    let mut l = Loop3D::new();
    let mut ok = true;
    for q in &z {
        ok = ok && l.push(pl.at(*q)).is_ok();
    }
    if ok {
        let c = l.close();
        ensure!(c.is_err(), "close-cross", "{:?} was closed", z);
    }
    Ok(())
}

fn split(s: &mut Src) -> R {
    let pl = Pl::gen(s);
    let mut p = shape(s, true);
    let cw = s.bool();
    if cw {
        p.reverse();
    }
    let k = s.us(0, p.len() - 1);
    let p = rotated(&p, k);
    let n = p.len();
    let l = build(&pl, &p)?;
    let total = l.area()?;
    // a line through two different edges
    let m = s.us(1, 2);
    let mut segs: Vec<(P2, P2)> = vec![];
    let mut cuts: Vec<P2> = vec![];
    for _ in 0..m {
        let i = s.us(0, n - 1);
        let j = (i + 1 + s.us(0, n - 2)) % n;
        let (a, b) = (lerp(p[i], p[(i + 1) % n], s.uniform(0.2, 0.8)), lerp(p[j], p[(j + 1) % n], s.uniform(0.2, 0.8)));
        if d2(a, b) < 0.5 {
            return Ok(());
        }
        let (x, y) = (lerp(a, b, -s.uniform(0.2, 1.)), lerp(a, b, 1. + s.uniform(0.2, 1.)));
        // crossing the edges far from parallel
        for (u, v) in [(p[i], p[(i + 1) % n]), (p[j], p[(j + 1) % n])] {
            if cross2(x, y, u, v).is_none() || d2(u, v) < 0.3 {
                return Ok(());
            }
        }
        cuts.push(a);
        cuts.push(b);
        segs.push((x, y));
    }
    for i in 0..cuts.len() {
        for j in 0..i {
            if d2(cuts[i], cuts[j]) < 0.3 {
                return Ok(());
            }
        }
    }
    s.nontrivial();
    s.note(|| format!("{:?} split by {:?}", p, segs));
    let s3: Vec<Segment3D> = segs.iter().map(|(a, b)| Segment3D::new(pl.at(*a), pl.at(*b))).collect();
    let crossing = m == 2
        && match cross2(cuts[0], cuts[1], cuts[2], cuts[3]) {
            Some((a, b)) => {
                let mar = |t: f64| t.abs() < 0.1 || (t - 1.).abs() < 0.1;
                if mar(a) || mar(b) {
                    return Ok(());
                }
                (0. ..1.).contains(&a) && (0. ..1.).contains(&b)
            }
            None => return Ok(()),
        };
    let pieces = l.split_from_slice(&s3).map_err(|e| format!("{:?} by {:?}: {}", p, segs, e))?;
    let expected = if m == 1 { 2 } else if crossing { 4 } else { 3 };
    ensure!(pieces.len() == expected, "split-count", "{:?} split by {:?} gives {} pieces instead of {}", p, segs, pieces.len(), expected);
    let sum: f64 = pieces.iter().map(|x| x.area().unwrap_or(f64::NAN)).sum();
    ensure!(close(sum, total, 1e-6, 1e-6), "split-area", "{:?} split by {:?}: the pieces add up to {} instead of {}", p, segs, sum, total);
    for q in &pieces {
        ensure!((q.normal() - l.normal()).length() < 1e-6, "split-normal", "a piece of {:?} split by {:?} has normal {:?}", p, segs, q.normal());
        let v: Vec<P2> = q.vertices().iter().map(|x| pl.back(*x)).collect();
        for x in &v {
            ensure!(inside2(*x, &p) || dpoly(*x, &p) < 1e-4, "split-inside", "a piece of {:?} split by {:?} leaves it: {:?}", p, segs, v);
        }
        // all on one side of every cut
        for (a, b) in &segs {
            let side: Vec<f64> = v.iter().map(|x| cr(*a, *b, *x) / d2(*a, *b)).collect();
            ensure!(side.iter().all(|x| *x > -1e-4) || side.iter().all(|x| *x < 1e-4), "split-side", "a piece of {:?} split by {:?} is on both sides of a cut: {:?}", p, segs, v);
        }
    }
    // a segment that is outside does nothing
    let out = Segment3D::new(pl.at((100., 100.)), pl.at((101., 120.)));
    ensure!(l.split(&out)?.len() == 1, "split-out", "split by a far segment");
    Ok(())
}

pub fn g03() -> Property {
    Property {
        id: "G03",
        facets: vec![
            Facet::new("measures", measures, 60_000, 3_000_000, "more than four corners, or collinear points pushed"),
            Facet::new("points", points, 120_000, 6_000_000, "more than 3 corners and points on both sides tested"),
            Facet::new("rejects", rejects, 60_000, 3_000_000, "at least two invalid points were tried"),
            Facet::new("split", split, 60_000, 3_000_000, "cuts that cross two edges away from their ends"),
        ],
        assumptions: vec![
            "outlines are simple, with corners sharper than about 2 degrees and edges longer than 0.2 m".into(),
            "test points are more than 2 mm away (points are equal within 1 mm) from the edges".into(),
            "splitting is only decided for convex outlines cut away from their corners".into(),
        ],
    }
}

// ---------------------------------------------------------------- holes
pub struct Holed {
    pub pl: Pl,
    pub outer: Vec<P2>,
    pub holes: Vec<Vec<P2>>,
}
impl Holed {
    pub fn gen(s: &mut Src, max_holes: usize) -> Holed {
        match s.us(0, 3) {
            0 => Holed::free(s, max_holes),
            1 if s.chance(1, 4) => Holed::grid(s),
            _ => Holed::cells(s, max_holes),
        }
    }
    /// Any outline, with holes (maybe long and thin) anywhere
    pub fn free(s: &mut Src, max_holes: usize) -> Holed {
        let pl = Pl::gen(s);
        let mut outer = shape(s, false);
        let (mut lo, mut hi) = (outer[0], outer[0]);
        for q in &outer {
            lo = (lo.0.min(q.0), lo.1.min(q.1));
            hi = (hi.0.max(q.0), hi.1.max(q.1));
        }
        let size = (hi.0 - lo.0).max(hi.1 - lo.1);
        // (nothing much smaller than the tolerances of the code)
        let unit = 0.1 * (size / 2.).min(1.);
        let max_holes = if unit < 0.02 { 0 } else { max_holes };
        let mut holes: Vec<Vec<P2>> = vec![];
        for _ in 0..s.us(0, 3 * max_holes) {
            let c = (s.f(lo.0, hi.0), s.f(lo.1, hi.1));
            let (a, b) = (s.logf(unit, 0.5 * size), s.logf(unit, 0.2 * size));
            let r = if s.bool() { 0. } else { s.f(0., PI) };
            let (co, si) = (r.cos(), r.sin());
            let tri = s.chance(1, 4);
            let mut h: Vec<P2> = [(-a, -b), (a, -b), (a, b), (-a, b)].iter().map(|q| (c.0 + co * q.0 - si * q.1, c.1 + si * q.0 + co * q.1)).collect();
            if tri {
                h.pop();
            }
            if s.bool() {
                h.reverse();
            }
            let apart = |x: &[P2], y: &[P2]| {
                let n = x.len();
                x.iter().all(|q| dpoly(*q, y) > unit) && y.iter().all(|q| dpoly(*q, x) > unit) && !(0..n).any(|i| (0..y.len()).any(|j| crosses(x[i], x[(i + 1) % n], y[j], y[(j + 1) % y.len()])))
            };
            let ok = h.iter().all(|q| inside2(*q, &outer)) && apart(&h, &outer) && holes.iter().all(|x| apart(x, &h) && !inside2(x[0], &h) && !inside2(h[0], x));
            if ok && holes.len() < max_holes {
                holes.push(h);
            }
        }
        if s.bool() {
            outer.reverse();
        }
        let k = s.us(0, outer.len() - 1);
        Holed { pl, outer: rotated(&outer, k), holes }
    }
    /// A facade full of windows
    pub fn grid(s: &mut Src) -> Holed {
        let pl = Pl::gen(s);
        let (nx, ny) = (s.us(1, 7), s.us(1, 6));
        let (w, h) = (s.f(0.5, 3.), s.f(0.5, 3.));
        let mut holes = vec![];
        for i in 0..nx {
            for j in 0..ny {
                if s.chance(1, 10) {
                    continue;
                }
                let (x, y) = (i as f64 * (w + 0.5) + 0.25, j as f64 * (h + 0.4) + 0.2);
                holes.push(vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)]);
            }
        }
        let (w, h) = (nx as f64 * (w + 0.5), ny as f64 * (h + 0.4));
        Holed { pl, outer: vec![(0., 0.), (w, 0.), (w, h), (0., h)], holes }
    }
    pub fn cells(s: &mut Src, max_holes: usize) -> Holed {
        let pl = Pl::gen(s);
        // an outline that contains the square [-5,5]^2
        let mut outer: Vec<P2> = match s.us(0, 2) {
            0 => {
                let (a, b, c, d) = (s.f(5.5, 9.), s.f(5.5, 9.), s.f(5.5, 9.), s.f(5.5, 9.));
                vec![(-a, -b), (c, -b), (c, d), (-a, d)]
            }
            1 => {
                let n = s.us(4, 9);
                let st = 2. * PI / n as f64;
                let f = 7.6 / (st * 0.7).cos();
                (0..n)
                    .map(|i| {
                        let t = st * (i as f64 + s.f(-0.2, 0.2)) + 0.1;
                        (f * t.cos(), f * t.sin())
                    })
                    .collect()
            }
            _ => {
                // an L whose notch stays out of the square
                let (a, b) = (s.f(6., 9.), s.f(6., 9.));
                let (x, y) = (a + s.f(1., 5.), b + s.f(1., 5.));
                vec![(-a, -b), (x, -b), (x, b), (a, b), (a, y), (-a, y)]
            }
        };
        if s.bool() {
            outer.reverse();
        }
        let k = s.us(0, outer.len() - 1);
        let outer = rotated(&outer, k);
        let nh = s.us(0, max_holes);
        let mut cells: Vec<usize> = vec![];
        let mut holes = vec![];
        for _ in 0..nh {
            let c = s.us(0, 15);
            if cells.contains(&c) {
                continue;
            }
            cells.push(c);
            let (cx, cy) = (-3.75 + 2.5 * (c % 4) as f64 + s.uniform(-0.2, 0.2), -3.75 + 2.5 * (c / 4) as f64 + s.uniform(-0.2, 0.2));
            let mut h: Vec<P2> = if s.bool() {
                let (a, b) = (s.f(0.4, 0.9), s.f(0.4, 0.9));
                vec![(cx - a, cy - b), (cx + a, cy - b), (cx + a, cy + b), (cx - a, cy + b)]
            } else {
                let n = s.us(3, 6);
                let r = s.f(0.5, 0.9);
                let ph = s.uniform(0., 2.);
                (0..n).map(|i| (cx + r * (ph + 2. * PI * i as f64 / n as f64).cos(), cy + r * (ph + 2. * PI * i as f64 / n as f64).sin())).collect()
            };
            if s.bool() {
                h.reverse();
            }
            holes.push(h);
        }
        Holed { pl, outer, holes }
    }
    pub fn area(&self) -> f64 {
        area2(&self.outer).abs() - self.holes.iter().map(|h| area2(h).abs()).sum::<f64>()
    }
    pub fn inside(&self, q: P2) -> bool {
        inside2(q, &self.outer) && !self.holes.iter().any(|h| inside2(q, h))
    }
    pub fn edge_distance(&self, q: P2) -> f64 {
        self.holes.iter().map(|h| dpoly(q, h)).fold(dpoly(q, &self.outer), f64::min)
    }
    pub fn build(&self) -> Result<Polygon3D, Fail> {
        let mut poly = Polygon3D::new(build(&self.pl, &self.outer)?)?;
        for h in &self.holes {
            poly.cut_hole(build(&self.pl, h)?).map_err(|e| Fail { kind: "cut-hole".into(), msg: format!("{:?} cannot take the hole {:?}: {}", self.outer, h, e) })?;
        }
        Ok(poly)
    }
}

fn holes(s: &mut Src) -> R {
    let h = Holed::gen(s, 5);
    s.nontrivial_if(h.holes.len() >= 2);
    s.note(|| format!("outer {:?} holes {:?} normal {:?}", h.outer, h.holes, h.pl.n));
    let mut poly = h.build()?;
    let what = || format!("outer {:?} holes {:?}", h.outer, h.holes);
    ensure!(poly.n_inner_loops() == h.holes.len(), "n-holes", "{}", poly.n_inner_loops());
    for i in 0..h.holes.len() {
        let e: Vec<Point3D> = h.holes[i].iter().map(|q| h.pl.at(*q)).collect();
        ensure!(same_cycle(poly.inner(i)?.vertices(), &e), "hole-vertices", "{}: hole {}", what(), i);
    }
    ensure!(poly.inner(h.holes.len()).is_err(), "hole-index", "an inexistent hole is returned");
    ensure!(close(poly.area(), h.area(), 1e-9, 1e-9), "area", "{}: area {} expected {}", what(), poly.area(), h.area());
    let en = if area2(&h.outer) > 0. { h.pl.n } else { h.pl.n * -1. };
    ensure!((poly.normal() - en).length() < 1e-7, "normal", "{}: normal {:?}", what(), poly.normal());
    let mut e = (0., 0.);
    for q in &h.outer {
        e = (e.0 + q.0 / h.outer.len() as f64, e.1 + q.1 / h.outer.len() as f64);
    }
    ensure!((poly.outer_centroid() - h.pl.at(e)).length() < 1e-7, "centroid", "{}: centroid of the corners {:?}", what(), poly.outer_centroid());
    // points
    for _ in 0..6 {
        let q = if s.bool() || h.holes.is_empty() {
            (s.uniform(-10., 10.), s.uniform(-10., 10.))
        } else {
            let k = s.us(0, h.holes.len() - 1);
            let c = h.holes[k][0];
            (c.0 + s.uniform(-1.2, 1.2), c.1 + s.uniform(-1.2, 1.2))
        };
        if h.edge_distance(q) < 1e-3 {
            continue;
        }
        let (g, e) = (poly.test_point(h.pl.at(q))?, h.inside(q));
        ensure!(g == e, "inside", "{}: point {:?} is {} but test_point says {}", what(), q, if e { "in" } else { "out" }, g);
    }
    // holes that must be refused
    let before = poly.area();
    let tri = |c: P2, r: f64| -> Vec<P2> { vec![(c.0 - r, c.1 - r * 0.9), (c.0 + r * 1.1, c.1 - r), (c.0 + 0.13 * r, c.1 + r)] };
    let right = h.outer.iter().map(|q| q.0).fold(0., f64::max);
    let outside = build(&h.pl, &tri((right + 5., s.f(-3., 3.)), 1.))?;
    ensure!(poly.cut_hole(outside).is_err(), "bad-hole", "{}: a hole outside of the polygon was accepted", what());
    let (u2, v2) = frame(h.pl.u);
    let tilted = Pl { o: h.pl.o, u: u2, v: v2, n: h.pl.u };
    let off = build(&tilted, &tri((0., 0.), 1.))?;
    ensure!(poly.cut_hole(off).is_err(), "bad-hole", "{}: a hole perpendicular to the polygon was accepted", what());
    let lifted = Pl { o: h.pl.off((0., 0.), 0.5), ..h.pl };
    ensure!(poly.cut_hole(build(&lifted, &tri((0., 0.), 1.))?).is_err(), "bad-hole", "{}: a hole half a meter away from the polygon was accepted", what());
    if !h.holes.is_empty() {
        let k = s.us(0, h.holes.len() - 1);
        let m = h.holes[k].len() as f64;
        let c = (h.holes[k].iter().map(|q| q.0).sum::<f64>() / m, h.holes[k].iter().map(|q| q.1).sum::<f64>() / m);
        let r = 0.3 * dpoly(c, &h.holes[k]);
        ensure!(poly.cut_hole(build(&h.pl, &tri(c, r))?).is_err(), "bad-hole", "{}: a hole inside of another hole was accepted", what());
        // scaled 1.3 times around its center
        let big: Vec<P2> = h.holes[k].iter().map(|q| lerp(c, *q, 1.27)).collect();
        {
            ensure!(poly.cut_hole(build(&h.pl, &big)?).is_err(), "bad-hole", "{}: a hole around another hole was accepted", what());
        }
    }
    ensure!(close(poly.area(), before, 1e-12, 0.) && poly.n_inner_loops() == h.holes.len(), "bad-hole", "a rejected hole changed the polygon");
    // edges
    for (k, x) in std::iter::once(&h.outer).chain(h.holes.iter()).enumerate() {
        let i = s.us(0, x.len() - 1);
        let (a, b) = (h.pl.at(x[i]), h.pl.at(x[(i + 1) % x.len()]));
        ensure!(poly.contains_segment(&Segment3D::new(b, a)), "contains-segment", "{}: edge {} of loop {}", what(), i, k);
    }
    // reversing
    let rev = poly.get_reversed();
    ensure!((rev.normal() + poly.normal()).length() < 1e-12 && close(rev.area(), poly.area(), 1e-12, 0.), "reverse", "{}", what());
    ensure!((rev.outer().normal() - rev.normal()).length() < 1e-12, "reverse", "{}: normals of the reversed polygon differ", what());
    Ok(())
}

/// The outline without holes (the one that is written to files) is the same region
/// Any hole is cut if, and only if, it fits
fn any_hole(s: &mut Src) -> R {
    let h = Holed::gen(s, 5);
    let mut poly = h.build()?;
    let what = || format!("outer {:?} holes {:?} normal {:?}", h.outer, h.holes, h.pl.n);
    let (mut yes, mut no) = (0, 0);
    let n = s.us(1, 6);
    let mut held = Holed { pl: h.pl, outer: h.outer.clone(), holes: h.holes.clone() };
    for _ in 0..n {
        // where
        let k = s.us(0, held.holes.len());
        let around: &[P2] = if k == held.holes.len() { &held.outer } else { &held.holes[k] };
        let min = around.iter().fold((f64::MAX, f64::MAX), |a, q| (a.0.min(q.0), a.1.min(q.1)));
        let max = around.iter().fold((f64::MIN, f64::MIN), |a, q| (a.0.max(q.0), a.1.max(q.1)));
        let o = (s.uniform(min.0, max.0), s.uniform(min.1, max.1));
        let size = *s.pick(&[0.2, 0.5, 1., 1.5, 2.5]) * 0.5 * d2(min, max);
        let cand: Vec<P2> = if s.chance(1, 3) {
            // a slab
            let (a, b) = (size, s.f(0.02, 0.3) * size);
            vec![(-a, -b), (a, -b), (a, b), (-a, b)]
        } else {
            let p = shape(s, false);
            let c = (p.iter().map(|q| q.0).sum::<f64>() / p.len() as f64, p.iter().map(|q| q.1).sum::<f64>() / p.len() as f64);
            let m = p.iter().map(|q| d2(*q, c)).fold(0., f64::max);
            p.iter().map(|q| ((q.0 - c.0) / m * size, (q.1 - c.1) / m * size)).collect()
        };
        let t = if s.bool() { 0. } else { s.uniform(0., 3.2) };
        let mut cand: Vec<P2> = cand.iter().map(|q| (o.0 + q.0 * t.cos() - q.1 * t.sin(), o.1 + q.0 * t.sin() + q.1 * t.cos())).collect();
        if s.bool() {
            cand.reverse();
        }
        if area2(&cand).abs() < 1e-3 || (0..cand.len()).any(|i| d2(cand[i], cand[(i + 1) % cand.len()]) < 0.01) {
            continue;
        }
        // is it fine?
        const M: f64 = 2e-3;
        let m = cand.len();
        let mut bad = cand.iter().any(|q| !held.inside(*q) && held.edge_distance(*q) > M);
        let mut clear = cand.iter().all(|q| held.inside(*q) && held.edge_distance(*q) > M);
        for border in std::iter::once(&held.outer).chain(held.holes.iter()) {
            let l = border.len();
            clear &= border.iter().all(|q| dpoly(*q, &cand) > M);
            for i in 0..l {
                for j in 0..m {
                    let (a, b, c, d) = (border[i], border[(i + 1) % l], cand[j], cand[(j + 1) % m]);
                    clear &= !crosses(a, b, c, d);
                    if let Some((u, v)) = cross2(a, b, c, d) {
                        bad |= (0.01..0.99).contains(&u) && (0.01..0.99).contains(&v);
                    }
                }
            }
        }
        for x in &held.holes {
            let i = x.iter().any(|q| inside2(*q, &cand));
            clear &= !i;
            bad |= x.iter().any(|q| inside2(*q, &cand) && dpoly(*q, &cand) > M);
        }
        let before = (poly.area(), poly.n_inner_loops());
        let r = poly.cut_hole(build(&h.pl, &cand)?);
        if bad {
            no += 1;
            ensure!(r.is_err(), "overlap", "{} (now with {:?}): the hole {:?}, which goes out of it or into other holes, was accepted", what(), held.holes, cand);
        } else if clear {
            yes += 1;
            ensure!(r.is_ok(), "refused", "{} (now with {:?}): the hole {:?} was refused ({:?})", what(), held.holes, cand, r);
        }
        if r.is_ok() {
            held.holes.push(cand);
            ensure!(poly.n_inner_loops() == before.1 + 1 && (!clear || close(poly.area(), held.area(), 1e-6, 1e-4)), "area", "{}: area {} instead of {}", what(), poly.area(), held.area());
            if !clear {
                break;
            }
        } else {
            ensure!((poly.area(), poly.n_inner_loops()) == before, "bad-hole", "a rejected hole changed the polygon");
        }
    }
    s.nontrivial_if(yes > 0 && no > 0);
    s.note(|| format!("{}, then {} accepted, {} refused: {:?}", what(), yes, no, held.holes));
    Ok(())
}

fn closed_loop(s: &mut Src) -> R {
    let h = Holed::gen(s, 5);
    s.nontrivial_if(h.holes.len() >= 2);
    s.note(|| format!("outer {:?} holes {:?} normal {:?}", h.outer, h.holes, h.pl.n));
    let what = || format!("outer {:?} holes {:?}", h.outer, h.holes);
    let poly = h.build()?;
    let l = poly.get_closed_loop();
    let n: usize = h.outer.len() + h.holes.iter().map(|x| x.len() + 2).sum::<usize>();
    ensure!(l.len() == n, "closed-len", "{}: the closed loop has {} vertices instead of {}", what(), l.len(), n);
    let v: Vec<P2> = l.vertices().iter().map(|x| h.pl.back(*x)).collect();
    let sign = if area2(&h.outer) > 0. { 1. } else { -1. };
    ensure!(close(area2(&v) * sign, h.area(), 1e-7, 1e-7), "closed-area", "{}: the closed loop {:?} encloses {} instead of {}", what(), v, area2(&v) * sign, h.area());
    // every edge is an edge of the polygon, or a bridge that is walked both ways
    let all: Vec<&Vec<P2>> = std::iter::once(&h.outer).chain(h.holes.iter()).collect();
    let is_edge = |a: P2, b: P2| all.iter().any(|x| (0..x.len()).any(|i| {
        let (c, d) = (x[i], x[(i + 1) % x.len()]);
        (d2(a, c) < 1e-6 && d2(b, d) < 1e-6) || (d2(a, d) < 1e-6 && d2(b, c) < 1e-6)
    }));
    let mut n_edges = 0;
    for i in 0..v.len() {
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        if is_edge(a, b) {
            n_edges += 1;
            continue;
        }
        let back = (0..v.len()).any(|j| d2(v[j], b) < 1e-6 && d2(v[(j + 1) % v.len()], a) < 1e-6);
        ensure!(back, "closed-bridge", "{}: the closed loop goes from {:?} to {:?} and never comes back", what(), a, b);
    }
    let e: usize = all.iter().map(|x| x.len()).sum();
    ensure!(n_edges == e, "closed-edges", "{}: the closed loop walks {} edges instead of {}", what(), n_edges, e);
    // JSON
    let js = serde_json::to_string(&poly).map_err(|e| format!("{}", e))?;
    let p2: Polygon3D = serde_json::from_str(&js).map_err(|e| Fail { kind: "json".into(), msg: format!("{}: {} cannot be read: {}", what(), js, e) })?;
    ensure!(close(p2.area(), h.area(), 1e-7, 1e-7), "json-area", "{}: the area is {} after writing and reading it, instead of {}", what(), p2.area(), h.area());
    ensure!((p2.normal() - poly.normal()).length() < 1e-7, "json-normal", "{}: the normal is {:?} after writing and reading it, instead of {:?}", what(), p2.normal(), poly.normal());
    Ok(())
}

pub fn g04() -> Property {
    Property {
        id: "G04",
        facets: vec![
            Facet::new("holes", holes, 30_000, 1_500_000, "two holes or more"),
            Facet::new("any-hole", any_hole, 30_000, 1_500_000, "some holes fit and others do not"),
            Facet::new("closed-loop", closed_loop, 30_000, 1_500_000, "two holes or more"),
        ],
        assumptions: vec!["convex holes, of any proportion, are apart from each other and from the outline (of any shape) by at least 0.1 m; up to five of them, or a grid of up to 42 windows".into()],
    }
}

// ---------------------------------------------------------------- triangulation
fn check_tiling(what: &dyn Fn() -> String, h: &Holed, poly: &Polygon3D, t: &Triangulation3D, tol: f64) -> R {
    let list = t.get_trilist();
    ensure!(list.len() == t.n_triangles() && !list.is_empty(), "n-triangles", "{}", list.len());
    let mut sum = 0.;
    for tri in &list {
        let v = [tri.a(), tri.b(), tri.c()];
        let q: Vec<P2> = v.iter().map(|x| h.pl.back(*x)).collect();
        let a = area2(&q);
        sum += a.abs();
        for (x, y) in v.iter().zip(&q) {
            ensure!(dist(h.pl.at(*y), *x) < 1e-6, "plane", "{}: vertex {:?} of a triangle is not on the plane", what(), x);
        }
        if a.abs() < 1e-5 {
            continue;
        }
        let n = if a > 0. { h.pl.n } else { h.pl.n * -1. };
        ensure!(n * poly.normal() > 0.99, "orientation", "{}: triangle {:?} faces backwards", what(), q);
        let c = ((q[0].0 + q[1].0 + q[2].0) / 3., (q[0].1 + q[1].1 + q[2].1) / 3.);
        ensure!(h.inside(c) || h.edge_distance(c) < 1e-6, "outside", "{}: triangle {:?} is out of the polygon", what(), q);
    }
    ensure!(close(sum, h.area(), tol, tol), "cover", "{}: {} triangles cover {} instead of {}", what(), list.len(), sum, h.area());
    Ok(())
}

fn plain(s: &mut Src) -> R {
    let pl = Pl::gen(s);
    let mut p = shape(s, false);
    if s.bool() {
        p.reverse();
    }
    let k = s.us(0, p.len() - 1);
    let h = Holed { pl, outer: rotated(&p, k), holes: vec![] };
    s.nontrivial_if(h.outer.len() > 4);
    s.note(|| format!("{:?}", h.outer));
    let what = || format!("outline {:?} normal {:?}", h.outer, h.pl.n);
    let poly = h.build()?;
    let t: Triangulation3D = match (&poly).try_into() {
        Ok(t) => t,
        Err(e) => bail!("triangulate", "{} cannot be triangulated: {}", what(), e),
    };
    ensure!(t.n_triangles() == h.outer.len() - 2, "count", "{}: {} triangles", what(), t.n_triangles());
    check_tiling(&what, &h, &poly, &t, 1e-6)
}
fn holed(s: &mut Src) -> R {
    let h = Holed::gen(s, 4);
    s.nontrivial_if(!h.holes.is_empty());
    s.note(|| format!("outer {:?} holes {:?}", h.outer, h.holes));
    let what = || format!("outer {:?} holes {:?} normal {:?}", h.outer, h.holes, h.pl.n);
    let poly = h.build()?;
    let t: Triangulation3D = match (&poly).try_into() {
        Ok(t) => t,
        Err(e) => bail!("triangulate", "{} cannot be triangulated: {}", what(), e),
    };
    check_tiling(&what, &h, &poly, &t, 1e-6)
}
fn mesh(s: &mut Src) -> R {
    let pl = Pl::gen(s);
    let mut p = shape(s, false);
    if s.bool() {
        p.reverse();
    }
    let k = s.us(0, p.len() - 1);
    let h = Holed { pl, outer: rotated(&p, k), holes: vec![] };
    let pieces = s.logf(1., 60.);
    let max_area = h.area() / pieces;
    let ratio = s.logf(2.5, 30.);
    s.note(|| format!("outer {:?} holes {:?} in pieces of {} and proportions under {}", h.outer, h.holes, max_area, ratio));
    let what = || format!("outer {:?} holes {:?} normal {:?} in pieces of {} and proportions under {}", h.outer, h.holes, h.pl.n, max_area, ratio);
    let poly = h.build()?;
    let t = match Triangulation3D::mesh_polygon(&poly, max_area, ratio) {
        Ok(t) => t,
        // not every mesh is possible (pieces become too thin)
        Err(_) => return Ok(()),
    };
    let list = t.get_trilist();
    s.nontrivial_if(list.len() > 10);
    for x in &list {
        if x.area() < 1.001e-3 {
            continue;
        }
        ensure!(x.aspect_ratio() <= ratio * 1.000001, "mesh-proportion", "{}: the proportion of {:?} is {}", what(), x, x.aspect_ratio());
        let c = x.circumcenter();
        let at_vertex = list.iter().any(|y| [y.a(), y.b(), y.c()].iter().any(|v| dist(*v, c) < 2e-3));
        ensure!(x.area() <= max_area * 1.000001 || at_vertex, "mesh-area", "{}: the area of {:?} is {}", what(), x, x.area());
    }
    check_tiling(&what, &h, &poly, &t, 1e-5)
}
pub fn g05() -> Property {
    Property {
        id: "G05",
        facets: vec![
            Facet::new("plain", plain, 40_000, 2_000_000, "more than four vertices"),
            Facet::new("mesh", mesh, 1_000, 40_000, "more than ten triangles"),
            Facet::new("holed", holed, 10_000, 600_000, "at least one hole"),
        ],
        assumptions: vec!["outlines and holes as in G03 and G04".into()],
    }
}
