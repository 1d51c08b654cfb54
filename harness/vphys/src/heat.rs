//! P10 discretization, P11 cavities and convection, P12 glazing, P13 marching
use ::heat::cavity::Cavity;
use ::heat::convection::ConvectionParams;
use ::heat::discretization::{Discretization, UValue};
use ::heat::gas::{Gas, AIR, ARGON, KRYPTON, XENON};
use ::heat::glazing::Glazing;
use ::heat::surface::{rk4, ChunkMemory};
use fw::*;
use model::Model;
use serde_json::{json, Map, Value};
use std::f64::consts::PI;

pub const SIGMA: f64 = 5.670374419e-8;

/* ---------- Materials ---------- */
#[derive(Clone, Debug)]
pub struct Layer {
    /// Some for a gas
    pub gas: Option<usize>,
    pub t: f64,
    pub k: f64,
    pub rho: f64,
    pub cp: f64,
    pub ef: Option<f64>,
    pub eb: Option<f64>,
    pub af: Option<f64>,
    pub ab: Option<f64>,
    pub tau: Option<f64>,
}
pub const GASES: [&str; 4] = ["Air", "Argon", "Krypton", "Xenon"];
impl Layer {
    pub fn tau(&self) -> f64 {
        self.tau.unwrap_or(0.)
    }
    pub fn af(&self) -> f64 {
        self.af.unwrap_or(0.84)
    }
    pub fn ab(&self) -> f64 {
        self.ab.unwrap_or(0.84)
    }
    pub fn ef(&self) -> f64 {
        self.ef.unwrap_or(0.84)
    }
    pub fn eb(&self) -> f64 {
        self.eb.unwrap_or(0.84)
    }
}
pub fn gas_layer(s: &mut Src) -> Layer {
    Layer { gas: Some(s.us(0, 3)), t: s.f(0.005, 0.04), k: 0., rho: 0., cp: 0., ef: None, eb: None, af: None, ab: None, tau: None }
}
pub fn solid_layer(s: &mut Src, glass: bool) -> Layer {
    let (t, k, rho, cp) = if glass {
        (s.f(0.002, 0.012), s.f(0.8, 1.2), s.f(2200., 2600.), s.f(700., 900.))
    } else {
        match s.us(0, 4) {
            0 => (s.f(0.01, 0.4), s.f(0.8, 2.), s.f(1800., 2500.), s.f(700., 1000.)),
            1 => (s.f(0.01, 0.2), s.f(0.02, 0.05), s.f(15., 60.), s.f(1000., 1500.)),
            2 => (s.f(0.01, 0.1), s.f(0.1, 0.2), s.f(400., 800.), s.f(1200., 2500.)),
            3 => (s.f(0.001, 0.01), s.f(10., 60.), s.f(7000., 8000.), s.f(450., 500.)),
            _ => (s.logf(0.002, 0.5), s.logf(0.02, 5.), s.logf(20., 4000.), s.logf(300., 4000.)),
        }
    };
    let mut o = |lo: f64, hi: f64| if s.chance(3, 4) { Some(s.f(lo, hi)) } else { None };
    let (ef, eb) = (o(0.02, 0.98), o(0.02, 0.98));
    let (af, ab, tau) = if glass {
        let tau = o(0.05, 0.9).unwrap_or(0.5);
        (Some(o(0., 1. - tau).unwrap_or(0.05)), Some(o(0., 1. - tau).unwrap_or(0.05)), Some(tau))
    } else {
        (o(0., 1.), o(0., 1.), None)
    };
    Layer { gas: None, t, k, rho, cp, ef, eb, af, ab, tau }
}
/// A sensible construction: opaque, with or without cavities; or a glazing
pub fn construction(s: &mut Src) -> Vec<Layer> {
    if s.chance(1, 3) {
        let mut v = vec![solid_layer(s, true)];
        for _ in 0..s.few(0, 3, 8) {
            v.push(gas_layer(s));
            v.push(solid_layer(s, true));
        }
        v
    } else {
        let mut v = vec![solid_layer(s, false)];
        for _ in 0..s.few(0, 4, 9) {
            if s.chance(1, 4) {
                v.push(gas_layer(s));
            }
            v.push(solid_layer(s, false));
        }
        v
    }
}
pub fn put(j: &mut Value, name: &str, layers: &[Layer]) {
    let mut mats = vec![];
    for (i, l) in layers.iter().enumerate() {
        let n = format!("{} {}", name, i);
        let mut m = Map::new();
        m.insert("name".into(), json!(n));
        if let Some(g) = l.gas {
            m.insert("type".into(), json!("Gas"));
            m.insert("gas".into(), json!(GASES[g]));
        } else {
            m.insert("type".into(), json!("Normal"));
            for (k, v) in [
                ("thermal_conductivity", Some(l.k)),
                ("density", Some(l.rho)),
                ("specific_heat_capacity", Some(l.cp)),
                ("front_thermal_absorbtance", l.ef),
                ("back_thermal_absorbtance", l.eb),
                ("front_solar_absorbtance", l.af),
                ("back_solar_absorbtance", l.ab),
                ("solar_transmittance", l.tau),
            ] {
                if let Some(v) = v {
                    m.insert(k.into(), json!(v));
                }
            }
        }
        j["substances"].as_array_mut().unwrap().push(Value::Object(m));
        j["materials"].as_array_mut().unwrap().push(json!({"name":n,"substance":n,"thickness":l.t}));
        mats.push(n);
    }
    j["constructions"].as_array_mut().unwrap().push(json!({"name":name,"materials":mats}));
}
pub fn empty() -> Value {
    json!({"substances":[],"materials":[],"constructions":[],"spaces":[],"surfaces":[],"fenestrations":[],"hvacs":[],"luminaires":[]})
}

/* ---------- P10 ---------- */
fn discretization(s: &mut Src) -> R {
    let layers = construction(s);
    let mut j = empty();
    put(&mut j, "c", &layers);
    let (m, _) = Model::from_json(&j.to_string())?;
    let c = m.get_construction("c")?;
    let dt = *s.pick(&[3600., 1800., 1200., 900., 600., 300., 120., 60.]);
    let max_dx = if s.bool() { 0.05 } else { s.logf(0.005, 0.3) };
    let min_dt = if s.bool() { 60. } else { s.logf(1., 400.) };
    let height = s.f(0.3, 4.);
    let angle = s.f(0., PI);
    let d = Discretization::new(&c, &m, dt, max_dx, min_dt, height, angle)?;
    s.note(|| format!("dt {} max_dx {} min_dt {} {:?}", dt, max_dx, min_dt, layers));
    let what = || format!("dt={} max_dx={} min_dt={} {:?}\n{:?}", dt, max_dx, min_dt, layers, d);
    ensure!(d.n_elements.len() == layers.len(), "layers", "{} layers were discretized\n{}", d.n_elements.len(), what());
    let n_seg: usize = d.n_elements.iter().map(|n| (*n).max(1)).sum();
    ensure!(d.segments.len() == n_seg + 1, "nodes", "{} nodes for {} elements\n{}", d.segments.len(), n_seg, what());
    ensure!(matches!(d.segments[n_seg].1, UValue::Back), "nodes", "the last node is not the back\n{}", what());
    // every layer, in its order, keeps its resistance and its heat capacity
    let mut mass = vec![0.; n_seg + 1];
    let mut i = 0;
    let mut massive = 0;
    for (n_layer, l) in layers.iter().enumerate() {
        let n = d.n_elements[n_layer];
        if l.gas.is_some() {
            ensure!(n == 0, "gas_mass", "a gas has {} elements with mass\n{}", n, what());
        }
        let nn = n.max(1);
        let mut r = 0.;
        for x in i..i + nn {
            match (&d.segments[x].1, l.gas) {
                (UValue::Solid(u), None) => {
                    r += 1. / u;
                    ensure!(close(1. / u, l.t / l.k / nn as f64, 1e-9, 0.), "uniform", "segment {} has R={}\n{}", x, 1. / u, what());
                }
                (UValue::Cavity(c), Some(g)) => {
                    let want = Cavity { gas: gas(g), thickness: l.t, height, angle, eout: layers[n_layer - 1].eb(), ein: layers[n_layer + 1].ef() };
                    ensure!(close(c.thickness, want.thickness, 1e-12, 0.) && c.height == height && c.angle == angle, "cavity", "cavity {} is {:?}\n{}", x, c, what());
                    ensure!(close(c.eout, want.eout, 1e-12, 0.) && close(c.ein, want.ein, 1e-12, 0.), "emissivity", "the cavity's emissivities are {} and {}, not {} and {}\n{}", c.eout, c.ein, want.eout, want.ein, what());
                    ensure!(c.gas.mass() == want.gas.mass() && c.gas.heat_capacity(280.) == want.gas.heat_capacity(280.), "gas", "the cavity has the wrong gas\n{}", what());
                }
                _ => bail!("segment", "segment {} is not of the kind of layer {}\n{}", x, n_layer, what()),
            }
            if n > 0 {
                mass[x] += l.rho * l.cp * l.t / n as f64 / 2.;
                mass[x + 1] += l.rho * l.cp * l.t / n as f64 / 2.;
            }
        }
        if l.gas.is_none() {
            ensure!(close(r, l.t / l.k, 1e-9, 0.), "resistance", "layer {} has R={}, not {}\n{}", n_layer, r, l.t / l.k, what());
        }
        if n > 0 {
            massive += 1;
            let dx = l.t / n as f64;
            ensure!(dx <= max_dx * (1. + 1e-9), "max_dx", "elements of {} m in layer {}\n{}", dx, n_layer, what());
            // Euler-stable, at the time step of this construction
            let sub = d.tstep_subdivision as f64;
            ensure!(sub >= 1. && dt / sub >= min_dt * (1. - 1e-9), "min_dt", "{} subdivisions\n{}", sub, what());
            let h = dt / sub;
            let lam = h / (0.05 * l.rho * l.cp * dx) + 2. * h * l.k / (l.rho * l.cp * dx * dx);
            ensure!(lam <= 2. + 1e-9, "stability", "layer {} is not stable: {}\n{}", n_layer, lam, what());
        }
        i += nn;
    }
    s.nontrivial_if(layers.len() > 1 && massive > 0);
    for x in 0..=n_seg {
        ensure!(close(d.segments[x].0, mass[x], 1e-9, 1e-9), "mass", "node {} has a heat capacity of {}, not {}\n{}", x, d.segments[x].0, mass[x], what());
    }
    // chunks are the maximal runs of nodes with and without mass
    let (a, b) = d.get_chunks();
    let mut all: Vec<(usize, usize, bool)> = a.iter().map(|x| (x.0, x.1, true)).chain(b.iter().map(|x| (x.0, x.1, false))).collect();
    all.sort();
    let mut at = 0;
    let mut last = None;
    for (ini, fin, m) in &all {
        ensure!(*ini == at && fin > ini && last != Some(*m), "chunks", "{:?} {:?}\n{}", a, b, what());
        for x in *ini..*fin {
            ensure!((mass[x] > 1e-5) == *m, "chunks", "node {} is in the wrong chunk: {:?} {:?}\n{}", x, a, b, what());
        }
        at = *fin;
        last = Some(*m);
    }
    ensure!(at == n_seg + 1, "chunks", "{:?} {:?}\n{}", a, b, what());
    if layers.iter().all(|l| l.gas.is_none()) {
        let r: f64 = layers.iter().map(|l| l.t / l.k).sum();
        ensure!(close(d.r_value(), r, 1e-9, 0.), "r_value", "R={} but should be {}\n{}", d.r_value(), r, what());
    }
    Ok(())
}
/// Cavities without a solid on each side are refused
fn misplaced(s: &mut Src) -> R {
    let mut v = construction(s);
    let g = gas_layer(s);
    let how = s.us(0, 2);
    match how {
        0 => v.insert(0, g),
        1 => v.push(g),
        _ => {
            let g2 = gas_layer(s);
            let at = s.us(0, v.len() - 1);
            v.insert(at, g);
            v.insert(at, g2);
        }
    }
    // two adjacent gases, or one at the borders
    s.nontrivial();
    s.note(|| format!("{:?}", v));
    let mut j = empty();
    put(&mut j, "c", &v);
    let (m, _) = Model::from_json(&j.to_string())?;
    let c = m.get_construction("c")?;
    let d = Discretization::new(&c, &m, 900., 0.05, 60., 1., 1.);
    ensure!(d.is_err(), "accepted", "{:?} became {:?}", v, d);
    Ok(())
}
/// A time step on a linear network
fn march_linear(s: &mut Src) -> R {
    let n = s.few(1, 8, 60);
    let mut mem = if s.bool() { ChunkMemory::with_capacity(n) } else { ChunkMemory::new(3, 3 + n) };
    let mut k = vec![vec![0.; n]; n];
    let sc = s.logf(0.01, 2.);
    for i in 0..n {
        for j in i.saturating_sub(1)..(i + 2).min(n) {
            k[i][j] = s.f(-sc, sc);
            mem.k.set(i, j, k[i][j])?;
        }
    }
    let q: Vec<f64> = (0..n).map(|_| s.f(-5., 5.)).collect();
    let t: Vec<f64> = (0..n).map(|_| s.f(-30., 60.)).collect();
    mem.q.copy_from_slice(&q);
    mem.temps.copy_from_slice(&t);
    // rubbish in the working memory has no effect
    for v in [&mut mem.k1, &mut mem.k2, &mut mem.k3, &mut mem.k4, &mut mem.aux] {
        for x in v.iter_mut() {
            *x = s.f(-100., 100.);
        }
    }
    s.nontrivial_if(n > 2);
    s.note(|| format!("{:?} {:?} {:?}", k, q, t));
    rk4(&mut mem)?;
    // T + sum_{j=1..4} K^{j-1} (K T + q) / j!
    let mul = |v: &Vec<f64>| -> Vec<f64> { (0..n).map(|i| (0..n).map(|j| k[i][j] * v[j]).sum()).collect() };
    let mut term: Vec<f64> = mul(&t).iter().zip(&q).map(|(a, b)| a + b).collect();
    let mut want = t.clone();
    let mut f = 1.;
    for jj in 1..=4 {
        f *= jj as f64;
        for i in 0..n {
            want[i] += term[i] / f;
        }
        term = mul(&term);
    }
    for i in 0..n {
        ensure!(close(mem.temps[i], want[i], 1e-9, 1e-8), "rk4", "T={:?} but should be {:?}\nK={:?}\nq={:?}\nT0={:?}", mem.temps, want, k, q, t);
    }
    Ok(())
}
pub fn p10() -> Property {
    Property {
        id: "P10",
        facets: vec![
            Facet::new("discretization", discretization, 6000, 400000, "two or more layers, some of them with mass"),
            Facet::new("misplaced", misplaced, 1500, 50000, "always"),
            Facet::new("march_linear", march_linear, 6000, 300000, "three or more nodes"),
        ],
        assumptions: vec!["which layers are treated as massless is decided by the code; the check requires those that are not to be stable (Euler's criterion with a 0.05 surface resistance) and thin enough"],
    }
}

/* ---------- P11 ---------- */
pub fn gas(i: usize) -> Gas {
    match i {
        0 => AIR,
        1 => ARGON,
        2 => KRYPTON,
        _ => XENON,
    }
}
/// k, mu, cp (a + b T) and the molecular mass. ISO 15099:2003, Annex B
const PROP: [([f64; 2], [f64; 2], [f64; 2], f64); 4] = [
    ([2.873e-3, 7.760e-5], [3.723e-6, 4.94e-8], [1002.7370, 1.2324e-2], 28.97),
    ([2.285e-3, 5.149e-5], [3.379e-6, 6.451e-8], [521.9285, 0.], 39.948),
    ([9.443e-4, 2.826e-5], [2.213e-6, 7.777e-8], [248.0907, 0.], 83.8),
    ([4.538e-4, 1.723e-5], [1.069e-6, 7.414e-8], [158.3397, 0.], 131.3),
];
fn lin(c: [f64; 2], t: f64) -> f64 {
    c[0] + c[1] * t
}
pub fn density(g: usize, tk: f64) -> f64 {
    101325. * PROP[g].3 / (8314.46261815324 * tk)
}
pub fn heat_capacity(g: usize, tk: f64) -> f64 {
    lin(PROP[g].2, tk)
}
fn nu90(ra: f64, a: f64) -> f64 {
    let n1 = if ra <= 1e4 {
        1. + 1.7596678e-10 * ra.powf(2.2984755)
    } else if ra <= 5e4 {
        0.028154 * ra.powf(0.4134)
    } else {
        0.0673838 * ra.cbrt()
    };
    n1.max(0.242 * (ra / a).powf(0.272))
}
fn nu60(ra: f64, a: f64) -> f64 {
    let g = 0.5 / (1. + (ra / 3160.).powf(20.6)).powf(0.1);
    let n1 = (1. + (0.0936 * ra.powf(0.314) / (1. + g)).powi(7)).powf(1. / 7.);
    n1.max((0.104 + 0.175 / a) * ra.powf(0.283))
}
fn nu(ra: f64, deg: f64, a: f64) -> f64 {
    if deg < 60. {
        let x = ra * deg.to_radians().cos();
        let pos = |v: f64| v.max(0.);
        1. + 1.44 * pos(1. - 1708. / x) * (1. - 1708. * (1.8 * deg).to_radians().sin().powf(1.6) / x) + pos((x / 5830.).cbrt() - 1.)
    } else if deg <= 90. {
        let f = (deg - 60.) / 30.;
        nu60(ra, a) * (1. - f) + nu90(ra, a) * f
    } else {
        1. + (nu90(ra, a) - 1.) * deg.to_radians().sin()
    }
}
/// The possible convection coefficients (around 60 and 90 degrees, the code may use the exact formulas for those angles)
fn conv(g: usize, height: f64, d: f64, angle: f64, tf: f64, tb: f64) -> Vec<f64> {
    let tm = (tf + tb) / 2. + 273.15;
    let p = PROP[g];
    let rho = density(g, tm);
    let ra = rho * rho * d.powi(3) * 9.81 / tm * lin(p.2, tm) * (tf - tb).abs() / (lin(p.1, tm) * lin(p.0, tm));
    let ra = if (tf - tb).abs() < 1e-10 { 1e-7 } else { ra };
    let deg = if tf > tb { 180. - angle.to_degrees() } else { angle.to_degrees() };
    let mut angles = vec![deg];
    for x in [60f64, 90.] {
        if (deg - x).abs() < 0.51 {
            angles.push(x);
            // and the neighbouring formula
            angles.push(x - 1e-9);
        }
    }
    angles.iter().map(|x| nu(ra, *x, height / d) * lin(p.0, tm) / d).collect()
}
pub fn cavity_u(g: usize, height: f64, d: f64, angle: f64, e1: f64, e2: f64, tf: f64, tb: f64) -> Vec<f64> {
    let tm = (tf + tb) / 2. + 273.15;
    let r = 4. * SIGMA * tm.powi(3) / (1. / e1 + 1. / e2 - 1.);
    conv(g, height, d, angle, tf, tb).iter().map(|x| x + r).collect()
}
fn near(v: f64, c: &[f64], rel: f64) -> bool {
    c.iter().any(|x| close(v, *x, rel, 0.))
}
fn cavities(s: &mut Src) -> R {
    let g = s.us(0, 3);
    let d = s.f(0.004, 0.05);
    let height = d * s.f(5.5, 99.);
    let angle = match s.us(0, 5) {
        0 => PI / 2.,
        1 => 0.,
        2 => PI / 3.,
        3 => PI,
        _ => s.f(0., PI),
    };
    let tf = s.f(-30., 70.);
    let tb = match s.us(0, 5) {
        0 => tf,
        1 => tf + s.logf(1e-6, 1.) * if s.bool() { 1. } else { -1. },
        _ => s.f(-30., 70.),
    };
    let (e1, e2) = (s.f(0.02, 1.), s.f(0.02, 1.));
    let c = Cavity { thickness: d, height, gas: gas(g), eout: e1, ein: e2, angle };
    s.nontrivial_if((tf - tb).abs() > 0.1);
    let what = format!("{} thickness={} height={} angle={} eout={} ein={} tf={} tb={}", GASES[g], d, height, angle.to_degrees(), e1, e2, tf, tb);
    s.note(|| what.clone());
    let u = c.u_value(tf, tb);
    let want = cavity_u(g, height, d, angle, e1, e2, tf, tb);
    ensure!(near(u, &want, 1e-6), "u_value", "{}: U={}, but should be {:?}", what, u, want);
    let h = gas(g).cavity_convection(height, d, angle, tf, tb);
    ensure!(near(h, &conv(g, height, d, angle, tf, tb), 1e-6), "convection", "{}: h={}, but should be {:?}", what, h, conv(g, height, d, angle, tf, tb));
    // a cavity that is turned upside down, with the temperatures swapped, is the same cavity
    let turned = Cavity { thickness: d, height, gas: gas(g), eout: e2, ein: e1, angle: PI - angle };
    let u2 = turned.u_value(tb, tf);
    let deg = angle.to_degrees();
    if tf != tb && [60., 90., 120.].iter().all(|x| (deg - x).abs() > 0.6) {
        ensure!(close(u, u2, 1e-6, 0.), "turned", "{}: U={} but {} when it is turned around", what, u, u2);
    }
    // never less than pure conduction and radiation
    let tm = (tf + tb) / 2. + 273.15;
    ensure!(h >= lin(PROP[g].0, tm) / d * (1. - 1e-9), "conduction", "{}: h={} is less than still gas", what, h);
    // gas properties
    let tk = s.f(220., 360.);
    let gg = gas(g);
    let p = PROP[g];
    for (n, a, b) in [("conductivity", gg.thermal_conductivity(tk), lin(p.0, tk)), ("viscosity", gg.dynamic_viscosity(tk), lin(p.1, tk)), ("heat capacity", gg.heat_capacity(tk), lin(p.2, tk)), ("density", gg.density(tk), density(g, tk)), ("mass", gg.mass(), p.3)] {
        ensure!(close(a, b, 1e-9, 0.), "gas", "{} of {} at {} K is {}, not {}", n, GASES[g], tk, a, b);
    }
    Ok(())
}
/// TARP, with the tilt as seen from the other side
pub fn tarp_natural(tair: f64, ts: f64, cos: f64) -> f64 {
    let dt = tair - ts;
    let c = dt.abs().cbrt();
    let h = if dt.abs() < 1e-3 || cos.abs() < 1e-3 {
        1.31 * c
    } else if dt * cos > 0. {
        9.482 * c / (7.238 - cos.abs())
    } else {
        1.81 * c / (1.382 + cos.abs())
    };
    h.max(0.1)
}
const RF: [f64; 6] = [2.17, 1.67, 1.52, 1.13, 1.11, 1.];
pub fn tarp(tair: f64, ts: f64, cos: f64, v: f64, rough: usize, area: f64, per: f64, windward: bool) -> f64 {
    2.537 * if windward { 1. } else { 0.5 } * RF[rough - 1] * (per * v / area).sqrt() + tarp_natural(tair, ts, cos)
}
fn convection(s: &mut Src) -> R {
    let tair = s.f(-30., 60.);
    let ts = match s.us(0, 4) {
        0 => tair,
        1 => tair + s.f(-0.01, 0.01),
        _ => s.f(-30., 80.),
    };
    let cos = match s.us(0, 4) {
        0 => 0.,
        1 => 1.,
        2 => -1.,
        _ => s.f(-1., 1.),
    };
    let v = if s.chance(1, 5) { 0. } else { s.f(0., 25.) };
    let rough = s.us(1, 6);
    let p = ConvectionParams { air_temperature: tair, air_speed: v, rad_temperature: s.f(-30., 60.), surface_temperature: ts, roughness_index: rough, cos_surface_tilt: cos };
    s.note(|| format!("{:?}", p));
    s.nontrivial_if((tair - ts).abs() > 0.01 && cos != 0.);
    // right at the borders between cases, either side is fine
    if ((tair - ts).abs() - 1e-3).abs() < 1e-9 || (cos.abs() - 1e-3).abs() < 1e-9 {
        return Ok(());
    }
    let h = p.get_tarp_natural_convection_coefficient();
    let w = tarp_natural(tair, ts, cos);
    ensure!(close(h, w, 1e-9, 0.), "natural", "{:?}: h={}, not {}", p, h, w);
    let (area, per) = (s.logf(0.1, 100.), s.logf(1., 60.));
    let wind = s.bool();
    let h = p.get_tarp_convection_coefficient(area, per, wind);
    let w = tarp(tair, ts, cos, v, rough, area, per, wind);
    ensure!(close(h, w, 1e-9, 0.), "forced", "{:?} area={} perimeter={} windward={}: h={}, not {}", p, area, per, wind, h, w);
    // warm air below rises
    let h2 = ConvectionParams { cos_surface_tilt: -cos, ..p }.get_tarp_natural_convection_coefficient();
    if (tair - ts).abs() > 2e-3 && cos.abs() > 2e-3 && h > 0.1 && h2 > 0.1 {
        let h1 = p.get_tarp_natural_convection_coefficient();
        ensure!(((tair - ts) * cos > 0.) == (h1 >= h2), "buoyancy", "{:?}: h={} but {} facing the other way", p, h1, h2);
    }
    Ok(())
}
/// Where the wind comes from
fn windward(s: &mut Src) -> R {
    let (a, t) = (s.f(0., 6.283), s.f(0., PI));
    let n = geometry::Vector3D::new(t.sin() * a.sin(), t.sin() * a.cos(), t.cos());
    let wd = s.f(0., 6.283);
    let got = ::heat::surface::is_windward(wd, t.cos(), n);
    let dot = (a - wd).cos() * t.sin();
    s.note(|| format!("azimuth {} tilt {} wind from {}", a, t, wd));
    if dot.abs() < 1e-9 || (t.cos().abs() - 0.98).abs() < 1e-9 {
        return Ok(());
    }
    s.nontrivial_if(t.cos().abs() < 0.98);
    let want = t.cos().abs() >= 0.98 || dot > 0.;
    ensure!(got == want, "windward", "a surface that faces {} degrees from north, tilted {}, is windward={} when the wind comes from {}", a.to_degrees(), t.to_degrees(), got, wd.to_degrees());
    Ok(())
}
pub fn p11() -> Property {
    Property {
        id: "P11",
        facets: vec![
            Facet::new("cavities", cavities, 20000, 2000000, "the two sides differ by more than 0.1 C"),
            Facet::new("convection", convection, 20000, 1000000, "tilted surface and more than 0.01 C of difference with the air"),
            Facet::new("windward", windward, 5000, 200000, "a surface that is not horizontal"),
        ],
        assumptions: vec![
            "within half a degree of 60 and 90 degrees, either the formulas for those angles or those for the range around them are accepted",
            "aspect ratios from 5.5 to 99, the range for which ISO 15099 gives correlations",
        ],
    }
}

/* ---------- P12 ---------- */
/// Net radiation method: absorbed by each layer, transmitted, reflected, by Gauss elimination on all fluxes
/// layer = (tau, rho_front, rho_back)
pub fn net_radiation(l: &[(f64, f64, f64)]) -> (Vec<f64>, f64, f64) {
    let n = l.len();
    // unknowns: down[i] hits the front of layer i (i = 0..=n; down[0] = 1), up[i] hits the back of layer i-1 (i=0..=n; up[n]=0; up[0] leaves)
    // down[i+1] = tau_i down[i] + rb_i up[i+1]
    // up[i]     = rf_i down[i] + tau_i up[i+1]
    let m = 2 * (n + 1);
    let (d, u) = (|i: usize| i, |i: usize| n + 1 + i);
    let mut a = vec![vec![0.; m + 1]; m];
    a[0][d(0)] = 1.;
    a[0][m] = 1.;
    a[1][u(n)] = 1.;
    for i in 0..n {
        let (tau, rf, rb) = l[i];
        let r = 2 + 2 * i;
        a[r][d(i + 1)] = 1.;
        a[r][d(i)] -= tau;
        a[r][u(i + 1)] -= rb;
        a[r + 1][u(i)] = 1.;
        a[r + 1][d(i)] -= rf;
        a[r + 1][u(i + 1)] -= tau;
    }
    for c in 0..m {
        let p = (c..m).max_by(|x, y| a[*x][c].abs().partial_cmp(&a[*y][c].abs()).unwrap()).unwrap();
        a.swap(c, p);
        for r in 0..m {
            if r != c {
                let f = a[r][c] / a[c][c];
                if f != 0. {
                    for k in c..=m {
                        let v = a[c][k];
                        a[r][k] -= f * v;
                    }
                }
            }
        }
    }
    let x: Vec<f64> = (0..m).map(|i| a[i][m] / a[i][i]).collect();
    let abs = (0..n).map(|i| (1. - l[i].0 - l[i].1) * x[d(i)] + (1. - l[i].0 - l[i].2) * x[u(i + 1)]).collect();
    (abs, x[d(n)], x[u(0)])
}
fn pane(s: &mut Src, opaque: bool) -> (f64, f64, f64) {
    let tau = if opaque { 0. } else { s.f(0.01, 0.95) };
    let edge = s.chance(1, 10);
    let mut o = || if edge && s.bool() { 0. } else { s.f(0., 0.999 - tau) };
    (tau, o(), o())
}
fn glazing(s: &mut Src) -> R {
    let n = s.us(1, 6);
    let last_opaque = s.chance(1, 4);
    let l: Vec<(f64, f64, f64)> = (0..n).map(|i| pane(s, last_opaque && i == n - 1)).collect();
    let g: Vec<Glazing> = l.iter().map(|x| Glazing::new(x.0, x.1, x.2)).collect();
    s.note(|| format!("{:?}", l));
    s.nontrivial_if(n > 1);
    let (abs, tau, rho) = net_radiation(&l);
    let got = Glazing::alphas(&g);
    ensure!(got.len() == n, "count", "{} absorptances for {} layers", got.len(), n);
    for i in 0..n {
        ensure!(close(got[i], abs[i], 1e-7, 1e-9), "absorbed", "layer {} absorbs {}, not {}\n{:?}", i, got[i], abs[i], l);
        let x = &g[i];
        ensure!(close(x.alpha_front() + x.rho_front() + x.tau(), 1., 0., 1e-12) && close(x.alpha_back() + x.rho_back() + x.tau(), 1., 0., 1e-12), "balance", "{:?}", x);
        ensure!(x.tau() == l[i].0 && x.rho_front() == l[i].1 && x.rho_back() == l[i].2, "getters", "{:?} {:?}", x, l[i]);
    }
    let c = Glazing::combine_layers(&g);
    let rev: Vec<(f64, f64, f64)> = l.iter().rev().map(|x| (x.0, x.2, x.1)).collect();
    let (_, tau_b, rho_b) = net_radiation(&rev);
    ensure!(close(c.tau(), tau, 1e-7, 1e-9) && close(c.tau(), tau_b, 1e-7, 1e-9), "tau", "transmits {}, not {}\n{:?}", c.tau(), tau, l);
    ensure!(close(c.rho_front(), rho, 1e-7, 1e-9), "rho", "reflects {}, not {}\n{:?}", c.rho_front(), rho, l);
    ensure!(close(c.rho_back(), rho_b, 1e-7, 1e-9), "rho_back", "reflects {} on the back, not {}\n{:?}", c.rho_back(), rho_b, l);
    let total: f64 = got.iter().sum::<f64>() + c.tau() + c.rho_front();
    ensure!(close(total, 1., 0., 1e-8), "energy", "absorbed + transmitted + reflected = {}\n{:?}", total, l);
    // combining is associative
    if n > 2 {
        let k = s.us(1, n - 1);
        let c2 = Glazing::combine_layers(&g[..k]).combine(&Glazing::combine_layers(&g[k..]));
        ensure!(close(c2.tau(), tau, 1e-7, 1e-9) && close(c2.rho_front(), rho, 1e-7, 1e-9) && close(c2.rho_back(), rho_b, 1e-7, 1e-9), "associative", "{:?} {:?}\n{:?}", c, c2, l);
    }
    Ok(())
}
/// What a surface absorbs, by node, on either side
pub fn node_alphas(layers: &[Layer], n_elements: &[usize], back: bool) -> Vec<f64> {
    let n_nodes: usize = n_elements.iter().map(|x| (*x).max(1)).sum::<usize>() + 1;
    let mut out = vec![0.; n_nodes];
    // solid layers, from the lit side, until the first opaque one
    let mut order: Vec<usize> = (0..layers.len()).collect();
    if back {
        order.reverse()
    }
    let mut lit = vec![];
    for i in order {
        if layers[i].gas.is_some() {
            continue;
        }
        lit.push(i);
        if layers[i].tau() == 0. {
            break;
        }
    }
    let panes: Vec<(f64, f64, f64)> = lit
        .iter()
        .map(|i| {
            let l = &layers[*i];
            let (a, b) = if back { (l.ab(), l.af()) } else { (l.af(), l.ab()) };
            (l.tau(), 1. - l.tau() - a, 1. - l.tau() - b)
        })
        .collect();
    let (abs, _, _) = net_radiation(&panes);
    for (x, i) in lit.iter().enumerate() {
        let first: usize = n_elements[..*i].iter().map(|x| (*x).max(1)).sum();
        let n = n_elements[*i].max(1);
        if layers[*i].tau() > 0. {
            for k in first..=first + n {
                out[k] += abs[x] / (n + 1) as f64;
            }
        } else {
            out[if back { first + n } else { first }] += abs[x];
        }
    }
    out
}
fn surface_absorption(s: &mut Src) -> R {
    let layers = construction(s);
    let mut j = empty();
    put(&mut j, "c", &layers);
    j["surfaces"] = json!([{"name":"w","construction":"c","vertices":[0.,0.,0.,1.,0.,0.,1.,0.,1.,0.,0.,1.]}]);
    let (m, mut h) = Model::from_json(&j.to_string())?;
    use communication::SimulationModel;
    let n = *s.pick(&[1, 2, 4, 10, 60]);
    let t = ::heat::heat_model::ThermalModel::new(&crate::air::META, (), &m, &mut h, n)?;
    let ts = &t.surfaces[0];
    s.note(|| format!("{:?}", layers));
    s.nontrivial_if(layers.len() > 1);
    for back in [false, true] {
        let want = node_alphas(&layers, &ts.discretization.n_elements, back);
        let m = if back { &ts.back_alphas } else { &ts.front_alphas };
        for (i, w) in want.iter().enumerate() {
            let got = m.get(i, 0)?;
            ensure!(close(got, *w, 1e-7, 1e-9), if back { "back" } else { "front" }, "node {} absorbs {}, not {}\n{:?}\n{:?}", i, got, w, layers, m);
        }
        ensure!(m.size() == (want.len(), 1), "nodes", "{:?} nodes", m.size());
    }
    Ok(())
}
pub fn p12() -> Property {
    Property {
        id: "P12",
        facets: vec![
            Facet::new("glazing", glazing, 20000, 1000000, "two or more layers"),
            Facet::new("surface_absorption", surface_absorption, 5000, 200000, "two or more layers"),
        ],
        assumptions: vec!["constructions are either opaque on both sides or alternate translucent layers and cavities; mixtures are not supported by the code, which says so"],
    }
}
