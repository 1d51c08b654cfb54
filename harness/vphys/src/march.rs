//! P13 the thermal model through time
use crate::air::{conditions, wind_profile, Wx, META};
use crate::heat::*;
use ::heat::discretization::{Discretization, UValue};
use ::heat::heat_model::ThermalModel;
use ::weather::CurrentWeather;
use air::air_model::AirFlowModel;
use calendar::Date;
use communication::SimulationModel;
use fw::*;
use model::{Model, SimulationState, SimulationStateElement as E};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::f64::consts::PI;

#[derive(Clone, Debug, PartialEq)]
enum B {
    Space(usize),
    Outdoor,
    Ambient(f64),
    Adiabatic,
}
#[derive(Clone, Debug)]
struct Side {
    b: B,
    fixed: Option<f64>,
}
#[derive(Clone, Debug)]
struct Surf {
    layers: Vec<Layer>,
    n: [f64; 3],
    area: f64,
    per: f64,
    z: f64,
    front: Side,
    back: Side,
}
#[derive(Default)]
struct Opt {
    /// no loads, no sun
    passive: bool,
    /// no adiabatic boundaries
    real: bool,
    /// no fixed coefficients
    free: bool,
}
struct Gen {
    j: Value,
    walls: Vec<Surf>,
    wins: Vec<Option<Surf>>,
    n_spaces: usize,
    volumes: Vec<f64>,
    hvac: Vec<usize>,
    lum: Vec<usize>,
    terrain: Option<String>,
    n: usize,
}
fn side(s: &mut Src, n_spaces: usize, o: &Opt) -> Side {
    let b = match s.us(0, 5) {
        0..=2 => B::Space(s.us(0, n_spaces - 1)),
        3 | 4 => B::Outdoor,
        _ => B::Ambient(s.f(-20., 40.)),
    };
    let fixed = if !o.free && s.chance(1, 5) { Some(s.f(0.5, 30.)) } else { None };
    Side { b, fixed }
}
fn bjson(b: &B) -> Value {
    match b {
        B::Space(i) => json!({"type":"Space","space":format!("s{}", i)}),
        B::Outdoor => json!({"type":"Outdoor"}),
        B::Ambient(t) => json!({"type":"AmbientTemperature","temperature":t}),
        B::Adiabatic => json!({"type":"Adiabatic"}),
    }
}
fn surf(s: &mut Src, n_spaces: usize, layers: Vec<Layer>, cname: &str, name: &str, o: &Opt) -> (Surf, Value) {
    let (a, t) = (s.f(0., 2. * PI), *s.pick(&[PI / 2., PI / 2., 0., PI, 0.6, 2.1]));
    let t = if s.chance(1, 4) { s.f(0., PI) } else { t };
    let n = [t.sin() * a.sin(), t.sin() * a.cos(), t.cos()];
    let u = [a.cos(), -a.sin(), 0.];
    let v = [n[1] * u[2] - n[2] * u[1], n[2] * u[0] - n[0] * u[2], n[0] * u[1] - n[1] * u[0]];
    let (w, h) = (s.f(0.4, 8.), s.f(0.4, 4.));
    let org = [s.f(-10., 10.), s.f(-10., 10.), s.f(0., 20.)];
    let mut vs = vec![];
    let mut z = 0.;
    for (x, y) in [(0., 0.), (w, 0.), (w, h), (0., h)] {
        for k in 0..3 {
            vs.push(org[k] + x * u[k] + y * v[k]);
        }
        z += vs[vs.len() - 1] / 4.;
    }
    // the wind at a height of zero, give or take rounding errors, is not well defined
    if z.abs() < 0.05 {
        z += 1.;
        for k in 0..4 {
            vs[3 * k + 2] += 1.;
        }
    }
    let mut front = side(s, n_spaces, o);
    let mut back = side(s, n_spaces, o);
    if !o.real {
        match s.us(0, 7) {
            0 => back = Side { b: B::Adiabatic, fixed: None },
            1 if back.b != B::Outdoor => {
                front = Side { b: B::Adiabatic, fixed: None };
                back.fixed = None;
            }
            _ => {}
        }
    }
    let mut j = json!({"name":name,"construction":cname,"vertices":vs,"front_boundary":bjson(&front.b),"back_boundary":bjson(&back.b)});
    if let Some(x) = front.fixed {
        j["precalculated_front_convection_coef"] = json!(x);
    }
    if let Some(x) = back.fixed {
        j["precalculated_back_convection_coef"] = json!(x);
    }
    (Surf { layers, n, area: w * h, per: 2. * (w + h), z, front, back }, j)
}
fn gen(s: &mut Src, o: Opt) -> Gen {
    let mut j = empty();
    let n_spaces = s.few(1, 3, 8);
    let mut volumes = vec![];
    for i in 0..n_spaces {
        let v = s.f(2., 300.);
        volumes.push(v);
        let mut sp = json!({"name":format!("s{}", i),"volume":v});
        if s.chance(2, 3) {
            let flow = if s.chance(1, 8) { s.logf(1e-7, 1e-3) } else { s.f(0., 0.3) };
            sp["infiltration"] = json!({"type":"Constant","flow":flow});
        }
        j["spaces"].as_array_mut().unwrap().push(sp);
    }
    let mut cons = vec![];
    for i in 0..s.few(1, 3, 8) {
        let c = construction(s);
        put(&mut j, &format!("c{}", i), &c);
        cons.push(c);
    }
    let mut walls = vec![];
    let mut wins = vec![];
    for i in 0..s.few(0, 5, 16) {
        let k = s.us(0, cons.len() - 1);
        let (w, v) = surf(s, n_spaces, cons[k].clone(), &format!("c{}", k), &format!("w{}", i), &o);
        walls.push(w);
        j["surfaces"].as_array_mut().unwrap().push(v);
    }
    for i in 0..s.few(0, 2, 8) {
        let k = s.us(0, cons.len() - 1);
        let (w, mut v) = surf(s, n_spaces, cons[k].clone(), &format!("c{}", k), &format!("f{}", i), &o);
        let cat = *s.pick(&["Window", "Door", "Window", "Opening"]);
        v["category"] = json!(cat);
        wins.push(if cat == "Opening" { None } else { Some(w) });
        j["fenestrations"].as_array_mut().unwrap().push(v);
    }
    let (mut hvac, mut lum) = (vec![], vec![]);
    if !o.passive {
        for i in 0..s.few(0, 2, 8) {
            let k = s.us(0, n_spaces - 1);
            hvac.push(k);
            let t = *s.pick(&["ElectricHeater", "IdealHeaterCooler"]);
            j["hvacs"].as_array_mut().unwrap().push(json!({"type":t,"name":format!("h{}", i),"target_space":format!("s{}", k)}));
        }
        for i in 0..s.few(0, 2, 8) {
            let k = s.us(0, n_spaces - 1);
            lum.push(k);
            j["luminaires"].as_array_mut().unwrap().push(json!({"name":format!("l{}", i),"target_space":format!("s{}", k)}));
        }
    }
    let terrain = if s.bool() { Some(s.pick(&["Country", "Suburbs", "City", "Ocean", "Urban"]).to_string()) } else { None };
    if let Some(t) = &terrain {
        j["site_details"] = json!({"terrain":t});
    }
    let n = *s.pick(&[1usize, 2, 4, 4, 6, 12, 30]);
    Gen { j, walls, wins, n_spaces, volumes, hvac, lum, terrain, n }
}
struct Sim {
    m: Model,
    t: ThermalModel,
    ix: HashMap<String, usize>,
    st: SimulationState,
    air: bool,
    vent: bool,
    names: Vec<String>,
}
fn build(s: &mut Src, g: &Gen) -> Result<Sim, Fail> {
    let (m, mut h) = Model::from_json(&g.j.to_string())?;
    let air_first = s.bool();
    let air = s.chance(2, 3);
    if air && air_first {
        AirFlowModel::new(&META, (), &m, &mut h, g.n)?;
    }
    let t = ThermalModel::new(&META, (), &m, &mut h, g.n)?;
    if air && !air_first {
        AirFlowModel::new(&META, (), &m, &mut h, g.n)?;
    }
    let vent = s.chance(1, 4);
    if vent {
        for (i, sp) in m.spaces.iter().enumerate() {
            let k = h.push(E::SpaceVentilationVolume(i), 0.)?;
            sp.set_ventilation_volume_index(k)?;
            let k = h.push(E::SpaceVentilationTemperature(i), 0.)?;
            sp.set_ventilation_temperature_index(k)?;
        }
    }
    let names: Vec<String> = h.elements.iter().map(|e| format!("{:?}", e)).collect();
    let ix = names.iter().enumerate().map(|(i, n)| (n.clone(), i)).collect();
    let st = h.take_values().ok_or("no state")?;
    Ok(Sim { m, t, ix, st, air, vent, names })
}
impl Sim {
    fn i(&self, k: &str) -> usize {
        *self.ix.get(k).unwrap_or_else(|| panic!("the state has no {}", k))
    }
    fn g(&self, st: &SimulationState, k: &str) -> f64 {
        st[self.i(k)]
    }
    fn set(&mut self, k: &str, v: f64) {
        let i = self.i(k);
        self.st[i] = v;
    }
    fn nodes(&self, st: &SimulationState, kind: &str, i: usize, n: usize) -> Vec<f64> {
        (0..n).map(|x| self.g(st, &format!("{}NodeTemperature({}, {})", kind, i, x))).collect()
    }
    fn disc(&self, kind: &str, i: usize, g: &Gen) -> &Discretization {
        if kind == "Surface" {
            &self.t.surfaces[i].discretization
        } else {
            let k = g.wins[..i].iter().filter(|x| x.is_some()).count();
            &self.t.fenestrations[k].discretization
        }
    }
}
fn all(g: &Gen) -> Vec<(&'static str, usize, &Surf)> {
    g.walls.iter().enumerate().map(|(i, w)| ("Surface", i, w)).chain(g.wins.iter().enumerate().filter_map(|(i, w)| w.as_ref().map(|w| ("Fenestration", i, w)))).collect()
}
fn flow(s: &mut Src) -> f64 {
    match s.us(0, 7) {
        0 | 1 => 0.,
        2 => s.logf(1e-8, 1e-2),
        _ => s.f(0., 0.5),
    }
}
fn randomize(s: &mut Src, g: &Gen, sim: &mut Sim, passive: bool) {
    for i in 0..g.n_spaces {
        let t = s.f(0., 40.);
        sim.set(&format!("SpaceDryBulbTemperature({})", i), t);
        if sim.air {
            let v = flow(s);
            sim.set(&format!("SpaceInfiltrationVolume({})", i), v);
            let v = s.f(-20., 40.);
            sim.set(&format!("SpaceInfiltrationTemperature({})", i), v);
        }
        if sim.vent {
            let v = flow(s);
            sim.set(&format!("SpaceVentilationVolume({})", i), v);
            let v = s.f(-20., 40.);
            sim.set(&format!("SpaceVentilationTemperature({})", i), v);
        }
    }
    for (k, i, _) in all(g) {
        let n = sim.disc(k, i, g).segments.len();
        let (mut t, step) = (s.f(-10., 45.), s.f(-3., 3.));
        for x in 0..n {
            sim.set(&format!("{}NodeTemperature({}, {})", k, i, x), t);
            t += step + s.f(-1., 1.);
        }
        for f in ["Front", "Back"] {
            let v = s.f(100., 600.);
            sim.set(&format!("{}{}IRIrradiance({})", k, f, i), v);
            let v = match s.us(0, 5) {
                0 => 0.,
                1 => -s.f(0., 300.),
                2 => f64::NAN,
                _ => s.f(0., 1000.),
            };
            sim.set(&format!("{}{}SolarIrradiance({})", k, f, i), if passive { 0. } else { v });
        }
    }
    // not more than what changes the temperature of the air by some degrees
    let most = |z: usize, p: f64| p.min(g.volumes[z] * 1200. * 12. * g.n as f64 / 3600.);
    for i in 0..g.hvac.len() {
        let p = most(g.hvac[i], 3000.);
        let v = s.f(-p, p);
        sim.set(&format!("HeatingCoolingPowerConsumption({})", i), v);
    }
    for i in 0..g.lum.len() {
        let v = s.f(0., most(g.lum[i], 300.));
        sim.set(&format!("LuminairePowerConsumption({})", i), v);
    }
}
/// air, radiant and surface temperatures; convection coefficient
#[derive(Clone, Copy, Debug)]
struct Env {
    air: f64,
    rad: f64,
    surf: f64,
    h: f64,
}
fn border_t(b: &B, spaces: &[f64], out: f64) -> Option<f64> {
    match b {
        B::Space(i) => Some(spaces[*i]),
        B::Outdoor => Some(out),
        B::Ambient(t) => Some(*t),
        B::Adiabatic => None,
    }
}
fn env(sd: &Side, w: &Surf, air: f64, ts: f64, ir: f64, cos_other: f64, wind: f64, windward: bool) -> Env {
    let rad = if sd.b == B::Outdoor { (ir / SIGMA).powf(0.25) - 273.15 } else { air };
    let h = match (sd.fixed, &sd.b) {
        (Some(h), _) => h,
        (None, B::Outdoor) => tarp(air, ts, cos_other, wind, 2, w.area, w.per, windward),
        _ => tarp_natural(air, ts, cos_other),
    };
    Env { air, rad, surf: ts, h }
}
/// What is possible at both sides: front and back
fn envs(w: &Surf, tf: Option<f64>, tb: Option<f64>, ts: (f64, f64), ir: (f64, f64), wd: f64, wind: f64) -> Vec<(Env, Env)> {
    let tilted = w.n[2].abs() < 0.98;
    let dot = w.n[0] * wd.sin() + w.n[1] * wd.cos();
    // the side that is not in front of the surface may be considered as if it was
    let fw: Vec<bool> = if (w.n[2].abs() - 0.98).abs() < 1e-6 || dot.abs() < 1e-6 { vec![true, false] } else { vec![!tilted || dot > 0.] };
    let bw: Vec<bool> = if tilted { vec![true, false] } else { vec![true] };
    let mut out = vec![];
    for f in &fw {
        for b in &bw {
            let fe = tf.map(|t| env(&w.front, w, t, ts.0, ir.0, -w.n[2], wind, *f));
            let be = tb.map(|t| env(&w.back, w, t, ts.1, ir.1, w.n[2], wind, *b));
            out.push(match (fe, be) {
                (Some(f), Some(b)) => (f, b),
                (Some(f), None) => (f, f),
                (None, Some(b)) => (Env { rad: b.air, ..b }, b),
                _ => continue,
            });
        }
    }
    out
}
type Net = (Vec<Vec<f64>>, Vec<f64>);
/// K and q of a group of nodes, for the temperatures in t. Radiation is in q, or in both
fn network(d: &Discretization, ini: usize, fin: usize, t: &[f64], f: &Env, b: &Env, radf: f64, radb: f64, solar: &[f64], both: bool) -> Net {
    let n = fin - ini;
    let mut k = vec![vec![0.; n]; n];
    let mut q: Vec<f64> = solar[ini..fin].to_vec();
    let u = |i: usize| -> f64 {
        match &d.segments[i].1 {
            UValue::Solid(u) => *u,
            UValue::Cavity(c) => c.u_value(t[i], t[i + 1]),
            _ => 0.,
        }
    };
    for i in ini..fin {
        let l = i - ini;
        if i > 0 {
            let u = u(i - 1);
            k[l][l] -= u;
            if i > ini {
                k[l][l - 1] += u
            } else {
                q[l] += u * t[i - 1]
            }
        } else {
            k[l][l] -= f.h;
            q[l] += f.h * f.air + radf * (f.rad - if both { 0. } else { t[0] });
            k[l][l] -= if both { radf } else { 0. };
        }
        if i + 1 < t.len() {
            let u = u(i);
            k[l][l] -= u;
            if i + 1 < fin {
                k[l][l + 1] += u
            } else {
                q[l] += u * t[i + 1]
            }
        } else {
            k[l][l] -= b.h;
            q[l] += b.h * b.air + radb * (b.rad - if both { 0. } else { t[i] });
            k[l][l] -= if both { radb } else { 0. };
        }
    }
    (k, q)
}
fn solve(mut a: Vec<Vec<f64>>, mut b: Vec<f64>) -> Vec<f64> {
    let n = b.len();
    for c in 0..n {
        let p = (c..n).max_by(|x, y| a[*x][c].abs().partial_cmp(&a[*y][c].abs()).unwrap()).unwrap();
        a.swap(c, p);
        b.swap(c, p);
        for r in 0..n {
            if r != c && a[r][c] != 0. {
                let f = a[r][c] / a[c][c];
                for k in c..n {
                    let v = a[c][k];
                    a[r][k] -= f * v;
                }
                b[r] -= f * b[c];
            }
        }
    }
    (0..n).map(|i| b[i] / a[i][i]).collect()
}
fn rad_h(e: f64, v: &Env) -> f64 {
    4. * e * SIGMA * (273.15 + (v.rad + v.surf) / 2.).powi(3)
}
/// Checks the step of one surface. Gives what is wrong, if anything, and how much was checked
fn check_surface(w: &Surf, d: &Discretization, t0: &[f64], t1: &[f64], e: &(Env, Env), solar: &[f64], dt: f64) -> (Result<(), String>, usize) {
    let (f, b) = e;
    let radf = rad_h(w.layers[0].ef(), f);
    let radb = rad_h(w.layers[w.layers.len() - 1].eb(), b);
    let n = t0.len();
    let massive: Vec<bool> = d.segments.iter().map(|x| x.0 > 1e-5).collect();
    let mut checked = 0;
    let mut ini = 0;
    while ini < n {
        let mut fin = ini + 1;
        while fin < n && massive[fin] == massive[ini] {
            fin += 1;
        }
        if massive[ini] {
            // neighbours without mass have been solved already
            let t: Vec<f64> = (0..n).map(|i| if massive[i] { t0[i] } else { t1[i] }).collect();
            let (k, q) = network(d, ini, fin, &t, f, b, radf, radb, solar, false);
            let m = fin - ini;
            let a: Vec<Vec<f64>> = (0..m).map(|i| (0..m).map(|j| k[i][j] * dt / d.segments[ini + i].0).collect()).collect();
            let mul = |v: &Vec<f64>| -> Vec<f64> { (0..m).map(|i| (0..m).map(|j| a[i][j] * v[j]).sum()).collect() };
            let tt: Vec<f64> = t[ini..fin].to_vec();
            let mut term: Vec<f64> = mul(&tt).iter().enumerate().map(|(i, x)| x + q[i] * dt / d.segments[ini + i].0).collect();
            let mut want = tt;
            let mut fact = 1.;
            for j in 1..=4 {
                fact *= j as f64;
                for i in 0..m {
                    want[i] += term[i] / fact;
                }
                term = mul(&term);
            }
            for i in 0..m {
                checked += 1;
                if !close(t1[ini + i], want[i], 1e-8, 1e-6) {
                    return (Err(format!("nodes {}..{} became {:?} but should be {:?}", ini, fin, &t1[ini..fin], want)), checked);
                }
            }
        } else {
            // does it converge?
            let mut t = t0.to_vec();
            let g = |t: &[f64]| -> Vec<f64> {
                let (k, q) = network(d, ini, fin, t, f, b, radf, radb, solar, true);
                solve(k.iter().map(|r| r.iter().map(|x| -x).collect()).collect(), q)
            };
            let err = |x: &[f64], t: &[f64]| -> f64 { x.iter().zip(&t[ini..fin]).map(|(a, b)| (a - b).abs()).sum::<f64>() / x.len() as f64 };
            let mut old = f64::MAX;
            let mut good = false;
            for _ in 0..90 {
                let x = g(&t);
                let e = err(&x, &t);
                if !(e < 0.95 * old) {
                    break;
                }
                for i in 0..x.len() {
                    t[ini + i] = (t[ini + i] + x[i]) / 2.;
                }
                if e < 0.008 {
                    good = true;
                    break;
                }
                old = e;
            }
            if good {
                checked += 1;
                // the convection of cavities is not continuous, so the balance of what is almost the solution may be far
                let there = (ini..fin).all(|i| close(t[i], t1[i], 0., 0.01));
                let mut t: Vec<f64> = t0.to_vec();
                t[ini..fin].copy_from_slice(&t1[ini..fin]);
                let x = g(&t);
                let e = err(&x, &t);
                if !(e < 0.02 || there) {
                    return (Err(format!("nodes {}..{} (no mass) became {:?}, which are not in balance: that would be {:?}", ini, fin, &t1[ini..fin], x)), checked);
                }
            }
        }
        ini = fin;
    }
    (Ok(()), checked)
}
fn finite(v: f64) -> f64 {
    if v.is_nan() || v < 0. {
        0.
    } else {
        v
    }
}
/// Massive nodes are solved explicitly, so what is next to them must not react too fast
fn tame(g: &Gen, sim: &Sim) -> bool {
    all(g).iter().all(|(k, i, _)| {
        let d = &sim.disc(k, *i, g).segments;
        let u = |i: usize| -> f64 {
            match &d[i].1 {
                UValue::Solid(u) => *u,
                UValue::Cavity(_) => 20.,
                _ => 0.,
            }
        };
        let n = d.len();
        (0..n).all(|i| {
            let mut x = 0.;
            if i == 0 || i + 1 == n {
                x += 20.;
            }
            if i > 0 {
                x += u(i - 1);
            }
            if i + 1 < n {
                x += u(i);
            }
            d[i].0 < 1e-5 || x * sim.t.dt / d[i].0 < 1.35
        })
    })
}
/// Checks one step of everything; s0 and s1 are the state before and after
fn check_step(g: &Gen, sim: &Sim, s0: &SimulationState, s1: &SimulationState, c: &CurrentWeather, dt: f64) -> Result<usize, Fail> {
    let spaces: Vec<f64> = (0..g.n_spaces).map(|i| sim.g(s0, &format!("SpaceDryBulbTemperature({})", i))).collect();
    let (mut a, mut b) = (vec![0.; g.n_spaces], vec![0.; g.n_spaces]);
    let mut checked = 0;
    for (kind, i, w) in all(g) {
        let d = sim.disc(kind, i, g);
        let n = d.segments.len();
        let (t0, t1) = (sim.nodes(s0, kind, i, n), sim.nodes(s1, kind, i, n));
        let v = |st: &SimulationState, f: &str, q: &str| sim.g(st, &format!("{}{}{}({})", kind, f, q, i));
        let (af, ab) = (node_alphas(&w.layers, &d.n_elements, false), node_alphas(&w.layers, &d.n_elements, true));
        let (sf, sb) = (finite(v(s0, "Front", "SolarIrradiance")), finite(v(s0, "Back", "SolarIrradiance")));
        let solar: Vec<f64> = (0..n).map(|x| af[x] * sf + ab[x] * sb).collect();
        let (tf, tb) = (border_t(&w.front.b, &spaces, c.dry_bulb_temperature), border_t(&w.back.b, &spaces, c.dry_bulb_temperature));
        let ir = (v(s0, "Front", "IRIrradiance"), v(s0, "Back", "IRIrradiance"));
        let wind = c.wind_speed * wind_profile(g.terrain.as_deref(), w.z).unwrap();
        let cand = envs(w, tf, tb, (t0[0], t0[n - 1]), ir, c.wind_direction, wind);
        let r: Vec<_> = cand.iter().map(|e| check_surface(w, d, &t0, &t1, e, &solar, dt)).collect();
        if let Some(x) = r.iter().find(|x| x.0.is_ok()) {
            checked += x.1;
        } else {
            bail!("surface", "{} {} ({:?})\n{}\nfrom {:?} with {:?}, {:?} W/m2 absorbed; {} s\n{}", kind, i, w, r[0].0.as_ref().unwrap_err(), t0, cand, solar, dt, g.j);
        }
        // what is reported
        let after = envs(w, tf, tb, (t1[0], t1[n - 1]), ir, c.wind_direction, wind);
        let (hf, hb) = (v(s1, "Front", "ConvectionCoefficient"), v(s1, "Back", "ConvectionCoefficient"));
        ensure!(after.iter().any(|e| close(e.0.h, hf, 1e-7, 0.) && close(e.1.h, hb, 1e-7, 0.)), "coefficient", "{} {} ({:?}): convection coefficients {} and {}, but should be {:?}\n{}", kind, i, w, hf, hb, after, g.j);
        if let Some(t) = tf {
            let q = v(s1, "Front", "ConvectiveHeatFlow");
            ensure!(close(q, (t1[0] - t) * hf, 1e-8, 1e-8), "flow", "{} {}: front heat flow {} from {} to {} C, with {} W/m2K\n{}", kind, i, q, t1[0], t, hf, g.j);
        }
        if let Some(t) = tb {
            let q = v(s1, "Back", "ConvectiveHeatFlow");
            ensure!(close(q, (t1[n - 1] - t) * hb, 1e-8, 1e-8), "flow", "{} {}: back heat flow {} from {} to {} C, with {} W/m2K\n{}", kind, i, q, t1[n - 1], t, hb, g.j);
        }
        if let B::Space(z) = w.front.b {
            a[z] += hf * w.area * t1[0];
            b[z] += hf * w.area;
        }
        if let B::Space(z) = w.back.b {
            a[z] += hb * w.area * t1[n - 1];
            b[z] += hb * w.area;
        }
    }
    for (i, z) in g.hvac.iter().enumerate() {
        a[*z] += sim.g(s0, &format!("HeatingCoolingPowerConsumption({})", i));
    }
    for (i, z) in g.lum.iter().enumerate() {
        a[*z] += sim.g(s0, &format!("LuminairePowerConsumption({})", i));
    }
    for z in 0..g.n_spaces {
        for (on, k) in [(sim.air, "Infiltration"), (sim.vent, "Ventilation")] {
            if on {
                let v = sim.g(s0, &format!("Space{}Volume({})", k, z));
                let t = sim.g(s0, &format!("Space{}Temperature({})", k, z));
                let m = v * density(0, t + 273.15) * heat_capacity(0, t + 273.15);
                a[z] += m * t;
                b[z] += m;
            }
        }
        let t0 = spaces[z];
        let cap = g.volumes[z] * density(0, t0 + 273.15) * heat_capacity(0, t0 + 273.15);
        let x = b[z] * dt / cap;
        // (1 - e^-x)/x
        let f = if x < 1e-6 { 1. - x / 2. } else { -(-x).exp_m1() / x };
        let want = t0 + (a[z] - b[z] * t0) * dt / cap * f;
        let got = sim.g(s1, &format!("SpaceDryBulbTemperature({})", z));
        ensure!(close(got, want, 1e-7, 1e-6), "space", "space {} went from {} to {} C in {} s, but should be {} (A={} B={} C={})\n{}", z, t0, got, dt, want, a[z], b[z], cap, g.j);
        checked += 1;
    }
    // nothing else changes
    for (i, n) in sim.names.iter().enumerate() {
        let mine = ["NodeTemperature", "ConvectionCoefficient", "ConvectiveHeatFlow", "SpaceDryBulbTemperature"].iter().any(|x| n.contains(x));
        ensure!(mine || s0[i] == s1[i] || s0[i].is_nan(), "side_effect", "{} changed from {} to {}\n{}", n, s0[i], s1[i], g.j);
    }
    Ok(checked)
}
fn now(s: &mut Src) -> Date {
    Date { month: s.us(1, 12) as u8, day: s.us(1, 28) as u8, hour: s.f(0., 23.99) as _ }
}
/// One step at a time
fn steps(s: &mut Src) -> R {
    let g = gen(s, Opt::default());
    s.note(|| g.j.to_string());
    let mut sim = build(s, &g)?;
    if !tame(&g, &sim) {
        return Ok(());
    }
    let total = sim.t.dt * sim.t.dt_subdivisions as f64;
    ensure!(close(total, 3600. / g.n as f64, 1e-9, 0.), "dt", "{} steps of {} s, {} per hour\n{}", sim.t.dt_subdivisions, sim.t.dt, g.n, g.j);
    for (k, i, _) in all(&g) {
        let d = sim.disc(k, i, &g);
        ensure!(sim.t.dt_subdivisions >= d.tstep_subdivision, "dt", "{} {} needs {} subdivisions but there are {}\n{}", k, i, d.tstep_subdivision, sim.t.dt_subdivisions, g.j);
    }
    sim.t.dt_subdivisions = 1;
    randomize(s, &g, &mut sim, false);
    let mut mem = sim.t.allocate_memory(&sim.st)?;
    let mut checked = 0;
    let mut date = now(s);
    for _ in 0..s.us(1, 4) {
        let c = conditions(s);
        let wx = Wx { lines: vec![(date, c)] };
        let s0 = sim.st.clone();
        let mut s1 = s0.clone();
        sim.t.march(date, &wx, &sim.m, &mut s1, &mut mem)?;
        checked += check_step(&g, &sim, &s0, &s1, &c, sim.t.dt)?;
        sim.st = s1;
        date.add_hours(1. as _);
    }
    s.nontrivial_if(checked > g.n_spaces * 4 + 3);
    Ok(())
}
/// A step is the sum of its parts, each with its own weather
fn substeps(s: &mut Src) -> R {
    let g = gen(s, Opt::default());
    s.note(|| g.j.to_string());
    let mut sim = build(s, &g)?;
    if !tame(&g, &sim) {
        return Ok(());
    }
    randomize(s, &g, &mut sim, false);
    let n = sim.t.dt_subdivisions;
    let dt = sim.t.dt;
    let date = now(s);
    let mut wx = Wx { lines: vec![] };
    let mut d = date;
    let mut dates = vec![d];
    for _ in 0..n {
        d.add_seconds(dt as _);
        dates.push(d);
        let c = conditions(s);
        wx.lines.push((d, c));
    }
    // it is not at the end of the year
    if dates.iter().any(|x| x.month != date.month) {
        return Ok(());
    }
    let mut whole = sim.st.clone();
    let mut mem = sim.t.allocate_memory(&whole)?;
    sim.t.march(date, &wx, &sim.m, &mut whole, &mut mem)?;
    let mut part = sim.st.clone();
    let mut mem = sim.t.allocate_memory(&part)?;
    sim.t.dt_subdivisions = 1;
    for i in 0..n {
        let one = Wx { lines: vec![wx.lines[i]] };
        sim.t.march(dates[i], &one, &sim.m, &mut part, &mut mem)?;
    }
    s.nontrivial_if(n > 2 && !all(&g).is_empty());
    for i in 0..part.len() {
        ensure!(close(part[i], whole[i], 1e-9, 1e-9) || part[i].is_nan(), "substeps", "{}: {} after one step of {} subdivisions but {} after {} steps, from {:?} at {} s\n{}", sim.names[i], whole[i], n, part[i], n, date, dt, g.j);
    }
    Ok(())
}
/// Nothing happens when everything is at the same temperature
fn equilibrium(s: &mut Src) -> R {
    let mut g = gen(s, Opt { passive: true, ..Default::default() });
    let t = s.f(-10., 45.);
    // ambient temperatures become that one
    for k in ["surfaces", "fenestrations"] {
        for x in g.j[k].as_array_mut().unwrap() {
            for b in ["front_boundary", "back_boundary"] {
                if x[b]["type"] == "AmbientTemperature" {
                    x[b]["temperature"] = json!(t);
                }
            }
        }
    }
    s.note(|| g.j.to_string());
    let mut sim = build(s, &g)?;
    if !tame(&g, &sim) {
        return Ok(());
    }
    randomize(s, &g, &mut sim, true);
    let names = sim.names.clone();
    for n in names {
        if n.contains("Temperature") {
            sim.set(&n, t);
        } else if n.contains("IRIrradiance") {
            sim.set(&n, SIGMA * (t + 273.15).powi(4));
        }
    }
    s.nontrivial_if(all(&g).len() > 1);
    let mut c = conditions(s);
    c.dry_bulb_temperature = t;
    let date = now(s);
    let wx = Wx { lines: vec![(date, c)] };
    let mut mem = sim.t.allocate_memory(&sim.st)?;
    let mut st = sim.st.clone();
    for _ in 0..s.us(1, 5) {
        sim.t.march(date, &wx, &sim.m, &mut st, &mut mem)?;
    }
    for (i, n) in sim.names.iter().enumerate() {
        if n.contains("Temperature") {
            ensure!(close(st[i], t, 0., 1e-5), "drift", "{} went from {} to {} when everything was at {} C\n{}", n, t, st[i], t, g.j);
        } else if n.contains("HeatFlow") && !g.j.to_string().contains("Adiabatic") {
            ensure!(st[i].abs() < 1e-3, "flow", "{} is {} when everything is at {} C\n{}", n, st[i], t, g.j);
        }
    }
    Ok(())
}
/// After a long time, what comes in goes out
fn steady(s: &mut Src) -> R {
    let mut g = gen(s, Opt { passive: true, real: true, ..Default::default() });
    let (tf, tb) = (s.f(-20., 40.), s.f(-20., 40.));
    let layers = {
        let mut v = vec![];
        for _ in 0..s.us(1, 3) {
            let mut l = solid_layer(s, false);
            l.t = l.t.min(0.1);
            // not too much mass, so it does not take forever
            let c = l.rho * l.cp * l.t;
            if c > 60e3 {
                l.rho *= 60e3 / c;
            }
            v.push(l);
        }
        v
    };
    let r: f64 = layers.iter().map(|l| l.t / l.k).sum();
    let (h1, h2) = (s.f(2., 25.), s.f(2., 25.));
    let mut j = empty();
    put(&mut j, "c0", &layers);
    let (mut w, mut v) = surf(s, 1, layers.clone(), "c0", "w0", &Opt { real: true, ..Default::default() });
    w.front = Side { b: B::Ambient(tf), fixed: Some(h1) };
    w.back = Side { b: B::Ambient(tb), fixed: Some(h2) };
    v["front_boundary"] = bjson(&w.front.b);
    v["back_boundary"] = bjson(&w.back.b);
    v["precalculated_front_convection_coef"] = json!(h1);
    v["precalculated_back_convection_coef"] = json!(h2);
    j["surfaces"] = json!([v]);
    g.j = j;
    g.walls = vec![w];
    g.wins = vec![];
    g.n_spaces = 0;
    s.note(|| g.j.to_string());
    let mut sim = build(s, &g)?;
    if !tame(&g, &sim) {
        return Ok(());
    }
    randomize(s, &g, &mut sim, true);
    let n = sim.t.surfaces[0].discretization.segments.len();
    let c = conditions(s);
    let date = Date { month: 5, day: 5, hour: 1. };
    let wx = Wx { lines: vec![(date, c)] };
    let mut mem = sim.t.allocate_memory(&sim.st)?;
    let mut st = sim.st.clone();
    let hours = 20. * (layers.iter().map(|l| l.rho * l.cp * l.t).sum::<f64>()) * (r + 1. / h1 + 1. / h2) / 3600.;
    let n_steps = (hours * g.n as f64).ceil() as usize + 60;
    if n_steps > 4000 {
        return Ok(());
    }
    for _ in 0..n_steps {
        sim.t.march(date, &wx, &sim.m, &mut st, &mut mem)?;
    }
    s.nontrivial_if((tf - tb).abs() > 3.);
    // q = h1 (tf - x) + e1 4 s (tm)^3 (tf - x) = (x - y)/r = ...
    let (e1, e2) = (layers[0].ef(), layers[layers.len() - 1].eb());
    let (mut x, mut y) = (tf, tb);
    for _ in 0..500 {
        let a = h1 + 4. * e1 * SIGMA * (273.15 + (tf + x) / 2.).powi(3);
        let b = h2 + 4. * e2 * SIGMA * (273.15 + (tb + y) / 2.).powi(3);
        let q = (tf - tb) / (1. / a + r + 1. / b);
        x = tf - q / a;
        y = tb + q / b;
    }
    let nodes = sim.nodes(&st, "Surface", 0, n);
    let massless = sim.t.surfaces[0].discretization.segments.iter().any(|x| x.0 < 1e-5);
    // nodes without mass are only solved approximately
    let tol = if massless { 0.35 } else { 0.02 };
    ensure!((nodes[0] - x).abs() < tol && (nodes[n - 1] - y).abs() < tol, "steady", "after {} steps, the faces are at {} and {} C; they should be at {} and {} ({:?})\n{}", n_steps, nodes[0], nodes[n - 1], x, y, nodes, g.j);
    Ok(())
}
/// Without sources, temperatures stay within those of the surroundings
fn bounded(s: &mut Src) -> R {
    let mut g = gen(s, Opt { passive: true, ..Default::default() });
    let (lo, hi) = (s.f(-15., 15.), s.f(20., 40.));
    for k in ["surfaces", "fenestrations"] {
        for x in g.j[k].as_array_mut().unwrap() {
            for b in ["front_boundary", "back_boundary"] {
                if x[b]["type"] == "AmbientTemperature" {
                    x[b]["temperature"] = json!(s.f(lo, hi));
                }
            }
        }
    }
    s.note(|| g.j.to_string());
    let mut sim = build(s, &g)?;
    if !tame(&g, &sim) {
        return Ok(());
    }
    randomize(s, &g, &mut sim, true);
    for n in sim.names.clone() {
        let t = s.f(lo, hi);
        if n.contains("Temperature") {
            sim.set(&n, t);
        } else if n.contains("IRIrradiance") {
            sim.set(&n, SIGMA * (t + 273.15).powi(4));
        }
    }
    s.nontrivial_if(all(&g).len() > 1);
    let mut mem = sim.t.allocate_memory(&sim.st)?;
    let mut st = sim.st.clone();
    let mut date = Date { month: 1, day: 5, hour: 1. };
    let slack = 0.05 * (hi - lo) + 0.1;
    for k in 0..s.us(2, 40) {
        let mut c = conditions(s);
        c.dry_bulb_temperature = s.f(lo, hi);
        c.wind_speed = c.wind_speed.min(8.);
        let wx = Wx { lines: vec![(date, c)] };
        sim.t.march(date, &wx, &sim.m, &mut st, &mut mem)?;
        date.add_hours(1. as _);
        for (i, n) in sim.names.iter().enumerate() {
            if n.contains("NodeTemperature") || n.contains("DryBulb") {
                ensure!(st[i] > lo - slack && st[i] < hi + slack, "bounds", "{} reached {} C in step {} although everything started between {} and {} C and is surrounded by that\n{}", n, st[i], k, lo, hi, g.j);
            }
        }
    }
    Ok(())
}
/// One millimetre of steel over concrete
fn thin_metal(s: &mut Src) -> R {
    let l = |t: f64, k: f64, rho: f64, cp: f64| Layer { gas: None, t, k, rho, cp, ef: None, eb: None, af: None, ab: None, tau: None };
    let layers = vec![l(0.001, 45., 7800., 450.), l(0.06, 1.6, 2300., 880.)];
    let mut j = empty();
    put(&mut j, "c0", &layers);
    let out = json!({"type":"Outdoor"});
    j["surfaces"] = json!([{"name":"w0","construction":"c0","vertices":[0.,0.,1.,2.,0.,1.,2.,0.,3.,0.,0.,3.],"front_boundary":out,"back_boundary":{"type":"AmbientTemperature","temperature":20.}}]);
    s.note(|| j.to_string());
    s.nontrivial();
    let (m, mut h) = Model::from_json(&j.to_string())?;
    let t = ThermalModel::new(&META, (), &m, &mut h, 4)?;
    let names: Vec<String> = h.elements.iter().map(|e| format!("{:?}", e)).collect();
    let mut st = h.take_values().ok_or("no state")?;
    let mut c = conditions(s);
    c.dry_bulb_temperature = 10.;
    let date = Date { month: 5, day: 5, hour: 1. };
    let wx = Wx { lines: vec![(date, c)] };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
        let mut mem = t.allocate_memory(&st)?;
        for _ in 0..400 {
            t.march(date, &wx, &m, &mut st, &mut mem)?;
        }
        Ok(())
    }));
    ensure!(matches!(r, Ok(Ok(()))), "diverges", "a wall of 1 mm of steel and 60 mm of concrete between 10 and 20 C became NaN");
    for (i, n) in names.iter().enumerate() {
        ensure!(!n.contains("NodeTemperature") || (st[i] > -100. && st[i] < 60.), "diverges", "a wall of 1 mm of steel and 60 mm of concrete between 10 and 20 C reached {} C", st[i]);
    }
    Ok(())
}
pub fn p13() -> Property {
    Property {
        id: "P13",
        facets: vec![
            Facet::new("steps", steps, 3000, 200000, "one or more surfaces whose nodes were predicted"),
            Facet::new("substeps", substeps, 600, 30000, "three or more subdivisions and a surface"),
        ],
        assumptions: vec![
            "the back of a surface that faces outdoors may be treated as windward when its front is",
            "massless nodes are compared with the balance that the fixed-point iteration reaches, to 0.02 C, and only where that iteration converges",
            "constructions in which a massive node exchanges more than 1.35 times its heat capacity per time step are not generated: they are unstable (a known finding of P14)",
            "ground boundaries are not supported by the code; cavities are taken to be 1 m high, as the code says",
        ],
    }
}
pub fn p14() -> Property {
    Property {
        id: "P14",
        facets: vec![
            Facet::new("equilibrium", equilibrium, 800, 40000, "two or more surfaces"),
            Facet::new("steady", steady, 400, 20000, "more than 3 C of difference between both sides"),
            Facet::new("bounded", bounded, 500, 20000, "two or more surfaces"),
            Facet::new("thin_metal", thin_metal, 1, 1, "always"),
        ],
        assumptions: vec![
            "5% of overshoot is tolerated, because the time step is explicit",
            "constructions in which a massive node exchanges more than 1.35 times its heat capacity per time step are not generated: they are unstable (a known finding, see thin_metal)",
        ],
    }
}
