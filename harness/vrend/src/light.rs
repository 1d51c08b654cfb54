//! R06 solar and infrared radiation on surfaces; R07 daylight coefficients
use crate::cast::{arr, cross, dot, hit, len, soup_of, sub};
use crate::geom::{dir, frame, pt};
use crate::images::Tmp;
use ::light::{IRViewFactorSet, OpticalInfo, SolarModel};
use ::weather::{CurrentWeather, PerezSky, ReinhartSky, SkyUnits, Solar, WeatherTrait};
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use fw::*;
use geometry::{Point3D, Ray3D, Triangle3D, Vector3D};
use matrix::Matrix;
use model::{FenestrationType, Model, SimulationState, SimulationStateElement as E, SimulationStateHeader, SolarOptions};
use rendering::material::{Diffuse, Material, Mirror};
use rendering::primitive::Primitive;
use rendering::rand::*;
use rendering::triangle::Triangle;
use rendering::{DCFactory, Scene, Spectrum};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::f64::consts::PI;

const SIGMA: f64 = 5.670374419e-8;
struct Now(CurrentWeather);
impl WeatherTrait for Now {
    fn get_weather_data(&self, date: Date) -> CurrentWeather {
        let mut c = self.0;
        c.date = date;
        c
    }
}
fn conditions(s: &mut Src) -> CurrentWeather {
    let t = s.f(-35., 48.);
    let mut c = CurrentWeather::default();
    c.dry_bulb_temperature = t;
    c.dew_point_temperature = t - s.f(0., 15.);
    c.wind_speed = s.f(0., 20.);
    c.opaque_sky_cover = s.f(0., 10.);
    c.horizontal_infrared_radiation_intensity = if s.chance(1, 4) { None } else { Some(s.f(100., 480.)) };
    c.relative_humidity = s.f(0., 1.);
    c.pressure = 101325.;
    let (d, n) = match s.us(0, 4) {
        0 => (0., 0.),
        1 => (s.f(1., 400.), 0.),
        2 => (s.f(1., 5.), s.f(500., 1000.)),
        _ => (s.f(1., 400.), s.f(0., 1000.)),
    };
    c.diffuse_horizontal_radiation = d;
    c.direct_normal_radiation = n;
    c
}
fn boundary(s: &mut Src) -> Value {
    match s.us(0, 7) {
        0 => json!({"type":"Adiabatic"}),
        1 => json!({"type":"Ground"}),
        2 => json!({"type":"AmbientTemperature","temperature":s.f(-20., 40.)}),
        3 | 4 => json!({"type":"Space","space":"s0"}),
        _ => json!({"type":"Outdoor"}),
    }
}
pub fn rectangle(o: Point3D, n: Vector3D, w: f64, h: f64) -> Vec<f64> {
    let (u, v) = frame(n);
    [(-w, -h), (w, -h), (w, h), (-w, h)].iter().flat_map(|(x, y)| arr(o + u * (*x / 2.) + v * (*y / 2.))).collect()
}
pub fn empty() -> Value {
    json!({"buildings":[],"spaces":[{"name":"s0","volume":40.}],"substances":[],"materials":[],"constructions":[],"surfaces":[],"fenestrations":[],"hvacs":[],"luminaires":[],"site_details":null})
}
pub fn push(j: &mut Value, k: &str, v: Value) {
    j[k].as_array_mut().unwrap().push(v);
}
fn construction(j: &mut Value, i: usize, front: f64, back: f64) {
    push(j, "substances", json!({"type":"Normal","name":format!("sub{}", i),"front_solar_absorbtance":front,"back_solar_absorbtance":back}));
    push(j, "materials", json!({"name":format!("mat{}", i),"substance":format!("sub{}", i),"thickness":0.1}));
    push(j, "constructions", json!({"name":format!("c{}", i),"materials":[format!("mat{}", i)]}));
}
fn sun_or_not(b: &Value) -> bool {
    b["type"] == "Space" || b["type"] == "Outdoor"
}
fn small_model(s: &mut Src) -> Value {
    let mut j = empty();
    construction(&mut j, 0, 0.7, 0.4);
    let walls = if s.chance(1, 6) { 0 } else { s.few(1, 4, 12) };
    for i in 0..walls {
        let (o, n) = (pt(s, 10.), dir(s));
        let (f, b) = (boundary(s), boundary(s));
        push(&mut j, "surfaces", json!({"name":format!("w{}", i),"construction":"c0","vertices":rectangle(o, n, 1., 2.),"front_boundary":f,"back_boundary":b}));
    }
    for i in 0..s.us(if walls == 0 { 1 } else { 0 }, 3) {
        let (o, n) = (pt(s, 10.), dir(s));
        let (f, b) = (boundary(s), boundary(s));
        let c = *s.pick(&["Window", "Door", "Opening", "Window"]);
        push(&mut j, "fenestrations", json!({"name":format!("f{}", i),"construction":"c0","vertices":rectangle(o, n, 1., 2.),"front_boundary":f,"back_boundary":b,"category":c}));
    }
    j
}
/// Creates the elements of the state that are used
fn states(m: &Model, h: &mut SimulationStateHeader, nodes: bool) -> R {
    for (i, x) in m.surfaces.iter().enumerate() {
        x.set_front_incident_solar_irradiance_index(h.push(E::SurfaceFrontSolarIrradiance(i), 0.)?)?;
        x.set_back_incident_solar_irradiance_index(h.push(E::SurfaceBackSolarIrradiance(i), 0.)?)?;
        x.set_front_ir_irradiance_index(h.push(E::SurfaceFrontIRIrradiance(i), 0.)?)?;
        x.set_back_ir_irradiance_index(h.push(E::SurfaceBackIRIrradiance(i), 0.)?)?;
        if nodes {
            x.set_first_node_temperature_index(h.push(E::SurfaceNodeTemperature(i, 0), 0.)?)?;
            h.push(E::SurfaceNodeTemperature(i, 1), 0.)?;
            x.set_last_node_temperature_index(h.push(E::SurfaceNodeTemperature(i, 2), 0.)?)?;
        }
    }
    for (i, x) in m.fenestrations.iter().enumerate() {
        if x.category == FenestrationType::Opening {
            continue;
        }
        x.set_front_incident_solar_irradiance_index(h.push(E::FenestrationFrontSolarIrradiance(i), 0.)?)?;
        x.set_back_incident_solar_irradiance_index(h.push(E::FenestrationBackSolarIrradiance(i), 0.)?)?;
        x.set_front_ir_irradiance_index(h.push(E::FenestrationFrontIRIrradiance(i), 0.)?)?;
        x.set_back_ir_irradiance_index(h.push(E::FenestrationBackIRIrradiance(i), 0.)?)?;
        if nodes {
            x.set_first_node_temperature_index(h.push(E::FenestrationNodeTemperature(i, 0), 0.)?)?;
            x.set_last_node_temperature_index(h.push(E::FenestrationNodeTemperature(i, 1), 0.)?)?;
        }
    }
    Ok(())
}
fn where_is(h: &SimulationStateHeader) -> HashMap<String, usize> {
    h.elements.iter().enumerate().map(|(i, e)| (format!("{:?}", e), i)).collect()
}
fn column(m: &Matrix) -> Vec<f64> {
    (0..m.size().0).map(|i| m.get(i, 0).unwrap()).collect()
}
pub fn random_dc(s: &mut Src, receives: &[bool], bins: usize) -> Matrix {
    let mut v = vec![0.; receives.len() * bins];
    for (i, r) in receives.iter().enumerate() {
        if !*r {
            continue;
        }
        if s.bool() {
            // just some directions
            for _ in 0..s.us(1, 3) {
                let k = s.us(0, bins - 1);
                v[i * bins + k] = s.f(0., 0.5);
            }
        } else {
            let mut x = s.us(1, 1 << 20) as u64;
            for k in 0..bins {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                v[i * bins + k] = (x >> 40) as f64 / (1u64 << 24) as f64 * 0.1;
            }
        }
    }
    Matrix::from_data(receives.len(), bins, v)
}
pub fn random_vf(s: &mut Src, n: usize) -> Vec<IRViewFactorSet> {
    (0..n)
        .map(|_| {
            let (a, b) = (s.f(0., 1.), s.f(0., 1.));
            IRViewFactorSet { sky: a, ground: (1. - a) * b, air: (1. - a) * (1. - b) }
        })
        .collect()
}
fn marching(s: &mut Src) -> R {
    let j = small_model(s);
    let (m, mut h) = Model::from_json(&j.to_string())?;
    let with_nodes = s.bool();
    h.push(E::SpaceDryBulbTemperature(0), 21.)?;
    states(&m, &mut h, with_nodes)?;
    let mf = *s.pick(&[1usize, 1, 2, 3, 4]);
    let bins = ReinhartSky::new(mf).n_bins;
    let (ns, nf) = (m.surfaces.len(), m.fenestrations.len());
    let rec = |k: &str, side: &str| -> Vec<bool> { j[k].as_array().unwrap().iter().map(|x| sun_or_not(&x[side])).collect() };
    let (a, b, c, d) = (random_dc(s, &rec("surfaces", "front_boundary"), bins), random_dc(s, &rec("surfaces", "back_boundary"), bins), random_dc(s, &rec("fenestrations", "front_boundary"), bins), random_dc(s, &rec("fenestrations", "back_boundary"), bins));
    let info = OpticalInfo {
        front_surfaces_view_factors: random_vf(s, ns),
        back_surfaces_view_factors: random_vf(s, ns),
        front_fenestrations_view_factors: random_vf(s, nf),
        back_fenestrations_view_factors: random_vf(s, nf),
        front_surfaces_dc: if ns > 0 { a } else { Matrix::empty() },
        back_surfaces_dc: if ns > 0 { b } else { Matrix::empty() },
        front_fenestrations_dc: if nf > 0 { c } else { Matrix::empty() },
        back_fenestrations_dc: if nf > 0 { d } else { Matrix::empty() },
    };
    let tmp = Tmp::new();
    let path = tmp.file("optical.json");
    std::fs::write(&path, serde_json::to_string(&info).unwrap()).unwrap();
    let mut o = SolarOptions::new();
    o.set_optical_data_path(path.to_string_lossy().to_string());
    let (lat, lon) = (s.f(-65., 65.).to_radians(), s.f(-175., 175.).to_radians());
    let mer = ((lon.to_degrees() / 15.).round() * 15.).to_radians();
    let meta = MetaOptions { latitude: lat, longitude: lon, standard_meridian: mer, elevation: 0. };
    let sm = SolarModel::new(&meta, o, &m, &mut h, 4)?;
    let ix = where_is(&h);
    let mut st: SimulationState = h.take_values().ok_or("no state")?;
    for i in 0..st.len() {
        st[i] = s.f(-10., 45.);
    }
    let solar = Solar::new(lat, -lon, -mer);
    sm.allocate_memory(&st)?;
    let mut date = Date { month: s.us(1, 12) as u8, day: s.us(1, 28) as u8, hour: s.f(0., 23.9) };
    s.note(|| format!("{} {:?} {:?}", j, meta, date));
    for _ in 0..3 {
        let c = conditions(s);
        let before: Vec<f64> = (0..st.len()).map(|i| st[i]).collect();
        sm.march(date, &Now(c), &m, &mut st, &mut ())?;
        let mut exp = before.clone();
        let ts = |t: f64| SIGMA * (t + 273.15).powi(4);
        let day = c.direct_normal_radiation + c.diffuse_horizontal_radiation >= 1e-4;
        let sky = if day {
            let mut c = c;
            c.date = date;
            column(&PerezSky::gen_sky_vec(mf, &solar, date, c, SkyUnits::Solar, 0.2, true, true)?)
        } else {
            vec![0.; bins]
        };
        if sky.iter().any(|x| !x.is_finite() || *x < 0.) {
            return Ok(());
        }
        s.nontrivial_if(sky.iter().sum::<f64>() > 0.);
        let hir = c.horizontal_infrared_radiation_intensity.unwrap_or_else(|| c.derive_horizontal_ir());
        let mut tol = vec![0.; st.len()];
        for (kind, list) in [("Surface", "surfaces"), ("Fenestration", "fenestrations")] {
            for (i, v) in j[list].as_array().unwrap().iter().enumerate() {
                if v["category"] == "Opening" {
                    continue;
                }
                for (side, key) in [("Front", "front_boundary"), ("Back", "back_boundary")] {
                    let at = ix[&format!("{}{}IRIrradiance({})", kind, side, i)];
                    let b = &v[key];
                    let (vf, dc) = match (kind, side) {
                        ("Surface", "Front") => (&info.front_surfaces_view_factors[i], &info.front_surfaces_dc),
                        ("Surface", _) => (&info.back_surfaces_view_factors[i], &info.back_surfaces_dc),
                        (_, "Front") => (&info.front_fenestrations_view_factors[i], &info.front_fenestrations_dc),
                        _ => (&info.back_fenestrations_view_factors[i], &info.back_fenestrations_dc),
                    };
                    match b["type"].as_str().unwrap() {
                        // No net radiation between a surface and its space
                        "Space" => {
                            let node = match (kind, side) {
                                (_, "Front") => format!("{}NodeTemperature({}, 0)", kind, i),
                                ("Surface", _) => format!("SurfaceNodeTemperature({}, 2)", i),
                                _ => format!("FenestrationNodeTemperature({}, 1)", i),
                            };
                            match ix.get(&node) {
                                Some(k) => exp[at] = ts(before[*k]),
                                None => exp[at] = st[at],
                            }
                        }
                        "AmbientTemperature" => exp[at] = ts(b["temperature"].as_f64().unwrap()),
                        "Outdoor" => exp[at] = (vf.ground + vf.air) * ts(c.dry_bulb_temperature) + vf.sky * hir,
                        _ => {}
                    }
                    tol[at] = 1e-6 * exp[at].abs();
                    let at = ix[&format!("{}{}SolarIrradiance({})", kind, side, i)];
                    if !day {
                        exp[at] = 0.;
                    } else {
                        let e: f64 = (0..bins).map(|k| dc.get(i, k).unwrap() * sky[k]).sum();
                        exp[at] = (e + before[at]) / 2.;
                        tol[at] = 1e-6 * (1. + e);
                        if !sun_or_not(b) {
                            // they have none
                            exp[at] = 0.;
                        }
                    }
                }
            }
        }
        for (k, i) in &ix {
            ensure!((st[*i] - exp[*i]).abs() <= tol[*i] + 1e-12 || (st[*i].is_nan() && exp[*i].is_nan()), "value", "{} is {} instead of {} (it was {}) on {:?}, {:?}; {}", k, st[*i], exp[*i], before[*i], date, c, j);
        }
        // The sun is where it should: east in the morning
        if day {
            let t = solar_altitude(lat, lon, mer, date);
            let mut only = c;
            only.date = date;
            if t.z > 0.1 && c.direct_normal_radiation > 450. && c.diffuse_horizontal_radiation < 6. {
                let r = ReinhartSky::new(mf);
                let best = (1..bins).max_by(|a, b| sky[*a].partial_cmp(&sky[*b]).unwrap()).unwrap();
                let far = (r.bin_dir(best) * t).clamp(-1., 1.).acos().to_degrees();
                ensure!(far < 30., "sun", "the brightest bin, {}, of the sky is {} degrees away from the sun on {:?} at {:?}", best, far, date, meta);
            }
        }
        date.hour += s.f(0.1, 1.) as f64;
        if date.hour >= 24. {
            date.hour -= 24.;
        }
    }
    Ok(())
}
/// Towards the sun (give or take some degrees): x is east, y is north
fn solar_altitude(lat: f64, lon_east: f64, mer_east: f64, d: Date) -> Vector3D {
    let n = (d.month as f64 - 1.) * 30.44 + d.day as f64;
    let dec = 23.45f64.to_radians() * (2. * PI * (284. + n) / 365.).sin();
    let hour = d.hour as f64 + (lon_east - mer_east).to_degrees() / 15.;
    let w = (hour - 12.) * PI / 12.;
    Vector3D::new(-dec.cos() * w.sin(), dec.sin() * lat.cos() - dec.cos() * w.cos() * lat.sin(), lat.sin() * dec.sin() + lat.cos() * dec.cos() * w.cos())
}
fn options(s: &mut Src, points: usize, rays: usize) -> (SolarOptions, usize) {
    let mut o = SolarOptions::new();
    let mf = *s.pick(&[1usize, 1, 2, 3]);
    o.set_n_solar_irradiance_points(points).set_solar_ambient_divitions(rays).set_solar_sky_discretization(mf);
    (o, mf)
}
fn cache(s: &mut Src) -> R {
    let j = small_model(s);
    let tmp = Tmp::new();
    let path = tmp.file("optical.json");
    let (mut o, mf) = options(s, 1, 20);
    o.set_optical_data_path(path.to_string_lossy().to_string());
    let meta = MetaOptions { latitude: -0.6, longitude: 2.9, standard_meridian: 3., elevation: 0. };
    s.note(|| j.to_string());
    let date = Date { month: s.us(1, 12) as u8, day: s.us(1, 28) as u8, hour: s.f(8., 16.) };
    let mut c = conditions(s);
    c.diffuse_horizontal_radiation += 20.;
    let run = || -> Result<Vec<(String, f64)>, Fail> {
        let (m, mut h) = Model::from_json(&j.to_string())?;
        states(&m, &mut h, true)?;
        let sm = SolarModel::new(&meta, o.clone(), &m, &mut h, 4)?;
        let names: Vec<String> = h.elements.iter().map(|e| format!("{:?}", e)).collect();
        let mut st = h.take_values().ok_or("no state")?;
        for i in 0..st.len() {
            st[i] = i as f64;
        }
        sm.march(date, &Now(c), &m, &mut st, &mut ())?;
        Ok(names.into_iter().enumerate().map(|(i, n)| (n, st[i])).collect())
    };
    let a = run()?;
    let text = std::fs::read_to_string(&path).map_err(|_| "the optical data was not stored")?;
    let info: OpticalInfo = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    for (size, k) in [(info.front_surfaces_dc.size(), "surfaces"), (info.back_surfaces_dc.size(), "surfaces"), (info.front_fenestrations_dc.size(), "fenestrations"), (info.back_fenestrations_dc.size(), "fenestrations")] {
        let n = j[k].as_array().unwrap().len();
        ensure!(n == 0 || size == (n, ReinhartSky::new(mf).n_bins), "size", "daylight coefficients of {:?}, in {}", size, j);
    }
    let b = run()?;
    ensure!(std::fs::read_to_string(&path).ok() == Some(text.clone()), "rewritten", "the optical data was written again");
    let mut used = 0;
    for (n, v) in &a {
        // (openings are given states when calculating, but not when reading)
        match b.iter().find(|x| x.0 == *n) {
            Some(x) => {
                used += 1;
                ensure!(close(x.1, *v, 1e-9, 1e-9) || n.starts_with("Fenestration") && (a.len() != b.len()), "differs", "{} was {}, but {} when reading what was stored; {}", n, v, x.1, j);
            }
            None => ensure!(n.starts_with("Fenestration"), "missing", "{} is missing when reading what was stored", n),
        }
    }
    s.nontrivial_if(used > 4);
    // files that are not right
    let what = s.us(0, 2);
    match what {
        0 => {
            let k = s.us(0, text.trim_end().len() - 1);
            std::fs::write(&path, &text[..k]).unwrap();
        }
        1 => std::fs::write(&path, "{}").unwrap(),
        _ => {
            std::fs::remove_file(&path).unwrap();
            std::fs::create_dir(&path).unwrap();
        }
    }
    let (m, mut h) = Model::from_json(&j.to_string())?;
    ensure!(SolarModel::new(&meta, o.clone(), &m, &mut h, 4).is_err(), "corrupt", "optical data that is not right ({}) is accepted", what);
    Ok(())
}
// ------------------------------------------------------------ an independent ray tracer
struct Wall {
    t: Triangle,
    /// colour and whether it is a mirror, for each side
    front: ([f64; 3], bool),
    back: ([f64; 3], bool),
}
fn first(walls: &[Wall], o: [f64; 3], d: [f64; 3]) -> Option<(usize, f64)> {
    let mut best: Option<(usize, f64)> = None;
    for (i, w) in walls.iter().enumerate() {
        if let Some(h) = hit(&w.t, o, d) {
            if h.margin >= 0. && h.t > 1e-5 && best.map_or(true, |b| h.t < b.1) {
                best = Some((i, h.t));
            }
        }
    }
    best
}
fn hemisphere(rng: &mut RandGen, n: [f64; 3]) -> [f64; 3] {
    // cosine weighted: a point of the sphere on top of the normal
    loop {
        let (a, b): (f64, f64) = rng.gen();
        let z = 2. * a - 1.;
        let r = (1. - z * z).max(0.).sqrt();
        let v = [n[0] + r * (2. * PI * b).cos(), n[1] + r * (2. * PI * b).sin(), n[2] + z];
        let l = len(v);
        if l > 1e-6 {
            return [v[0] / l, v[1] / l, v[2] / l];
        }
    }
}
/// The average, and the square, of what arrives from each bin
struct Sum {
    v: Vec<[f64; 3]>,
    v2: Vec<[f64; 3]>,
    n: Vec<[usize; 3]>,
    blocked: usize,
    below: usize,
}
fn trace(walls: &[Wall], o: [f64; 3], n: [f64; 3], samples: usize, depth: usize, sky: &ReinhartSky, rng: &mut RandGen) -> Sum {
    let mut ret = Sum { v: vec![[0.; 3]; sky.n_bins], v2: vec![[0.; 3]; sky.n_bins], n: vec![[0; 3]; sky.n_bins], blocked: 0, below: 0 };
    for _ in 0..samples {
        let mut d = hemisphere(rng, n);
        let mut p = o;
        let mut w = [PI; 3];
        let mut k = 0;
        loop {
            let Some((i, t)) = first(walls, p, d) else {
                if k == 0 && d[2] <= 0. {
                    ret.below += 1;
                }
                let b = sky.dir_to_bin(Vector3D::new(d[0], d[1], d[2]));
                for c in 0..3 {
                    ret.n[b][c] += (w[c] > 0.) as usize;
                    ret.v[b][c] += w[c] / samples as f64;
                    ret.v2[b][c] += (w[c] / samples as f64).powi(2);
                }
                break;
            };
            if k == 0 {
                ret.blocked += 1;
            }
            k += 1;
            if k > depth {
                break;
            }
            let tr = &walls[i].t;
            let mut nn = cross(sub([tr[3], tr[4], tr[5]], [tr[0], tr[1], tr[2]]), sub([tr[6], tr[7], tr[8]], [tr[0], tr[1], tr[2]]));
            let l = len(nn);
            nn = [nn[0] / l, nn[1] / l, nn[2] / l];
            let c = dot(nn, d);
            let side = if c < 0. { &walls[i].front } else { &walls[i].back };
            if c > 0. {
                nn = [-nn[0], -nn[1], -nn[2]];
            }
            p = [p[0] + t * d[0], p[1] + t * d[1], p[2] + t * d[2]];
            if side.1 {
                let c = dot(nn, d);
                d = [d[0] - 2. * c * nn[0], d[1] - 2. * c * nn[1], d[2] - 2. * c * nn[2]];
            } else {
                d = hemisphere(rng, nn);
            }
            for c in 0..3 {
                w[c] *= side.0[c];
            }
            // russian roulette
            let q = (1. - Spectrum(w).radiance()).max(0.);
            let u: f64 = rng.gen();
            if u < q {
                break;
            }
            for c in 0..3 {
                w[c] /= 1. - q;
            }
        }
    }
    ret
}
/// Compares two estimates, in groups of bins
fn agree(what: &dyn Fn() -> String, got: &dyn Fn(usize) -> [f64; 3], e: &Sum, ratio: f64, slack: f64) -> R {
    let n = e.v.len();
    let mut groups: Vec<(usize, usize)> = (0..n).map(|i| (i, i + 1)).collect();
    for k in 0..8 {
        groups.push((1 + k * (n - 1) / 8, 1 + (k + 1) * (n - 1) / 8));
    }
    groups.push((1, n));
    groups.push((0, n));
    for (a, b) in groups {
        for c in 0..3 {
            let count: usize = e.n[a..b].iter().map(|x| x[c]).sum();
            let g: f64 = (a..b).map(|i| got(i)[c]).sum();
            let v: f64 = (a..b).map(|i| e.v[i][c]).sum();
            let v2: f64 = (a..b).map(|i| e.v2[i][c]).sum();
            // few samples tell nothing, unless they are none
            if count < 150 {
                let limit = 600. * ratio.max(1.) * PI * e.v2[a..b].iter().map(|x| x[c]).sum::<f64>().sqrt().max(1e-3);
                ensure!(g >= 0. && g <= limit.max(2.), "bin", "{}: bins {} to {} gather {} instead of {}", what(), a, b, g, v);
                continue;
            }
            let sd = (v2 * (1. + ratio)).sqrt();
            ensure!((g - v).abs() < 7.5 * sd + slack, "bins", "{}: bins {} to {} gather {} instead of {} (+-{})", what(), a, b, g, v, sd);
        }
    }
    Ok(())
}
/// Things around the middle, where there are sensors
fn around(s: &mut Src, most: usize) -> Vec<(Point3D, Point3D, Point3D)> {
    if s.chance(1, 4) {
        let mut t = soup_of(s, false);
        t.truncate(most);
        return t;
    }
    let mut t = vec![];
    for _ in 0..s.us(1, 8) {
        let d = dir(s);
        let (dist, size) = (s.f(1.5, 5.), s.f(1., 6.));
        let n = if s.bool() { d } else { dir(s) };
        let v = rectangle(Point3D::new(0., 0., 0.) + d * dist, n, size, size);
        let p = |k: usize| Point3D::new(v[3 * k], v[3 * k + 1], v[3 * k + 2]);
        t.push((p(0), p(1), p(2)));
        if s.chance(4, 5) {
            t.push((p(0), p(2), p(3)));
        }
    }
    t
}
/// Sensors that are on a surface may see either of its sides
fn touches(r: &Ray3D, t: &[(Point3D, Point3D, Point3D)]) -> bool {
    t.iter().any(|(a, b, c)| {
        let n = (*b - *a).cross(*c - *a);
        let l = n.length();
        let o = r.origin;
        let inside = |f: fn(&Point3D) -> f64| f(&o) > f(a).min(f(b)).min(f(c)) - 0.01 && f(&o) < f(a).max(f(b)).max(f(c)) + 0.01;
        inside(|p| p.x) && inside(|p| p.y) && inside(|p| p.z) && (l < 1e-12 || ((o - *a) * n).abs() / l < 0.01)
    })
}
fn sensors(s: &mut Src, far: bool) -> Vec<Ray3D> {
    let r = if far && s.chance(1, 4) { 8. } else { 1. };
    (0..s.us(1, 3)).map(|_| Ray3D { origin: pt(s, r), direction: dir(s) }).collect()
}
fn dc(s: &mut Src) -> R {
    let t = around(s, 60);
    let mut scene = Scene::new();
    let n = s.us(1, 3);
    let mut mats = vec![];
    for _ in 0..n {
        let mut c = [s.f(0.2, 1.), s.f(0.2, 1.), s.f(0.2, 1.)];
        if s.chance(1, 4) {
            // pure colours
            c[s.us(0, 2)] = 0.;
        }
        let mirror = s.chance(1, 3);
        mats.push((c, mirror));
        scene.push_material(if mirror { Material::Mirror(Mirror(Spectrum(c))) } else { Material::Diffuse(Diffuse { colour: Spectrum(c) }) });
    }
    let mut walls = vec![];
    for (a, b, c) in &t {
        let (f, k) = (s.us(0, n - 1), s.us(0, n - 1));
        scene.push_object(f, k, Primitive::Triangle(Triangle3D::new(*a, *b, *c)?));
        walls.push(Wall { t: [a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z], front: mats[f], back: mats[k] });
    }
    scene.build_accelerator();
    let mf = *s.pick(&[1usize, 1, 2]);
    let (depth, samples) = (s.us(0, 4), 3000);
    let f = DCFactory { reinhart: ReinhartSky::new(mf), max_depth: depth, n_ambient_samples: samples };
    let rays = sensors(s, true);
    s.note(|| format!("{} triangles of {:?}, {} bounces, rays {:?}", t.len(), mats, depth, rays));
    if rays.iter().any(|r| touches(r, &t)) {
        return Ok(());
    }
    let m = f.calc_dc(&rays, &scene, None);
    let sky = ReinhartSky::new(mf);
    ensure!(m.size() == (rays.len(), sky.n_bins), "size", "{:?}", m.size());
    let mut g = SmallRng::seed_from_u64(s.us(0, 1 << 30) as u64);
    for (i, r) in rays.iter().enumerate() {
        let e = trace(&walls, arr(r.origin), crate::cast::arv(r.direction), samples, depth, &sky, &mut g);
        s.nontrivial_if(e.blocked > samples / 20);
        agree(&|| format!("{:?}", r), &|k| m.get(i, k).unwrap().0, &e, 1., 0.004 * PI)?;
        if e.blocked == 0 && t.is_empty() {
            let sum: f64 = (0..sky.n_bins).map(|k| m.get(i, k).unwrap().0[0]).sum();
            ensure!(close(sum, PI, 1e-6, 0.), "total", "{} arrives from everywhere", sum);
        }
    }
    Ok(())
}
fn white_box(s: &mut Src) -> R {
    // whatever is lost bouncing in a white place, it comes back later
    let t = around(s, 150);
    let mut scene = Scene::new();
    scene.push_material(Material::Diffuse(Diffuse { colour: Spectrum::ONE }));
    scene.push_material(Material::Mirror(Mirror(Spectrum::ONE)));
    for (a, b, c) in &t {
        let (f, k) = (s.us(0, 1), s.us(0, 1));
        scene.push_object(f, k, Primitive::Triangle(Triangle3D::new(*a, *b, *c)?));
    }
    scene.build_accelerator();
    let f = DCFactory { reinhart: ReinhartSky::new(1), max_depth: 100_000, n_ambient_samples: s.us(1, 60) };
    let rays = sensors(s, true);
    s.note(|| format!("{} triangles, {:?}", t.len(), rays));
    if rays.iter().any(|r| touches(r, &t)) {
        return Ok(());
    }
    let m = f.calc_dc(&rays, &scene, None);
    let mut aux = [0; 32];
    for (i, r) in rays.iter().enumerate() {
        s.nontrivial_if(scene.cast_ray(*r, &mut aux).is_some());
        let sum: f64 = (0..m.size().1).map(|k| m.get(i, k).unwrap().0[0]).sum();
        ensure!(close(sum, PI, 1e-3, 0.), "white", "{} arrives from everywhere, instead of pi, at {:?}", sum, r);
    }
    Ok(())
}
/// The area of the part of a polygon in which x*d.0 + y*d.1 > c
fn clipped(p: &[(f64, f64)], d: (f64, f64), c: f64) -> f64 {
    let mut out: Vec<(f64, f64)> = vec![];
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        let (ha, hb) = (a.0 * d.0 + a.1 * d.1 - c, b.0 * d.0 + b.1 * d.1 - c);
        if ha > 0. {
            out.push(a);
        }
        if (ha > 0.) != (hb > 0.) {
            let t = ha / (ha - hb);
            out.push((a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)));
        }
    }
    let mut area = 0.;
    for i in 0..out.len() {
        let (a, b) = (out[i], out[(i + 1) % out.len()]);
        area += (a.0 * b.1 - a.1 * b.0) / 2.;
    }
    area.abs()
}
/// A surface that is partly covered gets what arrives to the part that is not
fn spread(s: &mut Src) -> R {
    let n = s.us(4, 9);
    let long = s.f(1., 4.);
    let p: Vec<(f64, f64)> = if s.bool() {
        (0..n)
            .map(|i| {
                let a = 2. * PI * (i as f64 + s.f(-0.3, 0.3)) / n as f64;
                let r = s.f(2., 5.);
                (long * r * a.cos(), r * a.sin())
            })
            .collect()
    } else {
        // one of its corners is rounded
        let mut p = vec![(0., 3.), (-3. * long, 0.), (0., -3.)];
        let r = s.f(0.3, 1.);
        for i in 0..n {
            let a = PI * ((i as f64 + 0.5) / n as f64 - 0.5);
            p.push((3. * long + r * a.cos(), r * a.sin()));
        }
        p
    };
    let (normal, o) = (dir(s), pt(s, 10.));
    let (u, v) = frame(normal);
    let at = |x: f64, y: f64, z: f64| arr(o + u * x + v * y + normal * z);
    let is_fen = s.chance(1, 4);
    let mut j = empty();
    construction(&mut j, 0, 1., 1.);
    let out = json!({"type":"Outdoor"});
    let verts: Vec<f64> = p.iter().flat_map(|q| at(q.0, q.1, 0.)).collect();
    let mut x = json!({"name":"main","construction":"c0","vertices":verts,"front_boundary":out,"back_boundary":out});
    if is_fen {
        x["category"] = json!("Window");
    }
    push(&mut j, if is_fen { "fenestrations" } else { "surfaces" }, x);
    // a cover of half of the world, very near one of the sides
    let a = s.uniform(0., 2. * PI);
    let d = (a.cos(), a.sin());
    let (lo, hi) = p.iter().map(|q| q.0 * d.0 + q.1 * d.1).fold((f64::MAX, f64::MIN), |m, h| (m.0.min(h), m.1.max(h)));
    let c = lo + (hi - lo) * s.f(0.1, 0.9);
    let front = s.bool();
    let z = if front { 0.02 } else { -0.02 };
    let w = 400.;
    let cover: Vec<f64> = [(0., -w), (w, -w), (w, w), (0., w)].iter().flat_map(|q| at(d.0 * (c + q.0) - d.1 * q.1, d.1 * (c + q.0) + d.0 * q.1, z)).collect();
    push(&mut j, "surfaces", json!({"name":"cover","construction":"c0","vertices":cover,"front_boundary":out,"back_boundary":out}));
    let e = clipped(&p, d, c) / clipped(&p, d, lo - 1.);
    s.nontrivial_if(e > 0.02 && e < 0.98);
    s.note(|| format!("{} of {}", e, j));
    let (m, mut h) = Model::from_json(&j.to_string())?;
    let points = 200;
    let (o, mf) = options(s, points, 20);
    let info = OpticalInfo::new(&o, &m, &mut h)?;
    let bins = ReinhartSky::new(mf).n_bins;
    let tol = 7. * ((e * (1. - e)).max(0.01) / points as f64).sqrt() + 0.02;
    for side in [true, false] {
        let e = if side == front { e } else { 0. };
        let (vf, mat) = match (is_fen, side) {
            (false, true) => (&info.front_surfaces_view_factors, &info.front_surfaces_dc),
            (false, false) => (&info.back_surfaces_view_factors, &info.back_surfaces_dc),
            (true, true) => (&info.front_fenestrations_view_factors, &info.front_fenestrations_dc),
            _ => (&info.back_fenestrations_view_factors, &info.back_fenestrations_dc),
        };
        let v = &vf[0];
        let seen = v.sky.max(0.).powf(2. / 3.) + v.ground;
        ensure!((seen - (1. - e)).abs() < tol, "seen", "{} of the {} is covered, but its points see {} of what is around: {}", e, if side { "front" } else { "back" }, seen, j);
        let sum: f64 = (0..bins).map(|k| mat.get(0, k).unwrap()).sum::<f64>() / PI;
        ensure!((sum - (1. - e)).abs() < tol, "light", "{} of the {} is covered, but it gets {} of the light: {}", e, if side { "front" } else { "back" }, sum, j);
    }
    Ok(())
}
fn exposure(s: &mut Src) -> R {
    let mut j = empty();
    let nc = s.us(1, 3);
    let mut cons = vec![];
    for i in 0..nc {
        let (a, b) = (s.f(0., 1.), s.f(0., 1.));
        construction(&mut j, i, a, b);
        cons.push((1. - a, 1. - b));
    }
    let nr = s.us(1, 2);
    let fen = s.chance(1, 3);
    let nb = s.us(0, 4);
    let mut recs = vec![];
    let mut walls = vec![];
    let mut add = |v: &[f64], c: usize| {
        let p = |k: usize| [v[3 * k], v[3 * k + 1], v[3 * k + 2]];
        for (a, b, d) in [(p(0), p(1), p(2)), (p(0), p(2), p(3))] {
            let t = [a[0], a[1], a[2], b[0], b[1], b[2], d[0], d[1], d[2]];
            walls.push(Wall { t, front: ([cons[c].0; 3], false), back: ([cons[c].1; 3], false) });
        }
    };
    for i in 0..nr {
        // a small one, near the middle
        let o = Point3D::new(s.f(-0.2, 0.2), s.f(-0.2, 0.2), 2. + i as f64 * 0.4);
        let n = if s.bool() { dir(s) } else { *s.pick(&[Vector3D::new(0., 0., 1.), Vector3D::new(1., 0., 0.), Vector3D::new(0., -1., 0.), Vector3D::new(0., 0., -1.)]) };
        let v = rectangle(o, n, 0.01, 0.02);
        let c = s.us(0, nc - 1);
        let (f, b) = (boundary(s), boundary(s));
        let is_fen = fen && i == 0;
        let mut x = json!({"name":format!("r{}", i),"construction":format!("c{}", c),"vertices":v,"front_boundary":f,"back_boundary":b});
        if is_fen {
            x["category"] = json!(*s.pick(&["Window", "Door"]));
        }
        let list = if is_fen { "fenestrations" } else { "surfaces" };
        recs.push((is_fen, j[list].as_array().unwrap().len(), o, n, f, b));
        push(&mut j, list, x);
        add(&v, c);
    }
    for i in 0..nb {
        let d = dir(s);
        let dist = s.f(1.5, 5.);
        let n = dir(s);
        let v = rectangle(Point3D::new(0., 0., 2.2) + d * dist, n, s.f(0.4, 2.), s.f(0.4, 2.));
        let c = s.us(0, nc - 1);
        push(&mut j, "surfaces", json!({"name":format!("b{}", i),"construction":format!("c{}", c),"vertices":v,"front_boundary":{"type":"Outdoor"},"back_boundary":{"type":"Outdoor"}}));
        add(&v, c);
    }
    s.note(|| j.to_string());
    s.nontrivial_if(nb > 0);
    let (m, mut h) = Model::from_json(&j.to_string())?;
    let (points, rays) = (4, 1500);
    let (o, mf) = options(s, points, rays);
    let info = OpticalInfo::new(&o, &m, &mut h)?;
    let sky = ReinhartSky::new(mf);
    let (ns, nf) = (m.surfaces.len(), m.fenestrations.len());
    ensure!(info.front_surfaces_view_factors.len() == ns && info.back_surfaces_view_factors.len() == ns && info.front_fenestrations_view_factors.len() == nf && info.back_fenestrations_view_factors.len() == nf, "length", "{}", j);
    for v in info.front_surfaces_view_factors.iter().chain(&info.back_surfaces_view_factors).chain(&info.front_fenestrations_view_factors).chain(&info.back_fenestrations_view_factors) {
        ensure!(close(v.sky + v.ground + v.air, 1., 0., 1e-9) && v.sky >= 0. && v.ground >= 0. && v.air >= -1e-12, "total", "{:?} is not everything: {}", v, j);
    }
    let mut g = SmallRng::seed_from_u64(s.us(0, 1 << 30) as u64);
    let samples = 6000;
    for (is_fen, i, p, n, fb, bb) in &recs {
        for front in [true, false] {
            let nn = if front { *n } else { *n * -1. };
            let from = *p + nn * 0.001;
            let e = trace(&walls, arr(from), crate::cast::arv(nn), samples, 1, &sky, &mut g);
            let (vf, mat, b) = match (*is_fen, front) {
                (false, true) => (&info.front_surfaces_view_factors, &info.front_surfaces_dc, fb),
                (false, false) => (&info.back_surfaces_view_factors, &info.back_surfaces_dc, bb),
                (true, true) => (&info.front_fenestrations_view_factors, &info.front_fenestrations_dc, fb),
                _ => (&info.back_fenestrations_view_factors, &info.back_fenestrations_dc, bb),
            };
            let what = || format!("{} of {} {} in {}", if front { "front" } else { "back" }, if *is_fen { "fenestration" } else { "surface" }, i, j);
            // a part of the sky counts as air
            let (fb_, fg) = (e.blocked as f64 / samples as f64, e.below as f64 / samples as f64);
            let fs = 1. - fb_ - fg;
            let sd = 7. * (0.25 / samples as f64).sqrt() * 1.2 + 0.012;
            let v = &vf[*i];
            ensure!((v.ground - fg).abs() < sd, "ground", "{}: {:?}, but the view of the ground is {}", what(), v, fg);
            let got_sky = v.sky.max(0.).powf(2. / 3.);
            ensure!((got_sky - fs).abs() < sd * if fs < 0.1 { 2. } else { 1. }, "sky", "{}: {:?}, but the view of the sky is {} (and of obstructions, {})", what(), v, fs, fb_);
            ensure!(mat.size() == (if *is_fen { nf } else { ns }, sky.n_bins), "size", "{:?}", mat.size());
            let row: Vec<f64> = (0..sky.n_bins).map(|k| mat.get(*i, k).unwrap()).collect();
            if !sun_or_not(b) {
                ensure!(row.iter().all(|x| *x == 0.), "sun", "{} receives sun", what());
            } else {
                agree(&what, &|k| [row[k]; 3], &e, samples as f64 / (points * rays) as f64, 0.02 * PI)?;
            }
        }
    }
    Ok(())
}
pub fn r06() -> Property {
    Property {
        id: "R06",
        facets: vec![
            Facet::new("marching", marching, 3000, 300_000, "there is sun or sky"),
            Facet::new("cache", cache, 40, 2000, "surfaces with states"),
            Facet::new("exposure", exposure, 60, 3000, "obstructions"),
            Facet::new("spread", spread, 12, 1000, "a part is covered"),
        ],
        assumptions: vec!["moments in which the sky is not finite (the sun exactly on the horizon) are skipped", "exposures are compared within 7 standard deviations plus 2%"],
    }
}
pub fn r07() -> Property {
    Property {
        id: "R07",
        facets: vec![Facet::new("dc", dc, 60, 50_000, "obstructions cover 5% of what is seen"), Facet::new("white", white_box, 200, 100_000, "something in front of the sensor")],
        assumptions: vec!["coefficients are compared within 7.5 standard deviations"],
    }
}
