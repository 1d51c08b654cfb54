//! P09 infiltration
use ::weather::{CurrentWeather, WeatherTrait};
use air::air_model::AirFlowModel;
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use fw::*;
use model::{Model, SimulationStateElement as E};
use serde_json::{json, Map, Value};

pub const META: MetaOptions = MetaOptions { latitude: 0., longitude: 0., standard_meridian: 0., elevation: 0. };

/// A weather that gives a known answer for every moment
pub struct Wx {
    pub lines: Vec<(Date, CurrentWeather)>,
}
impl WeatherTrait for Wx {
    fn get_weather_data(&self, date: Date) -> CurrentWeather {
        let mut best = 0;
        let k = |d: &Date| (d.month as f64 * 31. + d.day as f64) * 24. + d.hour as f64;
        for i in 0..self.lines.len() {
            if (k(&self.lines[i].0) - k(&date)).abs() < (k(&self.lines[best].0) - k(&date)).abs() {
                best = i
            }
        }
        let mut c = self.lines[best].1;
        c.date = date;
        c
    }
}
pub fn conditions(s: &mut Src) -> CurrentWeather {
    let t = s.f(-35., 48.);
    let mut c = CurrentWeather::default();
    c.dry_bulb_temperature = t;
    c.dew_point_temperature = t - s.f(0., 15.);
    c.wind_speed = if s.chance(1, 6) { 0. } else { s.f(0., 20.) };
    c.wind_direction = s.f(0., 6.283);
    c.horizontal_infrared_radiation_intensity = Some(s.f(150., 480.));
    c.opaque_sky_cover = s.f(0., 10.);
    c.relative_humidity = s.f(0., 1.);
    c.pressure = 101325.;
    c
}
const TERRAIN: [(&str, f64, f64); 5] = [("Country", 0.14, 270.), ("Suburbs", 0.22, 370.), ("City", 0.33, 460.), ("Ocean", 0.10, 210.), ("Urban", 0.22, 370.)];
pub fn wind_profile(terrain: Option<&str>, z: f64) -> Option<f64> {
    if z <= 0. {
        return Some(0.);
    }
    let t = TERRAIN.iter().find(|x| x.0 == terrain.unwrap_or("Urban"))?;
    Some(27f64.powf(0.14) * (z / t.2).powf(t.1))
}
/// One storey, two, three or more
const CW: [(&str, [f64; 3]); 5] = [
    ("NoObstructions", [0.000319, 0.000420, 0.000494]),
    ("IsolatedRural", [0.000246, 0.000325, 0.000382]),
    ("Urban", [0.0001725, 0.000231, 0.000271]),
    ("LargeLotUrban", [0.000104, 0.000137, 0.000161]),
    ("SmallLotUrban", [0.000032, 0.000042, 0.000049]),
];

/// The building's coefficients, if there is enough information
fn coefficients(b: &Map<String, Value>) -> Option<(f64, f64)> {
    let n = b.get("n_storeys").and_then(|x| x.as_u64());
    let cs = match b.get("stack_coefficient") {
        Some(v) => v.as_f64()?,
        None => 0.000145 * n?.min(3) as f64,
    };
    let cw = match b.get("wind_coefficient") {
        Some(v) => v.as_f64()?,
        None => {
            let n = n?.min(3) as usize;
            let c = b.get("shelter_class")?.as_str()?;
            CW.iter().find(|x| x.0 == c)?.1[n - 1]
        }
    };
    Some((cs, cw))
}

struct Sp {
    inf: Option<Value>,
    building: Option<usize>,
}
fn gen(s: &mut Src, complete: bool) -> (Value, Vec<Sp>, Vec<Map<String, Value>>, Option<String>) {
    let mut buildings = vec![];
    for i in 0..s.few(1, 3, 20) {
        let mut m = Map::new();
        m.insert("name".into(), json!(format!("b{}", i)));
        let full = complete || s.bool();
        if full || s.bool() {
            m.insert("n_storeys".into(), json!(s.us(1, 6)));
        }
        if full || s.bool() {
            m.insert("shelter_class".into(), json!(*s.pick(&["NoObstructions", "IsolatedRural", "Urban", "LargeLotUrban", "SmallLotUrban"])));
        }
        if s.chance(1, 3) {
            m.insert("stack_coefficient".into(), json!(s.f(0., 0.001)));
        }
        if s.chance(1, 3) {
            m.insert("wind_coefficient".into(), json!(s.f(0., 0.001)));
        }
        buildings.push(m);
    }
    let mut spaces = vec![];
    let mut js = vec![];
    for i in 0..s.few(1, 4, 20) {
        let mut m = Map::new();
        m.insert("name".into(), json!(format!("s{}", i)));
        m.insert("volume".into(), json!(s.f(1., 300.)));
        let inf = match s.us(0, 6) {
            0 => Some(json!({"type":"Constant","flow":s.f(0.,2.)})),
            1 => Some(json!({"type":"Blast","flow":s.f(0.,2.)})),
            2 => Some(json!({"type":"Doe2","flow":s.f(0.,2.)})),
            3 => {
                let v: Vec<f64> = (0..5).map(|_| s.f(0., 1.)).collect();
                Some(json!({"type":"DesignFlowRate","a":v[0],"b":v[1],"c":v[2],"d":v[3],"phi":v[4]}))
            }
            4 | 5 => Some(json!({"type":"EffectiveAirLeakageArea","area":s.f(0.,1.)})),
            _ => None,
        };
        if let Some(v) = &inf {
            m.insert("infiltration".into(), v.clone());
        }
        let building = if complete || s.bool() { Some(s.us(0, buildings.len() - 1)) } else { None };
        if let Some(b) = building {
            m.insert("building".into(), json!(format!("b{}", b)));
        }
        spaces.push(Sp { inf, building });
        js.push(Value::Object(m));
    }
    let terrain = if s.bool() { Some(s.pick(&TERRAIN).0.to_string()) } else { None };
    let mut j = json!({"buildings": buildings, "spaces": js});
    if let Some(t) = &terrain {
        j["site_details"] = json!({"terrain": t});
    } else if s.bool() {
        j["site_details"] = json!({"altitude": 10.});
    }
    (j, spaces, buildings, terrain)
}

fn infiltration(s: &mut Src) -> R {
    let complete = s.chance(3, 4);
    let (j, spaces, buildings, terrain) = gen(s, complete);
    s.note(|| j.to_string());
    let (m, mut h) = Model::from_json(&j.to_string())?;
    let unresolved = spaces.iter().any(|x| x.inf.as_ref().map_or(false, |v| v["type"] == "EffectiveAirLeakageArea") && x.building.map_or(true, |b| coefficients(&buildings[b]).is_none()));
    let air = AirFlowModel::new(&META, (), &m, &mut h, 4);
    if unresolved {
        ensure!(air.is_err(), "incomplete", "a leakage area is accepted without the building data it needs\n{}", j);
        s.nontrivial();
        return Ok(());
    }
    let air = air?;
    for (i, sp) in m.spaces.iter().enumerate() {
        let k = h.push(E::SpaceDryBulbTemperature(i), 0.)?;
        sp.set_dry_bulb_temperature_index(k)?;
    }
    let mut st = h.take_values().ok_or("no state")?;
    let dates: Vec<Date> = (0..s.few(1, 3, 20)).map(|i| Date { month: 2, day: 3 + i as u8, hour: 4. }).collect();
    let wx = Wx { lines: dates.iter().map(|d| (*d, conditions(s))).collect() };
    let mut kinds = 0;
    for (d, c) in &wx.lines {
        let temps: Vec<f64> = spaces.iter().map(|_| s.f(-10., 45.)).collect();
        for (i, sp) in m.spaces.iter().enumerate() {
            sp.set_dry_bulb_temperature(&mut st, temps[i])?;
        }
        let before = st.clone();
        air.march(*d, &wx, &m, &mut st, &mut ())?;
        let mut known = before.clone();
        for (i, sp) in m.spaces.iter().enumerate() {
            let (vol, tem) = (sp.infiltration_volume(&st), sp.infiltration_temperature(&st));
            let inf = match &spaces[i].inf {
                None => continue,
                Some(v) => v,
            };
            let g = |k: &str| inf[k].as_f64().unwrap();
            let dt = (temps[i] - c.dry_bulb_temperature).abs();
            let w = match wind_profile(terrain.as_deref(), 1.) {
                Some(f) => c.wind_speed * f,
                None => return Err("terrain".into()),
            };
            let design = |a: f64, b: f64, cc: f64, d: f64| a + b * dt + cc * w + d * w * w;
            let mut tol = 1e-9;
            let want = match inf["type"].as_str().unwrap() {
                "Constant" => g("flow"),
                "Blast" => g("flow") * design(0.606, 0.03636, 0.1177, 0.),
                "Doe2" => g("flow") * design(0., 0., 0.224, 0.),
                "DesignFlowRate" => g("phi") * design(g("a"), g("b"), g("c"), g("d")),
                _ => {
                    let (cs, cw) = coefficients(&buildings[spaces[i].building.unwrap()]).unwrap();
                    tol = 3e-3; // the tables are published with three digits (0.000172 or 0.000173)
                    g("area") * 10. * (cs * dt + cw * c.wind_speed * c.wind_speed).sqrt()
                }
            };
            kinds += 1;
            let (vol, tem) = (vol.ok_or("no volume")?, tem.ok_or("no temperature")?);
            ensure!(close(vol, want, tol, 1e-12), "flow", "space {} ({}) gets {} m3/s of infiltration, not {} (space {} C, outdoors {:?})\n{}", i, inf, vol, want, temps[i], c, j);
            ensure!(tem == c.dry_bulb_temperature, "temperature", "the infiltration of space {} comes at {} C, not {}", i, tem, c.dry_bulb_temperature);
            sp.set_infiltration_volume(&mut known, vol)?;
            sp.set_infiltration_temperature(&mut known, tem)?;
        }
        ensure!(known.iter().zip(st.iter()).all(|(a, b)| a == b), "side_effect", "the air flow changed something else: {:?} -> {:?}\n{}", before, st, j);
    }
    s.nontrivial_if(kinds >= 2);
    Ok(())
}
/// The wind gets faster with height, and slower with roughness
fn wind(s: &mut Src) -> R {
    let z = if s.chance(1, 10) { 0. } else { s.logf(0.01, 600.) };
    let t = s.pick(&TERRAIN).0;
    let given = s.chance(4, 5);
    let j = if given { json!({"site_details":{"terrain":t}}) } else { json!({"site_details":{"altitude":3.}}) };
    let (m, _) = Model::from_json(&j.to_string())?;
    let d = m.site_details.clone().ok_or("no site details")?;
    let got = d.wind_speed_modifier(z);
    s.nontrivial_if(z > 0.);
    s.note(|| format!("{} {}", j, z));
    if let Some(want) = wind_profile(if given { Some(t) } else { None }, z) {
        ensure!(close(got, want, 1e-9, 1e-12), "profile", "{}: wind at {} m is multiplied by {}, not {}", j, z, got, want);
    }
    let z2 = z + s.logf(0.01, 100.);
    ensure!(d.wind_speed_modifier(z2) > got, "monotone", "{}: the wind is not faster at {} m than at {} m", j, z2, z);
    Ok(())
}

pub fn p09() -> Property {
    Property {
        id: "P09",
        facets: vec![
            Facet::new("infiltration", infiltration, 6000, 400000, "two or more spaces with infiltration, or missing data that has to be refused"),
            Facet::new("wind", wind, 4000, 200000, "above the ground"),
        ],
        assumptions: vec![
            "the wind speed at 1 m above the ground is the one that drives design flow rates, the weather station's the one that drives leakage areas".into(),
            "no difference is made between 0.000172 and 0.000173, which are both published for the wind coefficient of one-storey buildings in shelter class 3".into(),
        ],
    }
}
