//! R08 whole simulations and their reports; R09 controllers
use crate::geom::{dir, pt};
use crate::images::Tmp;
use crate::light::{empty, push, random_dc, random_vf, rectangle};
use ::weather::{CurrentWeather, EPWWeather, ReinhartSky, Weather};
use air::air_model::AirFlowModel;
use calendar::{Date, Period};
use communication::{MetaOptions, SimulationModel};
use fw::*;
use heat::heat_model::ThermalModel;
use light::{OpticalInfo, SolarModel};
use matrix::Matrix;
use model::{Model, Output, SimulationState, SimulationStateElement as E, SimulationStateHeader};
use serde_json::{json, Value};
use simple::control_trait::SimpleControl;
use simple::run_simulation::{run, run_rhai, SimOptions};
use simple::{MultiphysicsModel, OccupantBehaviour, RhaiControlScript, VoidControl};
use std::sync::Arc;

const LEN: [usize; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
/// Seconds since the year started
fn seconds(month: usize, day: usize, s: usize) -> usize {
    (LEN[..month - 1].iter().sum::<usize>() + day - 1) * 86400 + s
}
fn date_of(s: usize) -> Date {
    let s = s % (365 * 86400);
    let (mut d, h) = (s / 86400, s % 86400);
    let mut m = 0;
    while d >= LEN[m] {
        d -= LEN[m];
        m += 1;
    }
    Date { month: m as u8 + 1, day: d as u8 + 1, hour: h as f64 / 3600. }
}
/// A device: space, type, heating, cooling
#[derive(Clone, Debug)]
pub struct Device {
    space: Option<usize>,
    cools: bool,
    heating: (Option<f64>, Option<f64>),
    cooling: (Option<f64>, Option<f64>),
}
impl Device {
    /// The power with which it works
    fn power(&self, t: f64, now: f64) -> f64 {
        let mut p = now;
        if self.space.is_none() {
            return now;
        }
        let heat = if let (Some(s), Some(w)) = self.heating { Some((s, w)) } else { None };
        let cool = if let (true, (Some(s), Some(w))) = (self.cools, self.cooling) { Some((s, w)) } else { None };
        if heat.is_some() || cool.is_some() {
            p = 0.;
        }
        if let Some((s, w)) = heat {
            if t < s {
                p = w;
            }
        }
        if let Some((s, w)) = cool {
            if t > s {
                p = -w;
            }
        }
        p
    }
    fn script(&self, name: &str, spaces: &dyn Fn(usize) -> String) -> String {
        let Some(k) = self.space else { return String::new() };
        let mut t = format!("{{ let h = hvac({}); let t = {}.dry_bulb_temperature;\n", name, spaces(k));
        let mut any = false;
        if let (Some(s), Some(w)) = self.heating {
            t += &format!("if t < {:?} {{ h.power_consumption = {:?}; }} else {{ h.power_consumption = 0; }}\n", s, w);
            any = true;
        }
        if let (true, (Some(s), Some(w))) = (self.cools, self.cooling) {
            t += &format!("if t > {:?} {{ h.power_consumption = -{:?}; }}", s, w);
            if !any {
                t += "else { h.power_consumption = 0.0; }";
            }
        }
        t + "}\n"
    }
}
fn device(s: &mut Src, spaces: usize, always: bool) -> Device {
    // (numbers that are read exactly)
    let opt = |s: &mut Src, lo: i64, hi: i64| if s.chance(5, 6) { Some(s.int(lo * 64, hi * 64) as f64 / 64.) } else { None };
    let heating = (opt(s, 5, 22), opt(s, 10, 800));
    let cooling = (opt(s, 22, 30), opt(s, 10, 800));
    let space = if always || s.chance(7, 8) { Some(s.us(0, spaces - 1)) } else { None };
    Device { space, cools: s.bool(), heating, cooling }
}
fn device_json(d: &Device, name: &str) -> Value {
    let mut v = json!({"type":if d.cools { "IdealHeaterCooler" } else { "ElectricHeater" },"name":name});
    if let Some(k) = d.space {
        v["target_space"] = json!(format!("s{}", k));
    }
    let mut set = |k: &str, x: Option<f64>| {
        if let Some(x) = x {
            v[k] = json!(x);
        }
    };
    set("heating_setpoint", d.heating.0);
    set("max_heating_power", d.heating.1);
    if d.cools {
        set("cooling_setpoint", d.cooling.0);
        set("max_cooling_power", d.cooling.1);
    }
    v
}
pub struct World {
    pub j: Value,
    pub devices: Vec<Device>,
    pub spaces: usize,
}
fn boundary(s: &mut Src, spaces: usize) -> Value {
    match s.us(0, 6) {
        0 => json!({"type":"AmbientTemperature","temperature":s.f(0., 30.)}),
        1..=3 => json!({"type":"Space","space":format!("s{}", s.us(0, spaces - 1))}),
        _ => json!({"type":"Outdoor"}),
    }
}
/// Buildings that behave well
pub fn building(s: &mut Src, complete: bool) -> World {
    let mut j = empty();
    let o = j.as_object_mut().unwrap();
    o.insert("objects".into(), json!([]));
    o.insert("outputs".into(), json!([]));
    j["spaces"] = json!([]);
    let spaces = s.few(1, 3, 9);
    for i in 0..spaces {
        let mut v = json!({"name":format!("s{}", i),"volume":s.f(20., 200.)});
        if s.chance(2, 3) {
            v["infiltration"] = if s.bool() { json!({"type":"Constant","flow":s.f(0., 0.05)}) } else { json!({"type":"Blast","flow":s.f(0., 0.02)}) };
        }
        push(&mut j, "spaces", v);
    }
    push(&mut j, "substances", json!({"type":"Normal","name":"concrete","thermal_conductivity":1.63,"density":2400.,"specific_heat_capacity":900.,"front_solar_absorbtance":0.6,"back_solar_absorbtance":0.5,"front_thermal_absorbtance":0.9,"back_thermal_absorbtance":0.8}));
    push(&mut j, "substances", json!({"type":"Normal","name":"wool","thermal_conductivity":0.04,"density":30.,"specific_heat_capacity":1000.,"front_thermal_absorbtance":0.9,"back_thermal_absorbtance":0.9}));
    push(&mut j, "materials", json!({"name":"slab","substance":"concrete","thickness":s.f(0.05, 0.25)}));
    push(&mut j, "materials", json!({"name":"batts","substance":"wool","thickness":s.f(0.02, 0.1)}));
    let lists = [json!(["slab"]), json!(["slab", "batts"]), json!(["batts", "slab"]), json!(["slab", "batts", "slab"])];
    for i in 0..2 {
        let l = s.pick(&lists).clone();
        push(&mut j, "constructions", json!({"name":format!("c{}", i),"materials":l}));
    }
    for i in 0..s.few(0, 4, 12) {
        let (p, n) = (pt(s, 10.), dir(s));
        let (w, h) = (s.f(1., 5.), s.f(1., 3.));
        let (f, b) = (boundary(s, spaces), boundary(s, spaces));
        let c = format!("c{}", s.us(0, 1));
        push(&mut j, "surfaces", json!({"name":format!("w{}", i),"construction":c,"vertices":rectangle(p, n, w, h),"front_boundary":f,"back_boundary":b}));
    }
    for i in 0..s.us(0, 2) {
        let (p, n) = (pt(s, 10.), dir(s));
        let (f, b) = (boundary(s, spaces), boundary(s, spaces));
        let c = format!("c{}", s.us(0, 1));
        let cat = *s.pick(&["Window", "Door"]);
        let mut v = json!({"name":format!("f{}", i),"construction":c,"vertices":rectangle(p, n, 1., 1.),"front_boundary":f,"back_boundary":b,"category":cat});
        if s.bool() {
            v["operation"] = json!({"type":"Continuous"});
        }
        push(&mut j, "fenestrations", v);
    }
    let mut devices = vec![];
    for i in 0..s.few(0, 3, 12) {
        let d = device(s, spaces, complete);
        push(&mut j, "hvacs", device_json(&d, &format!("h{}", i)));
        devices.push(d);
    }
    for i in 0..s.us(0, 2) {
        push(&mut j, "luminaires", json!({"name":format!("l{}", i),"target_space":format!("s{}", s.us(0, spaces - 1))}));
    }
    if s.bool() {
        j["site_details"] = json!({"terrain":*s.pick(&["Country", "Suburbs", "City", "Ocean", "Urban"])});
    }
    World { j, devices, spaces }
}
/// Whatever would have taken long to calculate
pub fn optics(s: &mut Src, j: &Value, mf: usize) -> OpticalInfo {
    let bins = ReinhartSky::new(mf).n_bins;
    let yes = |k: &str, side: &str| -> Vec<bool> { j[k].as_array().unwrap().iter().map(|x| x[side]["type"] == "Space" || x[side]["type"] == "Outdoor").collect() };
    let (a, b) = (yes("surfaces", "front_boundary"), yes("surfaces", "back_boundary"));
    let (c, d) = (yes("fenestrations", "front_boundary"), yes("fenestrations", "back_boundary"));
    let mut make = |v: &[bool]| if v.is_empty() { Matrix::empty() } else { random_dc(s, v, bins) };
    let (ma, mb, mc, md) = (make(&a), make(&b), make(&c), make(&d));
    OpticalInfo {
        front_surfaces_view_factors: random_vf(s, a.len()),
        back_surfaces_view_factors: random_vf(s, a.len()),
        front_fenestrations_view_factors: random_vf(s, c.len()),
        back_fenestrations_view_factors: random_vf(s, c.len()),
        front_surfaces_dc: ma,
        back_surfaces_dc: mb,
        front_fenestrations_dc: mc,
        back_fenestrations_dc: md,
    }
}
pub struct Wx {
    pub start: usize,
    pub end: usize,
    pub json: Value,
    pub epw: String,
}
pub fn weather(s: &mut Src) -> Wx {
    let n = s.us(2, 40);
    let (m, d) = (s.us(1, 12), s.us(1, 28));
    let start = seconds(m, d, 3600 * s.us(0, 22));
    let (lat, lon) = (s.f(-60., 60.), s.f(-170., 170.));
    let tz = (lon / 15.).round();
    let elev = s.f(0., 1000.);
    let mut data = vec![];
    let mut epw = format!("LOCATION,Here,-,XXX,IWEC,999999,{},{},{},{}\n", lat, lon, tz, elev);
    epw += "DESIGN CONDITIONS,0\nTYPICAL/EXTREME PERIODS,0\nGROUND TEMPERATURES,0\nHOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0\nCOMMENTS 1,\nCOMMENTS 2,\nDATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31\n";
    let base = s.f(0., 25.);
    for i in 0..n {
        let at = date_of(start + 3600 * i);
        let t = base + s.f(-5., 5.);
        let day = at.hour >= 8. && at.hour <= 16.;
        let (dn, df) = if day { (s.f(0., 800.), s.f(0., 300.)) } else { (0., 0.) };
        let (ir, ws, wd, cover) = (s.f(200., 420.), s.f(0., 12.), s.f(0., 359.), s.us(0, 10));
        data.push(json!({"date":{"month":at.month,"day":at.day,"hour":at.hour},"dry_bulb_temperature":t,"dew_point_temperature":t - 4.,"global_horizontal_radiation":0.,"direct_normal_radiation":dn,"diffuse_horizontal_radiation":df,"wind_speed":ws,"wind_direction":(wd as f64).to_radians(),"horizontal_infrared_radiation_intensity":ir,"opaque_sky_cover":cover as f64,"relative_humidity":0.5,"pressure":101325.}));
        epw += &format!("2002,{},{},{},0,?9,{},{},50,101325,0,0,{},0,{},{},0,0,0,0,{},{},{},{},9999,99999,9,999999999,0,0.0,0,0,0.0,0,0\n", at.month, at.day, at.hour as usize + 1, t, t - 4., ir, dn, df, wd, ws, cover, cover);
    }
    let json = json!({"data":data,"location":{"city":"Here","state":"-","country":"XXX","source":"IWEC","wmo":"999999","latitude":(lat as f64).to_radians(),"longitude":(lon as f64).to_radians(),"timezone":tz as i64,"elevation":elev}});
    Wx { start, end: start + 3600 * (n - 1), json, epw }
}
/// Takes just some bytes at a time
struct Slow<'a> {
    out: &'a mut Vec<u8>,
    most: usize,
}
impl std::io::Write for Slow<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.most);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn name_of(h: &SimulationStateHeader, e: E) -> Option<usize> {
    h.elements.iter().position(|x| *x == e)
}
/// the same simulation, step by step, and without the controllers
struct Expected {
    names: Vec<String>,
    rows: Vec<(usize, Vec<f64>)>,
    err: bool,
}
fn by_hand(w: &World, weather: &Weather, from: usize, to: usize, n: usize, devices: Option<&[Device]>) -> Result<Expected, Fail> {
    let (m, mut h) = Model::from_json(&w.j.to_string())?;
    let l = &weather.location;
    let meta = MetaOptions { latitude: l.latitude, longitude: l.longitude, standard_meridian: (l.timezone as f64 * 15.).to_radians(), elevation: l.elevation };
    let thermal = ThermalModel::new(&meta, (), &m, &mut h, n)?;
    let air = AirFlowModel::new(&meta, (), &m, &mut h, n)?;
    let solar = SolarModel::new(&meta, m.solar_options.clone().unwrap(), &m, &mut h, n)?;
    let names = h.elements.iter().map(|e| e.stringify(&m)).collect();
    let power: Vec<usize> = (0..w.devices.len()).map(|i| name_of(&h, E::HeatingCoolingPowerConsumption(i)).unwrap()).collect();
    let temp: Vec<usize> = (0..w.spaces).map(|i| name_of(&h, E::SpaceDryBulbTemperature(i)).unwrap()).collect();
    let mut st = h.take_values().ok_or("no state")?;
    let mut mem = thermal.allocate_memory(&st)?;
    let mut rows = vec![];
    let dt = 3600. / n as f64;
    let mut err = false;
    // exactly the same moments: convection is sensitive to the smallest difference
    let mut last = weather.data[weather.data.len() - 1].date;
    if last.hour < 0.1 {
        last.add_days(364);
        last.hour += 24.;
    }
    last.hour -= 0.1;
    for (k, date) in Period::new(weather.data[0].date, last, dt).enumerate() {
        let at = from as f64 + dt * (k + 1) as f64;
        let off = date.day_of_year() * 86400. - (date_of(at as usize).day_of_year() * 86400. + at.fract());
        ensure!(off.abs() < 0.01 && at < to as f64 + 0.01, "period", "{:?} is not {} steps of {} s after {:?}", date, k + 1, dt, date_of(from));
        let at = if (at - at.round()).abs() < 1e-6 { at.round() } else { at };
        if let Some(d) = devices {
            for (i, d) in d.iter().enumerate() {
                let t = d.space.map_or(0., |x| st[temp[x]]);
                st[power[i]] = d.power(t, st[power[i]]);
            }
        }
        let all = solar.march(date, weather, &m, &mut st, &mut ()).and_then(|_| air.march(date, weather, &m, &mut st, &mut ())).and_then(|_| thermal.march(date, weather, &m, &mut st, &mut mem));
        if all.is_err() {
            err = true;
            break;
        }
        rows.push((at as usize, st.iter().cloned().collect()));
        // (a strong sun on the horizon gives a sky that nothing resists)
        if st.iter().any(|x| x.abs() > 1e5) {
            break;
        }
    }
    Ok(Expected { names, rows, err })
}
pub fn device_script(w: &World) -> String {
    let mut t = String::from("// this is a script\n");
    for (i, d) in w.devices.iter().enumerate() {
        t += &d.script(&i.to_string(), &|k| format!("space({})", k));
    }
    t
}
fn output(s: &mut Src, w: &World) -> (Value, bool) {
    // something that can be asked for, and whether it is there
    let nw = w.j["surfaces"].as_array().unwrap().len();
    let nf = w.j["fenestrations"].as_array().unwrap().len();
    let one = |k: &str, n: String| {
        let mut v = json!({});
        v[k] = json!(n);
        v
    };
    match s.us(0, 6) {
        0 => (one("SpaceDryBulbTemperature", format!("s{}", s.us(0, w.spaces - 1))), true),
        1 if nw > 0 => (one(*s.pick(&["SurfaceFrontSolarIrradiance", "SurfaceBackIRIrradiance", "SurfaceFrontConvectionCoefficient"]), format!("w{}", s.us(0, nw - 1))), true),
        2 if nf > 0 => (one(*s.pick(&["FenestrationBackSolarIrradiance", "FenestrationFrontIRIrradiance"]), format!("f{}", s.us(0, nf - 1))), true),
        3 if !w.devices.is_empty() => (one("HeatingCoolingPowerConsumption", format!("h{}", s.us(0, w.devices.len() - 1))), true),
        4 => (one("SpaceDryBulbTemperature", "nowhere".into()), false),
        5 => (one("SpaceVentilationVolume", "s0".into()), false),
        _ => (one("SpaceDryBulbTemperature", "s0".into()), true),
    }
}
fn closely(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 0.00051 + 1e-12 * b.abs()
}
fn simulation(s: &mut Src) -> R {
    let mut w = building(s, true);
    let tmp = Tmp::new();
    let path = tmp.file("optical.json");
    let mf = *s.pick(&[1usize, 1, 2]);
    w.j["solar_options"] = json!({"optical_data_path":path.to_string_lossy(),"solar_sky_discretization":mf});
    let o = optics(s, &w.j, mf);
    std::fs::write(&path, serde_json::to_string(&o).unwrap()).unwrap();
    // outputs
    let mut asked = vec![];
    if s.chance(2, 3) {
        for _ in 0..s.us(1, 5) {
            let o = output(s, &w);
            asked.push(o);
        }
    }
    w.j["outputs"] = json!(asked.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
    let wx = weather(s);
    let is_epw = s.chance(1, 4);
    let file = tmp.file(if is_epw { "here.epw" } else { "here.sw" });
    std::fs::write(&file, if is_epw { wx.epw.clone() } else { wx.json.to_string() }).unwrap();
    let file = file.to_string_lossy().to_string();
    let given: Weather = if is_epw { EPWWeather::from_file(file.clone())?.into() } else { serde_json::from_str(&wx.json.to_string()).map_err(|e| e.to_string())? };
    let (mut from, mut to) = (wx.start, wx.end);
    if is_epw {
        // whatever the convention is
        let (a, b) = (given.data[0].date, given.data[given.data.len() - 1].date);
        from = seconds(a.month as usize, a.day as usize, (a.hour * 3600.).round() as usize);
        let span = ((b.day_of_year() - a.day_of_year()) * 86400.).round();
        to = from + (if span < 0. { span + 365. * 86400. } else { span }) as usize;
    }
    let n = *s.pick(&[1usize, 1, 2, 3, 4, 5, 6, 12, 15, 20, 30, 60, 61, 1000]);
    let used = n.min(60);
    let kind = s.us(0, 3);
    let devices = if kind == 0 { None } else { Some(w.devices.as_slice()) };
    s.note(|| format!("n={} control {} {} {}", n, kind, w.j, wx.json));
    let e = by_hand(&w, &given, from, to - 360, used, devices)?;
    if e.rows.iter().any(|r| r.1.iter().any(|x| x.abs() > 1e5)) {
        return Ok(());
    }
    s.nontrivial_if(e.rows.len() > 3 && (!asked.is_empty() || !w.devices.is_empty()));
    let options = SimOptions { n, weather_file: Some(file), research_mode: s.bool(), ..SimOptions::default() };
    let mut text = vec![];
    let out = Slow { out: &mut text, most: *s.pick(&[1usize, 2, 7, 100_000, 100_000]) };
    let (m, mut h) = Model::from_json(&w.j.to_string())?;
    let r = match kind {
        0 => run(&m, &mut h, &options, out, VoidControl {}),
        1 => run(&m, &mut h, &options, out, OccupantBehaviour::new(&m)?),
        2 => {
            struct Mine(Vec<Device>, Vec<usize>);
            impl SimpleControl for Mine {
                fn control<M: std::borrow::Borrow<Model>>(&self, model: M, _p: &MultiphysicsModel, st: &mut SimulationState) -> Result<(), String> {
                    for (i, d) in self.0.iter().enumerate() {
                        let t = d.space.map_or(0., |k| model.borrow().spaces[k].dry_bulb_temperature(st).unwrap());
                        st[self.1[i]] = d.power(t, st[self.1[i]]);
                    }
                    Ok(())
                }
            }
            // (these states are created when reading the model)
            let power = (0..w.devices.len()).map(|i| name_of(&h, E::HeatingCoolingPowerConsumption(i)).unwrap()).collect();
            run(&m, &mut h, &options, out, Mine(w.devices.clone(), power))
        }
        _ => {
            let mut t = String::from("// this is a script\n");
            for (i, d) in w.devices.iter().enumerate() {
                let by_name = s.bool();
                let name = if by_name { format!("\"h{}\"", i) } else { format!("{}", i) };
                t += &d.script(&name, &|k| if by_name { format!("space({})", k) } else { format!("space(\"s{}\")", k) });
            }
            let f = tmp.file("control.rhai");
            std::fs::write(&f, &t).unwrap();
            run_rhai(m, &mut h, &options, &f.to_string_lossy().to_string(), out)
        }
    };
    ensure!(r.is_err() == e.err, "result", "the simulation says {:?}, but when done by hand it {}", r, if e.err { "fails" } else { "works" });
    let text = String::from_utf8(text).map_err(|_| "the report is not text")?;
    let lines: Vec<&str> = text.lines().collect();
    let mut columns: Vec<usize> = vec![];
    for (o, there) in &asked {
        // written exactly as asked for
        let t = serde_json::to_string(&serde_json::from_value::<Output>(o.clone()).map_err(|e| e.to_string())?).unwrap();
        let p = e.names.iter().position(|x| *x == t);
        ensure!(p.is_some() == *there, "names", "{} is {:?} in {:?}", t, p, e.names);
        columns.extend(p);
    }
    if columns.is_empty() {
        columns = (0..e.names.len()).collect();
    }
    let head = format!("Date,{}", columns.iter().map(|i| e.names[*i].clone()).collect::<Vec<_>>().join(","));
    ensure!(lines.first() == Some(&head.as_str()), "header", "the header is {:?} instead of {:?}", lines.first(), head);
    ensure!(text.ends_with('\n'), "end", "the report is not finished: {:?}", lines.last());
    let dt = 3600. / used as f64;
    // every step, but perhaps for the last one when it is exactly at the limit
    let want = e.rows.len();
    let steps = ((to - 360 - from) as f64 / dt).floor();
    ensure!(e.err || (want as f64 - steps).abs() < 1.5, "steps", "there should be {} steps, not {}", steps, want);
    ensure!(lines.len() == want + 1, "rows", "there are {} rows instead of {} (from {:?} to {:?}, every {} s)", lines.len() - 1, want, date_of(from), date_of(to), dt);
    for (l, (at, v)) in lines[1..].iter().zip(&e.rows) {
        let mut it = l.split(',');
        let d = it.next().unwrap();
        let x = date_of(*at);
        // rounded, perhaps, and midnight may belong to the previous day
        let ok = [at.saturating_sub(60), *at, at + 60].iter().any(|t| {
            let x = date_of(*t);
            let (hour, min) = ((*t % 86400) / 3600, (*t % 3600) / 60);
            let late = *t == *at || dt % 60. != 0.;
            let y = date_of(*t + 365 * 86400 - 60);
            late && (d == format!("{:02}/{:02} - {}:{:02}", x.month, x.day, hour, min) || (hour == 0 && min == 0 && d == format!("{:02}/{:02} - 24:00", y.month, y.day)))
        });
        ensure!(ok, "date", "the row of {:?} starts with {:?}", x, d);
        let vals: Vec<&str> = it.collect();
        ensure!(vals.len() == columns.len(), "columns", "{} columns of {} in {:?}", vals.len(), columns.len(), l);
        for (t, c) in vals.iter().zip(&columns) {
            let g: f64 = t.parse().map_err(|_| format!("{:?} in the report is not a number", t))?;
            ensure!(closely(g, v[*c]), "value", "{} at {:?} is {} instead of {}", e.names[*c], x, g, v[*c]);
            ensure!(g.is_nan() || g.is_infinite() || t.split('.').nth(1).map_or(0, |x| x.len()) == 3, "decimals", "{:?}", t);
        }
    }
    Ok(())
}
fn mistakes(s: &mut Src) -> R {
    let mut w = building(s, true);
    let tmp = Tmp::new();
    let path = tmp.file("optical.json");
    w.j["solar_options"] = json!({"optical_data_path":path.to_string_lossy()});
    let o = optics(s, &w.j, 1);
    std::fs::write(&path, serde_json::to_string(&o).unwrap()).unwrap();
    let wx = weather(s);
    let good = tmp.file("here.sw");
    std::fs::write(&good, wx.json.to_string()).unwrap();
    let good = good.to_string_lossy().to_string();
    let what = s.us(0, 9);
    let mut options = SimOptions { n: 1, weather_file: Some(good), ..SimOptions::default() };
    let mut script = "let a = 1;".to_string();
    match what {
        0 => options.n = 0,
        1 => options.weather_file = None,
        2 => options.weather_file = Some(tmp.file("missing.sw").to_string_lossy().into()),
        3 => options.weather_file = Some(tmp.file("missing.epw").to_string_lossy().into()),
        4 => {
            let f = tmp.file("here.txt");
            std::fs::write(&f, wx.json.to_string()).unwrap();
            options.weather_file = Some(f.to_string_lossy().into());
        }
        5 => {
            let f = tmp.file("bad.sw");
            let t = wx.json.to_string();
            let k = s.us(0, t.len() - 1);
            std::fs::write(&f, &t[..k]).unwrap();
            options.weather_file = Some(f.to_string_lossy().into());
        }
        6 => script = s.pick(&["let a = ", "space(\"nowhere\");", "space(0).brightness_of_the_sky = 1;", "hvac(-1);", "space(0).dry_bulb_temperature = \"hot\";", "fenestration(1000);", "throw 1;"]).to_string(),
        7 | 8 => {
            // nothing is known, or not everything
            let mut j = wx.json.clone();
            if what == 7 {
                j["data"] = json!([]);
            } else {
                let k = s.pick(&["data", "location"]);
                j.as_object_mut().unwrap().remove(*k);
            }
            std::fs::write(options.weather_file.as_ref().unwrap(), j.to_string()).unwrap();
        }
        _ => {
            // a data file made for another model
            std::fs::write(&path, "[]").unwrap();
        }
    }
    s.nontrivial();
    s.note(|| format!("mistake {}: {:?} {} {}", what, options, script, w.j));
    let (m, mut h) = Model::from_json(&w.j.to_string())?;
    let mut text = vec![];
    if what == 6 || s.bool() {
        let f = tmp.file("control.rhai");
        std::fs::write(&f, &script).unwrap();
        let r = run_rhai(m, &mut h, &options, &f.to_string_lossy().to_string(), &mut text);
        // nothing is controlled if there is no time for it
        let short = wx.end - wx.start <= 3600;
        ensure!(r.is_err() || (what == 6 && short && script != "let a = "), "accepted", "mistake {} ({}) was accepted", what, script);
    } else {
        let r = run(&m, &mut h, &options, &mut text, VoidControl {});
        ensure!(r.is_err(), "accepted", "mistake {} was accepted", what);
        ensure!(text.is_empty(), "report", "mistake {} was refused, but it wrote {:?}", what, String::from_utf8_lossy(&text));
    }
    Ok(())
}
fn occupants(s: &mut Src) -> R {
    let w = building(s, false);
    s.note(|| w.j.to_string());
    let (m, mut h) = Model::from_json(&w.j.to_string())?;
    // the physics does not matter here
    let tmp = Tmp::new();
    let mut j = w.j.clone();
    for k in ["surfaces", "fenestrations", "hvacs"] {
        j[k] = json!([]);
    }
    let path = tmp.file("optical.json");
    std::fs::write(&path, serde_json::to_string(&optics(s, &j, 1)).unwrap()).unwrap();
    j["solar_options"] = json!({"optical_data_path":path.to_string_lossy()});
    let (other, mut h2) = Model::from_json(&j.to_string())?;
    let physics = MultiphysicsModel::new(&MetaOptions::default(), (), &other, &mut h2, 1)?;
    let mut temp = vec![];
    for (i, x) in m.spaces.iter().enumerate() {
        let k = h.push(E::SpaceDryBulbTemperature(i), 0.)?;
        x.set_dry_bulb_temperature_index(k)?;
        temp.push(k);
    }
    let power: Vec<usize> = (0..w.devices.len()).map(|i| name_of(&h, E::HeatingCoolingPowerConsumption(i)).unwrap()).collect();
    let mut st = h.take_values().ok_or("no state")?;
    for i in 0..st.len() {
        st[i] = s.f(-100., 100.);
    }
    for k in &temp {
        st[*k] = s.f(-10., 40.);
    }
    // exactly at the setpoint, too
    for d in &w.devices {
        if let (Some(k), true) = (d.space, s.chance(1, 4)) {
            if let Some(t) = if s.bool() { d.heating.0 } else { d.cooling.0 } {
                st[temp[k]] = t;
            }
        }
    }
    let control = OccupantBehaviour::new(&m)?;
    for _ in 0..2 {
        let mut e = st.clone();
        for (i, d) in w.devices.iter().enumerate() {
            let t = d.space.map_or(0., |k| st[temp[k]]);
            e[power[i]] = d.power(t, st[power[i]]);
        }
        s.nontrivial_if(e != st);
        let before = st.clone();
        control.control(&m, &physics, &mut st)?;
        ensure!(st == e, "control", "devices {:?}: the state was {:?} and is {:?}, but should be {:?}", w.devices, before, st, e);
        let k = s.us(0, temp.len() - 1);
        st[temp[k]] = s.f(-10., 40.);
    }
    // and by the void
    let before = st.clone();
    VoidControl {}.control(&m, &physics, &mut st)?;
    ensure!(st == before, "void", "the void changed something");
    // and by a script
    let mut t = String::new();
    for (i, d) in w.devices.iter().enumerate() {
        t += &d.script(&format!("{}", i), &|k| format!("space(\"s{}\")", k));
    }
    let mut e = st.clone();
    for (i, d) in w.devices.iter().enumerate() {
        let x = d.space.map_or(0., |k| st[temp[k]]);
        e[power[i]] = d.power(x, st[power[i]]);
    }
    let m = Arc::new(m);
    let research = s.bool();
    let (c, shared) = RhaiControlScript::new(&m, st, &t, research)?;
    for _ in 0..2 {
        c.control()?;
        let got = shared.lock().map_err(|_| "the state is locked")?.clone();
        ensure!(got == e, "script", "after\n{}\nthe state is {:?}, but should be {:?}", t, got, e);
    }
    // scripts do not remember
    let (c, shared) = RhaiControlScript::new(&m, e.clone(), "let total = 1; total += 1; let a = space(0); let x = a.dry_bulb_temperature; x += total - 2;", research)?;
    for _ in 0..3 {
        c.control()?;
    }
    ensure!(*shared.lock().map_err(|_| "the state is locked")? == e, "memory", "the state changed");
    ensure!(RhaiControlScript::new(&m, e.clone(), "if {", research).is_err(), "syntax", "a script that is not valid was accepted");
    ensure!(RhaiControlScript::from_file(&m, e, &tmp.file("no.rhai").to_string_lossy().to_string(), research).is_err(), "missing", "a script that does not exist was accepted");
    Ok(())
}
pub fn r08() -> Property {
    Property {
        id: "R08",
        facets: vec![Facet::new("simulation", simulation, 150, 100_000, "more than 3 steps, and outputs or devices"), Facet::new("mistakes", mistakes, 150, 20_000, "all")],
        assumptions: vec!["optical data is read from a file, so that simulations do not depend on random numbers", "constructions are massive"],
    }
}
pub fn r09() -> Property {
    Property {
        id: "R09",
        facets: vec![Facet::new("occupants", occupants, 400, 400_000, "the state changes")],
        assumptions: vec!["the heating setpoint of a device is not over its cooling setpoint"],
    }
}
