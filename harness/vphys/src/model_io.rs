//! P01 model reading and writing, P02 references and malformed input, P03 state and scripting
use crate::poly::{area2, shape, Pl};
use fw::*;
use model::{Boundary, Model, SimulationStateHeader};
use serde_json::{json, Map, Value};

type Objs = Vec<(&'static str, Value)>;

/// Names, including those with characters that mean something in the format
fn name(s: &mut Src, kind: &str, i: usize) -> String {
    let odd = [
        "", " ", "'", "\"", "{", "}", "(", ")", "//", "/*", "*/", "\\", ",", ":", "ñandú", "\n", "\t", "漢字", "[", "]", "-", "_", ".", "#", "</", "=",
    ];
    let mut n = format!("{} {}", kind, i);
    // names that look like one another
    if s.chance(1, 3) {
        let k = kind.to_lowercase();
        let alike = [k.clone(), k.to_uppercase(), format!("{}s", k), k[..1].to_uppercase() + &k[1..], format!("{} ", k), format!(" {}", k), format!("{}_", k), k[1..].to_string()];
        if let Some(x) = alike.get(i) {
            return x.clone();
        }
    }
    if s.chance(1, 3) {
        for _ in 0..s.us(1, 3) {
            let o = *s.pick(&odd);
            if s.bool() {
                n = format!("{}{}", n, o);
            } else {
                n = format!("{}{}", o, n);
            }
        }
    }
    n
}
fn num(s: &mut Src, lo: f64, hi: f64) -> Value {
    let v = match s.us(0, 3) {
        0 => (s.f(lo, hi) * 100.).round() / 100.,
        1 => s.f(lo, hi).round(),
        _ => s.f(lo, hi),
    };
    json!(v)
}
fn opt(s: &mut Src, m: &mut Map<String, Value>, k: &str, lo: f64, hi: f64) {
    if s.bool() {
        let v = num(s, lo, hi);
        m.insert(k.into(), v);
    }
}
fn rect(pl: &Pl, x: f64, y: f64, w: f64, h: f64, rev: bool) -> Vec<f64> {
    let mut v = vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)];
    if rev {
        v.reverse();
    }
    flat(pl, &v)
}
fn flat(pl: &Pl, v: &[(f64, f64)]) -> Vec<f64> {
    v.iter()
        .flat_map(|p| {
            let q = pl.at(*p);
            vec![q.x, q.y, q.z]
        })
        .collect()
}
fn boundary(s: &mut Src, spaces: &[String]) -> Option<Value> {
    match s.us(0, 5) {
        0 => None,
        1 => Some(json!({"type":"Outdoor"})),
        2 => Some(json!({"type":"Ground"})),
        3 => Some(json!({"type":"Adiabatic"})),
        4 => Some(json!({"type":"AmbientTemperature","temperature": num(s, -20., 40.)})),
        _ => {
            if spaces.is_empty() {
                None
            } else {
                Some(json!({"type":"Space","space": s.pick(spaces).clone()}))
            }
        }
    }
}
fn names(o: &Objs, t: &str) -> Vec<String> {
    o.iter().filter(|x| x.0 == t).map(|x| x.1["name"].as_str().unwrap_or("").to_string()).collect()
}

/// A whole model: objects in an order in which references come after what they refer to
fn gen_objs(s: &mut Src) -> Objs {
    let mut o: Objs = vec![];
    for i in 0..s.few(0, 2, 14) {
        let mut m = Map::new();
        m.insert("name".into(), json!(name(s, "Building", i)));
        if s.bool() {
            m.insert("n_storeys".into(), json!(s.us(1, 30)));
        }
        if s.bool() {
            m.insert("shelter_class".into(), json!(*s.pick(&["NoObstructions", "IsolatedRural", "Urban", "LargeLotUrban", "SmallLotUrban"])));
        }
        opt(s, &mut m, "stack_coefficient", 0., 1.);
        opt(s, &mut m, "wind_coefficient", 0., 1.);
        o.push(("Building", Value::Object(m)));
    }
    for i in 0..s.few(0, 3, 14) {
        let mut m = Map::new();
        m.insert("name".into(), json!(name(s, "Space", i)));
        opt(s, &mut m, "volume", 0.5, 500.);
        let inf = match s.us(0, 6) {
            0 => Some(json!({"type":"Constant","flow":num(s,0.,2.)})),
            1 => Some(json!({"type":"Blast","flow":num(s,0.,2.)})),
            2 => Some(json!({"type":"Doe2","flow":num(s,0.,2.)})),
            3 => {
                let v: Vec<Value> = (0..5).map(|_| num(s, -1., 1.)).collect();
                Some(json!({"type":"DesignFlowRate","a":v[0],"b":v[1],"c":v[2],"d":v[3],"phi":v[4]}))
            }
            4 => Some(json!({"type":"EffectiveAirLeakageArea","area":num(s,0.,1.)})),
            _ => None,
        };
        if let Some(v) = inf {
            m.insert("infiltration".into(), v);
        }
        let b = names(&o, "Building");
        if !b.is_empty() && s.bool() {
            m.insert("building".into(), json!(s.pick(&b).clone()));
        }
        if s.bool() {
            m.insert("storey".into(), json!(s.us(0, 9)));
        }
        if s.bool() {
            let p: Vec<&str> = (0..s.us(1, 3)).map(|_| *s.pick(&["Bathroom", "Bedroom", "DiningRoom", "Kitchen", "LivingRoom", "Office", "Storage", "Garage", "Hallway", "Laundry", "Other"])).collect();
            m.insert("purposes".into(), json!(p));
        }
        o.push(("Space", Value::Object(m)));
    }
    let spaces = names(&o, "Space");
    for i in 0..s.few(0, 3, 14) {
        let mut m = Map::new();
        m.insert("name".into(), json!(name(s, "Substance", i)));
        if s.chance(1, 3) {
            m.insert("type".into(), json!("Gas"));
            if s.bool() {
                m.insert("gas".into(), json!(*s.pick(&["Air", "Argon", "Krypton", "Xenon"])));
            }
        } else {
            m.insert("type".into(), json!("Normal"));
            for k in ["thermal_conductivity", "specific_heat_capacity", "density"] {
                opt(s, &mut m, k, 0.01, 3000.);
            }
            for k in [
                "front_solar_absorbtance",
                "back_solar_absorbtance",
                "solar_transmittance",
                "front_visible_reflectance",
                "back_visible_reflectance",
                "visible_transmissivity",
                "front_thermal_absorbtance",
                "back_thermal_absorbtance",
            ] {
                opt(s, &mut m, k, 0., 1.);
            }
        }
        o.push(("Substance", Value::Object(m)));
    }
    let subs = names(&o, "Substance");
    for i in 0..s.few(0, 3, 14) {
        if subs.is_empty() {
            break;
        }
        let n = name(s, "Material", i);
        let v = json!({"name":n,"substance":s.pick(&subs).clone(),"thickness":num(s,0.001,0.5)});
        o.push(("Material", v));
    }
    let mats = names(&o, "Material");
    for i in 0..s.few(1, 3, 14) {
        let n = name(s, "Construction", i);
        let k = if mats.is_empty() { 0 } else { s.few(0, 3, 12) };
        let v: Vec<String> = (0..k).map(|_| s.pick(&mats).clone()).collect();
        o.push(("Construction", json!({"name":n,"materials":v})));
    }
    let cons = names(&o, "Construction");
    let mut nf = 0;
    for i in 0..s.few(0, 3, 14) {
        let mut m = Map::new();
        let nm = name(s, "Surface", i);
        m.insert("name".into(), json!(nm.clone()));
        m.insert("construction".into(), json!(s.pick(&cons).clone()));
        for k in ["front_boundary", "back_boundary"] {
            if let Some(b) = boundary(s, &spaces) {
                m.insert(k.into(), b);
            }
        }
        if s.bool() {
            m.insert(
                "category".into(),
                json!(*s.pick(&["ExteriorWall", "InteriorWall", "GroundFloor", "ExteriorFloor", "InteriorFloor", "Ceiling", "Roof", "Other"])),
            );
        }
        opt(s, &mut m, "precalculated_front_convection_coef", 0., 30.);
        opt(s, &mut m, "precalculated_back_convection_coef", 0., 30.);
        let pl = Pl::gen(s);
        let windows = if s.chance(1, 2) { s.few(1, 2, 2) } else { 0 };
        if windows == 0 {
            let p = shape(s, false);
            m.insert("vertices".into(), json!(flat(&pl, &p)));
        } else {
            let rev = s.bool();
            m.insert("vertices".into(), json!(rect(&pl, 0., 0., 10., 4., rev)));
        }
        o.push(("Surface", Value::Object(m)));
        for w in 0..windows {
            let mut f = Map::new();
            f.insert("name".into(), json!(name(s, "Fenestration", nf)));
            nf += 1;
            let x = 5. * w as f64 + s.f(0.3, 2.);
            let (y, wd, h, rev) = (s.f(0.3, 1.5), s.f(0.4, 2.5), s.f(0.4, 2.), s.bool());
            f.insert("vertices".into(), json!(rect(&pl, x, y, wd, h, rev)));
            f.insert("parent_surface".into(), json!(nm.clone()));
            fen_rest(s, &mut f, &cons);
            o.push(("Fenestration", Value::Object(f)));
        }
    }
    for _ in 0..s.us(0, 1) {
        let mut f = Map::new();
        f.insert("name".into(), json!(name(s, "Fenestration", nf)));
        nf += 1;
        let pl = Pl::gen(s);
        let p = shape(s, true);
        f.insert("vertices".into(), json!(flat(&pl, &p)));
        for k in ["front_boundary", "back_boundary"] {
            if let Some(b) = boundary(s, &spaces) {
                f.insert(k.into(), b);
            }
        }
        fen_rest(s, &mut f, &cons);
        o.push(("Fenestration", Value::Object(f)));
    }
    for i in 0..s.few(0, 2, 14) {
        let mut m = Map::new();
        m.insert("name".into(), json!(name(s, "HVAC", i)));
        if !spaces.is_empty() && s.bool() {
            m.insert("target_space".into(), json!(s.pick(&spaces).clone()));
        }
        opt(s, &mut m, "max_heating_power", 0., 3000.);
        opt(s, &mut m, "heating_setpoint", 10., 25.);
        if s.bool() {
            m.insert("type".into(), json!("IdealHeaterCooler"));
            opt(s, &mut m, "max_cooling_power", 0., 3000.);
            opt(s, &mut m, "cooling_setpoint", 20., 30.);
        } else {
            m.insert("type".into(), json!("ElectricHeater"));
        }
        o.push(("HVAC", Value::Object(m)));
    }
    for i in 0..s.few(0, 2, 14) {
        let mut m = Map::new();
        m.insert("name".into(), json!(name(s, "Luminaire", i)));
        opt(s, &mut m, "max_power", 0., 100.);
        if !spaces.is_empty() && s.bool() {
            m.insert("target_space".into(), json!(s.pick(&spaces).clone()));
        }
        o.push(("Luminaire", Value::Object(m)));
    }
    for i in 0..s.few(0, 2, 14) {
        let mut m = Map::new();
        m.insert("name".into(), json!(name(s, "Object", i)));
        let p3 = |s: &mut Src| json!({"x":num(s,-5.,5.),"y":num(s,-5.,5.),"z":num(s,-5.,5.)});
        let v = p3(s);
        m.insert("dimensions".into(), v);
        for k in ["location", "up", "front"] {
            if s.bool() {
                let v = p3(s);
                m.insert(k.into(), v);
            }
        }
        let sp = match s.us(0, 5) {
            0 => None,
            1 => Some(json!({"type": *s.pick(&["Other","Bathtub","Bed","Dishwasher","Fireplace","Oven","Refrigerator","Sink","Stairs","Stove","Television","Toilet","WasherDryer"])})),
            2 => Some(json!({"type":"Chair","subtype":*s.pick(&["Other","Dining","Office","Stool"]),"arms":*s.pick(&["Existing","Missing"]),"back":*s.pick(&["Existing","Missing"]),"legs":*s.pick(&["Four","Three","Star","Other"])})),
            3 => Some(json!({"type":"Sofa","subtype":*s.pick(&["Other","Rectangular","SingleSeat","LShaped","LShapedExtension"])})),
            4 => Some(json!({"type":"Storage","subtype":*s.pick(&["Cabinet","Shelf"])})),
            _ => Some(json!({"type":"Table","subtype":*s.pick(&["Other","Dining","Coffee"]),"shape":*s.pick(&["Other","Rectangular","Circular","LShaped"])})),
        };
        if let Some(v) = sp {
            m.insert("specifications".into(), v);
        }
        if !spaces.is_empty() && s.bool() {
            m.insert("space".into(), json!(s.pick(&spaces).clone()));
        }
        o.push(("Object", Value::Object(m)));
    }
    for _ in 0..s.few(0, 2, 14) {
        let k = *s.pick(&["SpaceDryBulbTemperature", "FenestrationOpenFraction", "HeatingCoolingPowerConsumption", "LuminairePowerConsumption", "SurfaceFrontSolarIrradiance", "SpaceInfiltrationVolume"]);
        let n = name(s, "x", 0);
        o.push(("Output", json!({k: n})));
    }
    if s.bool() {
        let mut m = Map::new();
        opt(s, &mut m, "altitude", 0., 3000.);
        if s.bool() {
            m.insert("terrain".into(), json!(*s.pick(&["Country", "Suburbs", "City", "Ocean", "Urban"])));
        }
        opt(s, &mut m, "latitude", -90., 90.);
        opt(s, &mut m, "longitude", -180., 180.);
        opt(s, &mut m, "standard_meridian", -180., 180.);
        o.push(("SiteDetails", Value::Object(m)));
    }
    if s.bool() {
        let mut m = Map::new();
        for k in ["n_solar_irradiance_points", "solar_ambient_divitions", "solar_sky_discretization"] {
            if s.bool() {
                m.insert(k.into(), json!(s.us(1, 3000)));
            }
        }
        if s.bool() {
            m.insert("optical_data_path".into(), json!(name(s, "./path", 0)));
        }
        o.push(("SolarOptions", Value::Object(m)));
    }
    o
}
fn fen_rest(s: &mut Src, f: &mut Map<String, Value>, cons: &[String]) {
    f.insert("construction".into(), json!(s.pick(cons).clone()));
    if s.bool() {
        f.insert("category".into(), json!(*s.pick(&["Window", "Door", "Opening"])));
    }
    let op = match s.us(0, 5) {
        0 => Some(json!({"type":"Fixed","fraction":num(s,0.,1.)})),
        1 => Some(json!({"type":"Continuous","max":num(s,0.,1.),"min":num(s,0.,1.)})),
        2 => Some(json!({"type":"Binary","open":num(s,0.,1.),"closed":num(s,0.,1.)})),
        3 => Some(json!({"type":"Continuous"})),
        _ => None,
    };
    if let Some(v) = op {
        f.insert("operation".into(), v);
    }
    opt(s, f, "precalculated_front_convection_coef", 0., 30.);
    opt(s, f, "precalculated_back_convection_coef", 0., 30.);
}

fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = s.us(0, i);
        v.swap(i, j);
    }
}
/// white space and comments
fn blank(s: &mut Src, out: &mut String) {
    match s.us(0, 9) {
        8 => out.push_str(*s.pick(&["/**/", "/***/", "/*/ */", "/*//*/", "/** { **/", "/*\n*\n/ '*/"])),
        9 => out.push_str(*s.pick(&["//\n", "///*\n", "// */ \r\n", " \r\n\t"])),
        0 => out.push('\n'),
        1 => out.push_str("\t "),
        2 => out.push_str(" // a comment { \" ' } ) ( \n"),
        3 => out.push_str(" /* another } one \n { ' \" // ( */ "),
        4 => out.push_str("\r\n"),
        _ => out.push(' '),
    }
}
fn emit_str(s: &mut Src, t: &str, out: &mut String) {
    if s.chance(1, 3) {
        out.push('\'');
        for c in t.chars() {
            match c {
                '\'' => out.push_str("\\'"),
                '\\' => out.push_str("\\\\"),
                '\n' => out.push_str("\\n"),
                '\t' => out.push_str("\\t"),
                c => out.push(c),
            }
        }
        out.push('\'');
    } else {
        out.push_str(&serde_json::to_string(t).unwrap());
    }
}
fn emit(s: &mut Src, v: &Value, out: &mut String, dense: bool) {
    let sp = |s: &mut Src, out: &mut String| {
        if !dense {
            blank(s, out)
        }
    };
    match v {
        Value::Object(m) => {
            out.push('{');
            let mut ks: Vec<&String> = m.keys().collect();
            shuffle(s, &mut ks);
            let n = ks.len();
            for (i, k) in ks.into_iter().enumerate() {
                sp(s, out);
                match s.us(0, 2) {
                    0 => out.push_str(k),
                    _ => emit_str(s, k, out),
                }
                sp(s, out);
                out.push(':');
                sp(s, out);
                emit(s, &m[k], out, dense);
                sp(s, out);
                if i + 1 < n || s.bool() {
                    out.push(',');
                }
            }
            sp(s, out);
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                emit(s, x, out, true);
                if i + 1 < a.len() || s.bool() {
                    out.push(',');
                    if !dense && i % 3 == 2 {
                        blank(s, out);
                    }
                }
            }
            out.push(']');
        }
        Value::String(t) => emit_str(s, t, out),
        Value::Number(n) => {
            // integers may be written either way where a float is expected
            match n.as_f64() {
                Some(f) if n.is_f64() && f.fract() == 0. && f.abs() < 1e6 && s.bool() => out.push_str(&format!("{}", f as i64)),
                _ => out.push_str(&n.to_string()),
            }
        }
        x => out.push_str(&x.to_string()),
    }
}
fn to_text(s: &mut Src, o: &Objs) -> String {
    let mut t = String::new();
    let dense = s.chance(1, 4);
    blank(s, &mut t);
    for (ty, v) in o {
        t.push_str(ty);
        if s.bool() {
            blank(s, &mut t);
        }
        emit(s, v, &mut t, dense);
        if s.bool() {
            blank(s, &mut t);
        }
    }
    t
}

/// equality of JSON values, with null and absent being the same
fn same(path: &str, a: &Value, b: &Value) -> Result<(), String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                let n = Value::Null;
                same(&format!("{}.{}", path, k), x.get(k).unwrap_or(&n), y.get(k).unwrap_or(&n))?;
            }
            Ok(())
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Err(format!("{}: {} elements became {}", path, x.len(), y.len()));
            }
            for i in 0..x.len() {
                same(&format!("{}[{}]", path, i), &x[i], &y[i])?;
            }
            Ok(())
        }
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN));
            if close(x, y, 1e-13, 1e-300) {
                Ok(())
            } else {
                Err(format!("{}: {} became {}", path, x, y))
            }
        }
        _ => {
            if a == b {
                Ok(())
            } else {
                Err(format!("{}: {} became {}", path, a, b))
            }
        }
    }
}
fn defaults(ty: &str) -> Value {
    match ty {
        "Surface" => json!({"front_boundary":{"type":"Outdoor"},"back_boundary":{"type":"Outdoor"}}),
        "Fenestration" => json!({"front_boundary":{"type":"Outdoor"},"back_boundary":{"type":"Outdoor"},"category":"Window"}),
        "Object" => json!({"location":{"x":0.,"y":0.,"z":0.},"up":{"x":0.,"y":0.,"z":1.},"front":{"x":0.,"y":1.,"z":0.},"specifications":{"type":"Other"}}),
        _ => json!({}),
    }
}
fn poly_area(v: &Value) -> f64 {
    let v: Vec<f64> = v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect();
    let n = v.len() / 3;
    let p = |i: usize| [v[3 * (i % n)] - v[0], v[3 * (i % n) + 1] - v[1], v[3 * (i % n) + 2] - v[2]];
    let mut a = [0.; 3];
    for i in 0..n {
        let (x, y) = (p(i), p(i + 1));
        a[0] += x[1] * y[2] - x[2] * y[1];
        a[1] += x[2] * y[0] - x[0] * y[2];
        a[2] += x[0] * y[1] - x[1] * y[0];
    }
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt() / 2.
}
fn normal_of(v: &Value) -> [f64; 3] {
    let v: Vec<f64> = v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect();
    let n = v.len() / 3;
    let p = |i: usize| [v[3 * (i % n)] - v[0], v[3 * (i % n) + 1] - v[1], v[3 * (i % n) + 2] - v[2]];
    let mut a = [0.; 3];
    for i in 0..n {
        let (x, y) = (p(i), p(i + 1));
        a[0] += x[1] * y[2] - x[2] * y[1];
        a[1] += x[2] * y[0] - x[0] * y[2];
        a[2] += x[0] * y[1] - x[1] * y[0];
    }
    let l = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt();
    [a[0] / l, a[1] / l, a[2] / l]
}
fn cyc(a: &Value, b: &Value) -> bool {
    let f = |v: &Value| -> Vec<[f64; 3]> {
        let v: Vec<f64> = v.as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN)).collect()).unwrap_or_default();
        v.chunks(3).map(|c| [c[0], c[1], *c.get(2).unwrap_or(&f64::NAN)]).collect()
    };
    let (a, b) = (f(a), f(b));
    let n = a.len();
    n == b.len() && (0..n).any(|k| (0..n).all(|i| (0..3).all(|j| close(a[(i + k) % n][j], b[i][j], 1e-12, 1e-12))))
}

fn listed(m: &Model, ty: &str) -> Vec<Value> {
    fn f<T: serde::Serialize>(v: &[T]) -> Vec<Value> {
        v.iter().map(|x| serde_json::to_value(x).unwrap()).collect()
    }
    match ty {
        "Building" => f(&m.buildings),
        "Space" => f(&m.spaces),
        "Substance" => f(&m.substances),
        "Material" => f(&m.materials),
        "Construction" => f(&m.constructions),
        "Surface" => f(&m.surfaces),
        "Fenestration" => f(&m.fenestrations),
        "HVAC" => f(&m.hvacs),
        "Luminaire" => f(&m.luminaires),
        "Object" => f(&m.objects),
        "Output" => f(&m.outputs),
        "SiteDetails" => f(&m.site_details.iter().collect::<Vec<_>>()),
        "SolarOptions" => f(&m.solar_options.iter().collect::<Vec<_>>()),
        _ => unreachable!(),
    }
}
const TYPES: [&str; 13] =
    ["Building", "Space", "Substance", "Material", "Construction", "Surface", "Fenestration", "HVAC", "Luminaire", "Object", "Output", "SiteDetails", "SolarOptions"];

fn expect_model(m: &Model, o: &Objs) -> R {
    for ty in TYPES {
        let exp: Vec<&Value> = o.iter().filter(|x| x.0 == ty).map(|x| &x.1).collect();
        let got = listed(m, ty);
        ensure!(exp.len() == got.len(), "count", "{} objects of type {} were written but {} were read", exp.len(), ty, got.len());
        for (i, (e, g)) in exp.iter().zip(got.iter()).enumerate() {
            let mut full = defaults(ty);
            for (k, v) in e.as_object().unwrap() {
                full[k] = v.clone();
            }
            let mut g = g.clone();
            if ty == "Surface" {
                let holes: Vec<&Value> = o.iter().filter(|x| x.0 == "Fenestration" && x.1.get("parent_surface") == Some(&full["name"])).map(|x| &x.1).collect();
                let a = poly_area(&full["vertices"]) - holes.iter().map(|h| poly_area(&h["vertices"])).sum::<f64>();
                ensure!(close(m.surfaces[i].vertices.area(), a, 1e-7, 0.), "area", "area of surface {} with {} holes is {} but should be {}", i, holes.len(), m.surfaces[i].vertices.area(), a);
                if holes.is_empty() {
                    ensure!(cyc(&full["vertices"], &g["vertices"]), "vertices", "surface {}: {} became {}", i, full["vertices"], g["vertices"]);
                }
            }
            if ty == "Fenestration" {
                ensure!(cyc(&full["vertices"], &g["vertices"]), "vertices", "fenestration {}: {} became {}", i, full["vertices"], g["vertices"]);
                ensure!(m.fenestrations[i].parent_surface().ok().map(|x| x.as_str()) == full.get("parent_surface").and_then(|x| x.as_str()), "parent", "parent of fenestration {}", i);
                if let Some(p) = full.get("parent_surface").cloned() {
                    let ps = o.iter().find(|x| x.0 == "Surface" && x.1["name"] == p).unwrap();
                    let (a, b) = (normal_of(&ps.1["vertices"]), normal_of(&full["vertices"]));
                    let out = json!({"type":"Outdoor"});
                    let mut f = ps.1.get("front_boundary").unwrap_or(&out).clone();
                    let mut k = ps.1.get("back_boundary").unwrap_or(&out).clone();
                    if a[0] * b[0] + a[1] * b[1] + a[2] * b[2] < 0. {
                        std::mem::swap(&mut f, &mut k);
                    }
                    full["front_boundary"] = f;
                    full["back_boundary"] = k;
                }
                full["parent_surface"] = Value::Null;
            }
            if ty == "Surface" || ty == "Fenestration" {
                full["vertices"] = Value::Null;
                g["vertices"] = Value::Null;
            }
            if ty == "Object" && full["specifications"]["type"] == "Chair" {}
            if let Err(e) = same(&format!("{}[{}]", ty, i), &full, &g) {
                bail!("value", "{}", e);
            }
        }
    }
    Ok(())
}

fn read_text(s: &mut Src) -> R {
    let mut o = gen_objs(s);
    // the order in which objects are written is irrelevant (except within those of the same type)
    let mut t = o.clone();
    shuffle(s, &mut t);
    // keep the relative order by type
    let mut by: std::collections::HashMap<&str, std::collections::VecDeque<Value>> = Default::default();
    for (ty, v) in o.drain(..) {
        by.entry(ty).or_default().push_back(v);
    }
    for x in t.iter_mut() {
        x.1 = by.get_mut(x.0).unwrap().pop_front().unwrap();
    }
    let text = to_text(s, &t);
    s.note(|| text.clone());
    s.nontrivial_if(t.len() >= 4);
    let (m, h) = Model::from_bytes(text.as_bytes()).map_err(|e| Fail { kind: "refused".into(), msg: format!("{}\n{}", e, text) })?;
    expect_model(&m, &t)?;
    states(&m, &h)
}
/// one state element for each fenestration, HVAC and luminaire, which is the one that the object reads and writes
fn states(m: &Model, h: &SimulationStateHeader) -> R {
    let n = m.fenestrations.len() + m.hvacs.len() + m.luminaires.len();
    ensure!(h.len() == n && h.n_operational() == n && h.n_individual() == 0, "header", "{} fenestrations, HVACs and luminaires, but {} states, {} of which operational", n, h.len(), h.n_operational());
    let mut h = h.clone();
    let mut st = h.take_values().unwrap();
    ensure!(st.len() == n, "header", "header of {} has {} values", n, st.len());
    let mut seen = std::collections::HashSet::new();
    for (i, f) in m.fenestrations.iter().enumerate() {
        let k = f.open_fraction_index();
        ensure!(k.map(|k| k < n && seen.insert(k)) == Some(true), "index", "index of the open fraction of fenestration {} is {:?} (of {})", i, k, n);
        ensure!(format!("{:?}", h.elements[k.unwrap()]) == format!("FenestrationOpenFraction({})", i), "element", "{:?} for fenestration {}", h.elements[k.unwrap()], i);
        f.set_open_fraction(&mut st, 1000. + i as f64)?;
    }
    for (i, f) in m.hvacs.iter().enumerate() {
        let k = match f {
            model::hvac::HVAC::ElectricHeater(x) => {
                x.set_heating_cooling_consumption(&mut st, 2000. + i as f64)?;
                x.heating_cooling_consumption_index()
            }
            model::hvac::HVAC::IdealHeaterCooler(x) => {
                x.set_heating_cooling_consumption(&mut st, 2000. + i as f64)?;
                x.heating_cooling_consumption_index()
            }
        };
        ensure!(k.map(|k| k < n && seen.insert(k)) == Some(true), "index", "index of the power of HVAC {} is {:?} (of {})", i, k, n);
        ensure!(format!("{:?}", h.elements[k.unwrap()]) == format!("HeatingCoolingPowerConsumption({})", i), "element", "{:?} for HVAC {}", h.elements[k.unwrap()], i);
    }
    for (i, f) in m.luminaires.iter().enumerate() {
        let k = f.power_consumption_index();
        ensure!(k.map(|k| k < n && seen.insert(k)) == Some(true), "index", "index of the power of luminaire {} is {:?} (of {})", i, k, n);
        ensure!(format!("{:?}", h.elements[k.unwrap()]) == format!("LuminairePowerConsumption({})", i), "element", "{:?} for luminaire {}", h.elements[k.unwrap()], i);
        f.set_power_consumption(&mut st, 3000. + i as f64)?;
    }
    for (i, f) in m.fenestrations.iter().enumerate() {
        ensure!(f.open_fraction(&st) == Some(1000. + i as f64), "get", "fenestration {} reads {:?}", i, f.open_fraction(&st));
    }
    for (i, f) in m.hvacs.iter().enumerate() {
        let v = match f {
            model::hvac::HVAC::ElectricHeater(x) => x.heating_cooling_consumption(&st),
            model::hvac::HVAC::IdealHeaterCooler(x) => x.heating_cooling_consumption(&st),
        };
        ensure!(v == Some(2000. + i as f64), "get", "HVAC {} reads {:?}", i, v);
    }
    for (i, f) in m.luminaires.iter().enumerate() {
        ensure!(f.power_consumption(&st) == Some(3000. + i as f64), "get", "luminaire {} reads {:?}", i, f.power_consumption(&st));
    }
    Ok(())
}

fn model_of(s: &mut Src) -> Result<(Model, SimulationStateHeader, Objs), Fail> {
    let r = any_model(s)?;
    s.nontrivial_if(r.2.len() >= 4);
    Ok(r)
}
fn any_model(s: &mut Src) -> Result<(Model, SimulationStateHeader, Objs), Fail> {
    let o = gen_objs(s);
    let mut t = String::new();
    for (ty, v) in &o {
        t.push_str(&format!("{} {}\n", ty, serde_json::to_string_pretty(v).unwrap()));
    }
    s.note(|| t.clone());
    let (m, h) = Model::from_bytes(t.as_bytes()).map_err(|e| Fail { kind: "refused".into(), msg: format!("{}\n{}", e, t) })?;
    Ok((m, h, o))
}
/// everything that the model says, except the outline of surfaces with holes (which becomes one without)
fn compare(a: &Model, b: &Model) -> R {
    for ty in TYPES {
        let (x, y) = (listed(a, ty), listed(b, ty));
        ensure!(x.len() == y.len(), "count", "{} objects of type {} became {}", x.len(), ty, y.len());
        for i in 0..x.len() {
            let (mut x, mut y) = (x[i].clone(), y[i].clone());
            if ty == "Surface" || ty == "Fenestration" {
                let (p, q) = if ty == "Surface" { (&a.surfaces[i].vertices, &b.surfaces[i].vertices) } else { (&a.fenestrations[i].vertices, &b.fenestrations[i].vertices) };
                ensure!(close(p.area(), q.area(), 1e-7, 0.), "area", "area of {} {} was {} and became {}", ty, i, p.area(), q.area());
                let (n, k) = (p.normal(), q.normal());
                ensure!((n - k).length() < 1e-6, "normal", "normal of {} {} was {} and became {}", ty, i, n, k);
                if p.n_inner_loops() == 0 {
                    ensure!(cyc(&x["vertices"], &y["vertices"]), "vertices", "{} {}: {} became {}", ty, i, x["vertices"], y["vertices"]);
                }
                x["vertices"] = Value::Null;
                y["vertices"] = Value::Null;
            }
            if let Err(e) = same(&format!("{}[{}]", ty, i), &x, &y) {
                bail!("value", "{}", e);
            }
        }
    }
    Ok(())
}
pub struct Tmp(std::path::PathBuf);
impl Tmp {
    pub fn new() -> Tmp {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("vphys.{}.{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Tmp(p)
    }
    pub fn file(&self, n: &str) -> String {
        self.0.join(n).to_string_lossy().to_string()
    }
}
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn text_round_trip(s: &mut Src) -> R {
    let (m, h, _) = model_of(s)?;
    let text = m.to_string();
    let files = s.chance(1, 8);
    let (m2, h2) = if files {
        let t = Tmp::new();
        m.print_to_file(&t.file("m.spl"))?;
        Model::from_file(t.file("m.spl"))
    } else {
        Model::from_bytes(text.as_bytes())
    }
    .map_err(|e| Fail { kind: "unreadable".into(), msg: format!("{} when reading back\n{}", e, text) })?;
    compare(&m, &m2)?;
    ensure!(h2.len() == h.len(), "header", "{} states became {}", h.len(), h2.len());
    states(&m2, &h2)
}
fn json_round_trip(s: &mut Src) -> R {
    let (mut m, h, _) = model_of(s)?;
    if s.bool() {
        m.name = Some(name(s, "the model", 0));
    }
    let text = serde_json::to_string(&m).map_err(|e| e.to_string())?;
    let files = s.chance(1, 8);
    let (m2, h2) = if files {
        let t = Tmp::new();
        m.print_to_json_file(&t.file("m.json"))?;
        Model::from_json_file(t.file("m.json"))
    } else {
        Model::from_json(&text)
    }
    .map_err(|e| Fail { kind: "unreadable".into(), msg: format!("{} when reading back\n{}", e, text) })?;
    compare(&m, &m2)?;
    ensure!(m.name == m2.name, "name", "name {:?} became {:?}", m.name, m2.name);
    ensure!(h2.len() == h.len(), "header", "{} states became {}", h.len(), h2.len());
    states(&m2, &h2)
}

// ---------------------------------------------------------------- P02
fn mutated(s: &mut Src) -> R {
    let o = gen_objs(s);
    let mut t = to_text(s, &o).into_bytes();
    let n = s.us(1, 4);
    for _ in 0..n {
        if t.is_empty() {
            break;
        }
        let i = s.us(0, t.len() - 1);
        match s.us(0, 5) {
            0 => t.truncate(i),
            1 => {
                t.remove(i);
            }
            2 => {
                let c = *s.pick(b"{}()[]\"'/*\\,:\n0A-.e");
                t.insert(i, c)
            }
            3 => t[i] = s.draw(256) as u8,
            4 => {
                let j = (i + s.us(1, 40)).min(t.len());
                t.drain(i..j);
            }
            _ => {
                let j = (i + s.us(1, 60)).min(t.len());
                let c: Vec<u8> = t[i..j].to_vec();
                let k = s.us(0, t.len() - 1);
                t.splice(k..k, c);
            }
        }
    }
    s.note(|| String::from_utf8_lossy(&t).to_string());
    s.nontrivial_if(o.len() >= 3);
    if let Ok((m, h)) = Model::from_bytes(&t) {
        states(&m, &h)?;
        // what was accepted refers to things that exist
        refs(&m)?;
    }
    // and also as JSON
    if let Ok(x) = std::str::from_utf8(&t) {
        let _ = Model::from_json(x);
    }
    Ok(())
}
fn refs(m: &Model) -> R {
    let sp = |b: &Boundary| -> bool {
        match b {
            Boundary::Space { space } => m.spaces.iter().any(|x| x.name() == space),
            _ => true,
        }
    };
    for x in m.surfaces.iter() {
        ensure!(m.constructions.iter().any(|c| *c.name() == x.construction), "dangling", "surface '{}' refers to construction '{}', which does not exist", x.name(), x.construction);
        ensure!(sp(&x.front_boundary) && sp(&x.back_boundary), "dangling", "surface '{}' faces a space that does not exist", x.name());
    }
    for x in m.fenestrations.iter() {
        ensure!(
            x.category == model::FenestrationType::Opening || m.constructions.iter().any(|c| *c.name() == x.construction),
            "dangling",
            "fenestration '{}' refers to construction '{}', which does not exist",
            x.name(),
            x.construction
        );
        if let Ok(p) = x.parent_surface() {
            ensure!(m.surfaces.iter().any(|c| c.name() == p), "dangling", "fenestration '{}' refers to surface '{}', which does not exist", x.name(), p);
        }
    }
    for x in m.objects.iter() {
        if let Ok(p) = x.space() {
            ensure!(m.spaces.iter().any(|c| c.name() == p), "dangling", "object '{}' refers to space '{}', which does not exist", x.name, p);
        }
    }
    Ok(())
}
/// one mistake, in an otherwise correct model
fn mistakes(s: &mut Src) -> R {
    let mut o = gen_objs(s);
    let spaces = names(&o, "Space");
    let pick_ty = |s: &mut Src, o: &Objs, tys: &[&str]| -> Option<usize> {
        let c: Vec<usize> = (0..o.len()).filter(|i| tys.contains(&o[*i].0)).collect();
        if c.is_empty() {
            None
        } else {
            Some(*s.pick(&c))
        }
    };
    let what = match s.us(0, 9) {
        0 => pick_ty(s, &o, &["Surface", "Fenestration"]).map(|i| {
            let open = o[i].1.get("category") == Some(&json!("Opening"));
            o[i].1["construction"] = json!("nothing has this name");
            if open {
                o[i].1["category"] = json!("Door");
            }
            "a construction that does not exist".to_string()
        }),
        1 => pick_ty(s, &o, &["Surface"]).map(|i| {
            let k = if s.bool() { "front_boundary" } else { "back_boundary" };
            o[i].1[k] = json!({"type":"Space","space":"nothing has this name"});
            format!("a {} with a space that does not exist", k)
        }),
        2 => pick_ty(s, &o, &["Fenestration"]).map(|i| {
            o[i].1["parent_surface"] = json!("nothing has this name");
            "a parent that does not exist".to_string()
        }),
        3 => pick_ty(s, &o, &["Object"]).map(|i| {
            o[i].1["space"] = json!("nothing has this name");
            "an object in a space that does not exist".to_string()
        }),
        4 => {
            let i = s.us(0, o.len());
            let ty = *s.pick(&["Wall", "surface", "Spaces", "Site", "Window", "X"]);
            o.insert(i, (ty, json!({"name":"Hello"})));
            Some(format!("an object of type {}", ty))
        }
        5 => pick_ty(s, &o, &["Building", "Space", "Substance", "Material", "Construction", "Surface", "Fenestration", "HVAC", "Luminaire", "Object", "SiteDetails", "SolarOptions"]).map(|i| {
            o[i].1["not_a_field"] = json!(1.);
            format!("a {} with a field that does not exist", o[i].0)
        }),
        6 => pick_ty(s, &o, &["Building", "Space", "Substance", "Material", "Construction", "Surface", "Fenestration", "HVAC", "Luminaire", "Object"]).map(|i| {
            let mut ks = vec!["name"];
            match o[i].0 {
                "Material" => ks.extend(["substance", "thickness"]),
                "Construction" => ks.push("materials"),
                "Surface" | "Fenestration" => ks.extend(["vertices", "construction"]),
                "Substance" | "HVAC" => ks.push("type"),
                "Object" => ks.push("dimensions"),
                _ => {}
            }
            let k = *s.pick(&ks);
            o[i].1.as_object_mut().unwrap().remove(k);
            format!("a {} without {}", o[i].0, k)
        }),
        7 => pick_ty(s, &o, &["Surface", "Fenestration"]).map(|i| {
            let v = o[i].1["vertices"].as_array_mut().unwrap();
            match s.us(0, 2) {
                0 => {
                    v.pop();
                    "vertices whose number of coordinates is not a multiple of three".to_string()
                }
                1 => {
                    let k = s.us(0, v.len() - 1);
                    v[k] = json!("2");
                    "a coordinate that is not a number".to_string()
                }
                _ => {
                    v.truncate(6);
                    "only two vertices".to_string()
                }
            }
        }),
        8 => pick_ty(s, &o, &["Building", "Space", "Surface", "Fenestration", "SiteDetails", "HVAC", "Substance"]).map(|i| {
            let k = match o[i].0 {
                "Building" => "shelter_class",
                "Space" => {
                    o[i].1["infiltration"] = json!({"type":"Whatever","flow":1.});
                    "infiltration"
                }
                "Surface" | "Fenestration" => "category",
                "SiteDetails" => "terrain",
                _ => "type",
            };
            if k != "infiltration" {
                o[i].1[k] = json!("Whatever");
            }
            format!("a {} of unknown {}", o[i].0, k)
        }),
        _ => pick_ty(s, &o, &["Fenestration"]).and_then(|i| {
            // outside of its parent
            if o[i].1.get("parent_surface").is_none() {
                return None;
            }
            for x in o[i].1["vertices"].as_array_mut().unwrap() {
                *x = json!(x.as_f64().unwrap() + 100.);
            }
            Some("a fenestration that is not in its parent surface".to_string())
        }),
    };
    let what = match what {
        Some(w) => w,
        None => return Ok(()),
    };
    s.nontrivial();
    let _ = spaces;
    let text = to_text(s, &o);
    s.note(|| format!("{}:\n{}", what, text));
    if let Ok(_) = Model::from_bytes(text.as_bytes()) {
        bail!("accepted", "a model with {} was accepted\n{}", what, text);
    }
    Ok(())
}
/// what is truncated in the middle of an object is refused
fn truncated(s: &mut Src) -> R {
    let mut o = gen_objs(s);
    let last = s.us(0, o.len() - 1);
    let x = o.remove(last);
    let text = to_text(s, &o);
    let mut obj = String::new();
    emit(s, &x.1, &mut obj, true);
    let mut b = obj.into_bytes();
    let n = s.us(0, b.len() - 1);
    b.truncate(n);
    let mut t = text.into_bytes();
    t.extend_from_slice(x.0.as_bytes());
    if s.bool() {
        t.push(b' ');
    }
    t.extend_from_slice(&b);
    s.nontrivial_if(n > 0);
    s.note(|| String::from_utf8_lossy(&t).to_string());
    if Model::from_bytes(&t).is_ok() {
        bail!("accepted", "a model that ends in the middle of a {} was accepted\n{}", x.0, String::from_utf8_lossy(&t));
    }
    Ok(())
}
fn lookups(s: &mut Src) -> R {
    let (m, _, o) = model_of(s)?;
    macro_rules! look {
        ($list:ident, $get:ident) => {
            for x in m.$list.iter() {
                let g = m.$get(x.name()).map_err(|e| Fail { kind: "lookup".into(), msg: e })?;
                ensure!(g.name() == x.name(), "lookup", "looking for '{}' found '{}'", x.name(), g.name());
                let (a, b) = (serde_json::to_value(&g).unwrap(), serde_json::to_value(x).unwrap());
                ensure!(a == b, "lookup", "{} became {}", a, b);
            }
            ensure!(m.$get("this name is not used").is_err(), "lookup", "found something that is not there");
            // names that are nearly those of the objects
            for x in m.$list.iter() {
                let n = x.name().to_string();
                let shorter: String = n.chars().skip(1).collect();
                let chopped: String = n.chars().take(n.chars().count().saturating_sub(1)).collect();
                for v in [n.to_uppercase(), n.to_lowercase(), n.trim().to_string(), format!("{} ", n), format!("{}0", n), format!(" {}", n), shorter, chopped, String::new()] {
                    let there = m.$list.iter().any(|y| *y.name() == v);
                    ensure!(m.$get(&v).is_ok() == there, "lookup", "looking for '{}', which {}, {}", v, if there { "is there" } else { "is not there" }, if there { "found nothing" } else { "found something" });
                }
            }
        };
    }
    look!(buildings, get_building);
    look!(spaces, get_space);
    look!(substances, get_substance);
    look!(materials, get_material);
    look!(constructions, get_construction);
    look!(surfaces, get_surface);
    look!(fenestrations, get_fenestration);
    look!(hvacs, get_hvac);
    look!(luminaires, get_luminaire);
    for x in m.materials.iter() {
        let g = m.get_material_substance(x.name()).map_err(|e| Fail { kind: "lookup".into(), msg: e })?;
        ensure!(*g.name() == x.substance, "lookup", "substance of '{}' is '{}'", x.name(), g.name());
    }
    let sp = m.get_hvac_setpoints();
    for (_, h) in o.iter().filter(|x| x.0 == "HVAC") {
        let e = [h.get("heating_setpoint").and_then(|x| x.as_f64()), h.get("cooling_setpoint").and_then(|x| x.as_f64())];
        let g = sp.get(h["name"].as_str().unwrap());
        ensure!(g == Some(&e), "setpoints", "setpoints of {} are {:?}", h, g);
    }
    ensure!(sp.len() == m.hvacs.len(), "setpoints", "{} setpoints for {} HVACs", sp.len(), m.hvacs.len());
    // floor areas
    let (total, per) = m.get_space_sizes();
    let mut et = 0.;
    let mut ep: std::collections::HashMap<String, f64> = m.spaces.iter().map(|x| (x.name().clone(), 0.)).collect();
    for (_, f) in o.iter().filter(|x| x.0 == "Surface") {
        let c = f.get("category").and_then(|x| x.as_str()).unwrap_or("");
        if !["GroundFloor", "InteriorFloor", "ExteriorFloor"].contains(&c) {
            continue;
        }
        let n = normal_of(&f["vertices"]);
        if n[2].abs() < 1e-6 {
            return Ok(());
        }
        let b = f.get(if n[2] > 0. { "front_boundary" } else { "back_boundary" });
        if let Some(x) = b.and_then(|b| b.get("space")).and_then(|x| x.as_str()) {
            let holes: f64 = o.iter().filter(|x| x.0 == "Fenestration" && x.1.get("parent_surface") == Some(&f["name"])).map(|x| poly_area(&x.1["vertices"])).sum();
            let a = poly_area(&f["vertices"]) - holes;
            et += a;
            *ep.get_mut(x).unwrap() += a;
        }
    }
    ensure!(close(total, et, 1e-7, 1e-9), "floor_area", "total floor area is {} but should be {}", total, et);
    for (k, v) in ep {
        ensure!(per.get(&k).map(|x| close(*x, v, 1e-7, 1e-9)) == Some(true), "floor_area", "floor area of '{}' is {:?} but should be {}", k, per.get(&k), v);
    }
    let site = o.iter().find(|x| x.0 == "SiteDetails").map(|x| &x.1);
    let e = site.and_then(|x| Some((x.get("latitude")?.as_f64()?, x.get("longitude")?.as_f64()?, x.get("standard_meridian")?.as_f64()?)));
    ensure!(m.geolocation() == e, "geolocation", "geolocation is {:?} but should be {:?}", m.geolocation(), e);
    Ok(())
}
/// the model built through its functions refuses what is wrong and stays as it was
fn _unused(_: &Value) -> f64 {
    area2(&[])
}

pub fn p01() -> Property {
    Property {
        id: "P01",
        facets: vec![
            Facet::new("read_text", read_text, 4000, 400_000, "four objects or more"),
            Facet::new("text_round_trip", text_round_trip, 3000, 300_000, "four objects or more"),
            Facet::new("json_round_trip", json_round_trip, 3000, 300_000, "four objects or more"),
        ],
        assumptions: vec!["names are unique within a type", "numbers are compared to 13 digits"],
    }
}
pub fn p02() -> Property {
    Property {
        id: "P02",
        facets: vec![
            Facet::new("mistakes", mistakes, 6000, 500_000, "the mistake applies to some object of the model"),
            Facet::new("mutated", mutated, 6000, 1_000_000, "three objects or more before the mutation"),
            Facet::new("truncated", truncated, 3000, 200_000, "the last object was not empty"),
            Facet::new("lookups", lookups, 3000, 200_000, "four objects or more"),
        ],
        assumptions: vec![],
    }
}

// ------------------------------------------------------------- what the objects say of themselves
/// The sectors, by the angle from the north (y), clockwise; None close to the limits
fn sector(n: [f64; 3]) -> Option<&'static str> {
    let tilt = n[2].abs().asin().to_degrees();
    if (tilt - 45.).abs() < 1e-3 {
        return None;
    }
    if tilt > 45. {
        return Some("horizontal");
    }
    let a = n[0].atan2(n[1]).to_degrees().rem_euclid(360.) / 45. + 0.5;
    if (a - a.round()).abs() < 1e-5 {
        return None;
    }
    Some(["north", "north east", "east", "south east", "south", "south west", "west", "north west"][a.floor() as usize % 8])
}
fn orientations(s: &mut Src) -> R {
    let el = match s.us(0, 3) {
        0 => 0.,
        1 => s.uniform(44., 46.),
        _ => s.uniform(0., 90.),
    };
    let el = el * s.sign();
    let az = match s.us(0, 2) {
        0 => 45. * s.us(0, 7) as f64,
        1 => 22.5 + 45. * s.us(0, 7) as f64 + s.uniform(-0.5, 0.5),
        _ => s.uniform(0., 360.),
    };
    let (e, a) = (el.to_radians(), az.to_radians());
    let n = [e.cos() * a.sin(), e.cos() * a.cos(), e.sin()];
    s.nontrivial_if(el.abs() < 45.);
    s.note(|| format!("elevation {} azimuth {}", el, az));
    let o = model::get_orientation(geometry::Vector3D::new(n[0], n[1], n[2]));
    if let Some(x) = sector(n) {
        ensure!(o.to_str() == x && format!("{}", o) == x, "sector", "elevation {} azimuth {} is {} instead of {}", el, az, o.to_str(), x);
    }
    Ok(())
}
fn queries(s: &mut Src) -> R {
    use model::{hvac::SmallHVAC, SurfaceTrait, HVAC};
    let (m, _, o) = any_model(s)?;
    let bt = |f: &Value, k: &str, d: &str| -> String { f.get(k).and_then(|b| b.get("type")).and_then(|b| b.as_str()).unwrap_or(d).to_string() };
    let mut sides = 0;
    macro_rules! look {
        ($ty:literal, $list:ident) => {
            for (x, (_, f)) in m.$list.iter().zip(o.iter().filter(|x| x.0 == $ty)) {
                let n = normal_of(&f["vertices"]);
                let what = format!("{} {}", $ty, f);
                let g = x.normal();
                ensure!((g.x - n[0]).abs() + (g.y - n[1]).abs() + (g.z - n[2]).abs() < 1e-6, "normal", "{}: normal {:?} instead of {:?}", what, g, n);
                let holes: f64 = o.iter().filter(|y| $ty == "Surface" && y.0 == "Fenestration" && y.1.get("parent_surface") == Some(&f["name"])).map(|y| poly_area(&y.1["vertices"])).sum();
                let a = poly_area(&f["vertices"]) - holes;
                ensure!(close(x.area(), a, 1e-6, 1e-6), "area", "{}: area {} instead of {}", what, x.area(), a);
                let v: Vec<f64> = f["vertices"].as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect();
                let b = x.bbox()?;
                for (i, (lo, hi)) in [(b.min.x, b.max.x), (b.min.y, b.max.y), (b.min.z, b.max.z)].into_iter().enumerate() {
                    let (a, c) = v.chunks(3).fold((f64::MAX, f64::MIN), |a, q| (a.0.min(q[i]), a.1.max(q[i])));
                    ensure!(close(lo, a, 1e-9, 1e-9) && close(hi, c, 1e-9, 1e-9), "bbox", "{}: {} to {} instead of {} to {}", what, lo, hi, a, c);
                }
                // windows in a surface lead to where the surface leads
                let own = o.iter().find(|y| y.0 == "Surface" && f.get("parent_surface") == Some(&y.1["name"])).map(|y| &y.1).unwrap_or(f);
                let (mut front, mut back) = (bt(own, "front_boundary", "Outdoor"), bt(own, "back_boundary", "Outdoor"));
                let w = normal_of(&own["vertices"]);
                if w[0] * n[0] + w[1] * n[1] + w[2] * n[2] < 0. {
                    std::mem::swap(&mut front, &mut back);
                }
                if let Some(e) = sector(n) {
                    ensure!(x.orientation().to_str() == e, "orientation", "{}: faces {} instead of {}", what, x.orientation(), e);
                    let r = sector([-n[0], -n[1], -n[2]]).unwrap_or(e);
                    let (out, inn) = match (front.as_str(), back.as_str()) {
                        ("Outdoor", "Space") => (Some(e), Some(r)),
                        ("Space", "Outdoor") => (Some(r), Some(e)),
                        _ => (None, None),
                    };
                    sides += out.is_some() as usize;
                    let g = x.outside_orientation();
                    ensure!(g.as_ref().map(|z| z.to_str()) == out, "outside", "{}: its outside faces {:?} instead of {:?}", what, g.map(|z| z.to_string()), out);
                    let g = x.inside_orientation();
                    ensure!(g.as_ref().map(|z| z.to_str()) == inn, "inside", "{}: its inside faces {:?} instead of {:?}", what, g.map(|z| z.to_string()), inn);
                }
            }
        };
    }
    look!("Surface", surfaces);
    look!("Fenestration", fenestrations);
    for (x, (_, f)) in m.fenestrations.iter().zip(o.iter().filter(|x| x.0 == "Fenestration")) {
        let e = matches!(f.get("operation").and_then(|x| x.get("type")).and_then(|x| x.as_str()), Some("Continuous") | Some("Binary"));
        ensure!(x.is_operable() == e, "operable", "{} is {}operable", f, if e { "not " } else { "" });
        let l = x.clone_loop();
        ensure!(l.len() == x.vertices.outer().len() && close(l.area()?, poly_area(&f["vertices"]), 1e-6, 1e-6), "clone_loop", "{}: {:?}", f, l.vertices());
    }
    for (x, (_, f)) in m.hvacs.iter().zip(o.iter().filter(|x| x.0 == "HVAC")) {
        fn all(x: &dyn SmallHVAC) -> [Option<f64>; 4] {
            [x.heating_setpoint().ok(), x.cooling_setpoint().ok(), x.max_heating_power().ok(), x.max_cooling_power().ok()]
        }
        let (g, t, el) = match x {
            HVAC::ElectricHeater(x) => (all(&**x), SmallHVAC::target_space(&**x).ok().cloned(), true),
            HVAC::IdealHeaterCooler(x) => (all(&**x), SmallHVAC::target_space(&**x).ok().cloned(), false),
        };
        let k = |n: &str| f.get(n).and_then(|x| x.as_f64());
        let e = [k("heating_setpoint"), k("cooling_setpoint"), k("max_heating_power"), k("max_cooling_power")];
        ensure!(g == e, "hvac", "{} (electric: {}): set points and powers are {:?} instead of {:?}", f, el, g, e);
        ensure!(t.as_deref() == f.get("target_space").and_then(|x| x.as_str()), "hvac", "{}: target space is {:?}", f, t);
    }
    for (x, (_, f)) in m.substances.iter().zip(o.iter().filter(|x| x.0 == "Substance")) {
        if let model::Substance::Normal(x) = x {
            let k = |n: &str| f.get(n).and_then(|x| x.as_f64());
            let e = (|| Some(k("thermal_conductivity")? / (k("density")? * k("specific_heat_capacity")?)))();
            let g = x.thermal_diffusivity().ok();
            ensure!(g.is_some() == e.is_some() && e.map(|e| close(g.unwrap(), e, 1e-9, 0.) || !e.is_finite()).unwrap_or(true), "diffusivity", "{}: {:?} instead of {:?}", f, g, e);
        }
    }
    s.nontrivial_if(sides > 0);
    s.note(|| format!("{} surfaces, {} windows, {} between indoors and outdoors", m.surfaces.len(), m.fenestrations.len(), sides));
    Ok(())
}
pub fn p15() -> Property {
    Property {
        id: "P15",
        facets: vec![
            Facet::new("orientations", orientations, 40_000, 2_000_000, "not horizontal"),
            Facet::new("queries", queries, 6000, 300_000, "a surface or window is between a space and the outdoors"),
        ],
        assumptions: vec!["orientations within 0.001 degrees of the limit between two sectors are not judged".into()],
    }
}
