//! P03 simulation state and control scripts
use fw::*;
use model::{Model, SimulationState, SimulationStateElement as E, SimulationStateHeader};
use std::sync::{Arc, Mutex};

/// 0 personal, 1 operational, 2 physical
fn element(s: &mut Src, kind: usize) -> E {
    let i = s.us(0, 5);
    match kind {
        0 => E::Clothing,
        1 => match s.us(0, 2) {
            0 => E::FenestrationOpenFraction(i),
            1 => E::HeatingCoolingPowerConsumption(i),
            _ => E::LuminairePowerConsumption(i),
        },
        _ => match s.us(0, 7) {
            0 => E::SurfaceFrontConvectionCoefficient(i),
            1 => E::SurfaceBackSolarIrradiance(i),
            2 => E::FenestrationFrontIRIrradiance(i),
            3 => E::SpaceDryBulbTemperature(i),
            4 => E::SpaceInfiltrationVolume(i),
            5 => E::SpaceVentilationTemperature(i),
            6 => E::SurfaceBackConvectiveHeatFlow(i),
            _ => E::FenestrationBackConvectionCoefficient(i),
        },
    }
}
fn header(s: &mut Src) -> R {
    let mut h = SimulationStateHeader::new();
    let mut model: Vec<(usize, E, f64)> = vec![];
    let mut stage = 0;
    let n = s.few(1, 25, 300);
    let mut log = String::new();
    let mut refused = 0;
    for i in 0..n {
        let kind = if s.chance(1, 4) { s.us(0, 2) } else { (stage + s.us(0, 1) * s.us(0, 1)).min(2) };
        let e = element(s, kind);
        let v = 10. + i as f64;
        ensure!(e.is_personal() == (kind == 0) && e.is_operational() == (kind == 1) && e.is_physical() == (kind == 2), "kind", "{:?} has the wrong kind", e);
        log.push_str(&format!("push {:?} {}\n", e, v));
        let r = h.push(e, v);
        if kind < stage {
            refused += 1;
            ensure!(r.is_err(), "order", "{:?} was accepted after elements of a later kind\n{}", e, log);
        } else {
            stage = kind;
            ensure!(r == Ok(model.len()), "index", "{:?} got {:?} but should get {}\n{}", e, r, model.len(), log);
            model.push((kind, e, v));
        }
        ensure!(h.len() == model.len() && h.is_empty() == model.is_empty(), "len", "{} elements, but should be {}", h.len(), model.len());
    }
    s.note(|| log.clone());
    s.nontrivial_if(refused > 0 && model.iter().any(|x| x.0 == 1) && model.iter().any(|x| x.0 == 2));
    ensure!(h.n_individual() == model.iter().filter(|x| x.0 == 0).count(), "counts", "{} personal", h.n_individual());
    ensure!(h.n_operational() == model.iter().filter(|x| x.0 == 1).count(), "counts", "{} operational", h.n_operational());
    for (i, x) in model.iter().enumerate() {
        ensure!(h[i] == x.1, "element", "element {} is {:?}, not {:?}", i, h[i], x.1);
    }
    let st = h.take_values();
    let st = match st {
        Some(s) => s,
        None => bail!("values", "no values"),
    };
    ensure!(st == model.iter().map(|x| x.2).collect::<Vec<f64>>(), "values", "values are {:?}", st);
    ensure!(h.take_values().is_none(), "values", "values were taken twice");
    let e = element(s, 2);
    ensure!(h.push(e, 1.).is_err(), "late", "an element was accepted after taking the values");
    // copying
    let from: SimulationState = st.iter().map(|x| x + 1000.).collect();
    let mut h = SimulationStateHeader::new();
    for x in &model {
        h.push(x.1, x.2)?;
    }
    for kind in 0..3 {
        let mut to = st.clone();
        match kind {
            0 => h.copy_individual_state(&from, &mut to),
            1 => h.copy_operational_state(&from, &mut to),
            _ => h.copy_physical_state(&from, &mut to),
        }
        for (i, x) in model.iter().enumerate() {
            let e = if x.0 == kind { from[i] } else { st[i] };
            ensure!(to[i] == e, "copy", "copying kind {}: element {} ({:?}) is {} but should be {}", kind, i, x.1, to[i], e);
        }
    }
    Ok(())
}

const SPACE: [&str; 7] = ["dry_bulb_temperature", "brightness", "loudness", "infiltration_volume", "infiltration_temperature", "ventilation_volume", "ventilation_temperature"];
const SURF: [&str; 10] = [
    "front_temperature",
    "back_temperature",
    "front_convection_coefficient",
    "back_convection_coefficient",
    "front_convective_heat_flow",
    "back_convective_heat_flow",
    "front_incident_solar_irradiance",
    "back_incident_solar_irradiance",
    "front_ir_irradiance",
    "back_ir_irradiance",
];

/// A property of an object: how it is named in scripts, and its index in the state (if it was given one)
struct Prop {
    obj: String,
    by_index: String,
    prop: &'static str,
    index: Option<usize>,
}
macro_rules! surf_indices {
    ($s:expr, $f:expr, $n:expr) => {{
        let mut r = vec![];
        macro_rules! one {
            ($set:ident) => {
                if $s.chance(5, 6) {
                    $f.$set($n)?;
                    r.push(Some($n));
                    $n += 1;
                } else {
                    r.push(None);
                }
            };
        }
        one!(set_first_node_temperature_index);
        one!(set_last_node_temperature_index);
        one!(set_front_convection_coefficient_index);
        one!(set_back_convection_coefficient_index);
        one!(set_front_convective_heat_flow_index);
        one!(set_back_convective_heat_flow_index);
        one!(set_front_incident_solar_irradiance_index);
        one!(set_back_incident_solar_irradiance_index);
        one!(set_front_ir_irradiance_index);
        one!(set_back_ir_irradiance_index);
        r
    }};
}
fn world(s: &mut Src) -> Result<(Arc<Model>, SimulationState, Vec<Prop>), Fail> {
    let mut t = String::from("Construction { name: 'c', materials: [] }\n");
    let nm = |s: &mut Src, k: &str, i: usize| -> String { format!("{} {}{}", s.pick(&["The", "A b", "ñ", "x"]), k, i) };
    let mut names: [Vec<String>; 5] = Default::default();
    for i in 0..s.few(0, 3, 20) {
        let n = nm(s, "space", i);
        t += &format!("Space {{ name: \"{}\" }}\n", n);
        names[0].push(n);
    }
    for i in 0..s.few(0, 2, 20) {
        let n = nm(s, "surface", i);
        t += &format!("Surface {{ name: \"{}\", construction: 'c', vertices: [0,0,0, 1,0,0, 1,1,0] }}\n", n);
        names[1].push(n);
    }
    for i in 0..s.few(0, 2, 20) {
        let n = nm(s, "fenestration", i);
        t += &format!("Fenestration {{ name: \"{}\", construction: 'c', vertices: [0,0,0, 1,0,0, 1,1,0] }}\n", n);
        names[2].push(n);
    }
    for i in 0..s.few(0, 3, 20) {
        let n = nm(s, "hvac", i);
        t += &format!("HVAC {{ name: \"{}\", type: '{}' }}\n", n, s.pick(&["IdealHeaterCooler", "ElectricHeater"]));
        names[3].push(n);
    }
    for i in 0..s.few(0, 3, 20) {
        let n = nm(s, "luminaire", i);
        t += &format!("Luminaire {{ name: \"{}\" }}\n", n);
        names[4].push(n);
    }
    let (m, mut h) = Model::from_bytes(t.as_bytes())?;
    let mut st = h.take_values().unwrap();
    let mut n = st.len();
    let mut props = vec![];
    for (i, x) in m.spaces.iter().enumerate() {
        let mut r: Vec<Option<usize>> = vec![];
        macro_rules! one {
            ($set:ident) => {
                if s.chance(5, 6) {
                    x.$set(n)?;
                    ensure!(x.$set(n + 1).is_err(), "twice", "index was set twice");
                    r.push(Some(n));
                    n += 1;
                } else {
                    r.push(None);
                }
            };
        }
        one!(set_dry_bulb_temperature_index);
        one!(set_brightness_index);
        one!(set_loudness_index);
        one!(set_infiltration_volume_index);
        one!(set_infiltration_temperature_index);
        one!(set_ventilation_volume_index);
        one!(set_ventilation_temperature_index);
        for (k, p) in SPACE.iter().enumerate() {
            props.push(Prop { obj: format!("space(\"{}\")", names[0][i]), by_index: format!("space({})", i), prop: p, index: r[k] });
        }
    }
    for (i, x) in m.surfaces.iter().enumerate() {
        let r = surf_indices!(s, x, n);
        for (k, p) in SURF.iter().enumerate() {
            props.push(Prop { obj: format!("surface(\"{}\")", names[1][i]), by_index: format!("surface({})", i), prop: p, index: r[k] });
        }
    }
    for (i, x) in m.fenestrations.iter().enumerate() {
        let r = surf_indices!(s, x, n);
        for (k, p) in SURF.iter().enumerate() {
            props.push(Prop { obj: format!("fenestration(\"{}\")", names[2][i]), by_index: format!("fenestration({})", i), prop: p, index: r[k] });
        }
        props.push(Prop { obj: format!("fenestration(\"{}\")", names[2][i]), by_index: format!("fenestration({})", i), prop: "open_fraction", index: x.open_fraction_index() });
    }
    for i in 0..m.hvacs.len() {
        let index = h.elements.iter().position(|e| *e == E::HeatingCoolingPowerConsumption(i));
        props.push(Prop { obj: format!("hvac(\"{}\")", names[3][i]), by_index: format!("hvac({})", i), prop: "power_consumption", index });
    }
    for i in 0..m.luminaires.len() {
        let index = h.elements.iter().position(|e| *e == E::LuminairePowerConsumption(i));
        props.push(Prop { obj: format!("luminaire(\"{}\")", names[4][i]), by_index: format!("luminaire({})", i), prop: "power_consumption", index });
    }
    st.resize(n, 0.);
    for v in st.iter_mut() {
        *v = s.int(-40, 40) as f64 / 4.;
    }
    Ok((Arc::new(m), st, props))
}
/// scripts read and write exactly the elements of the state that they name
fn scripts(s: &mut Src) -> R {
    let (m, st0, props) = world(s)?;
    if props.is_empty() {
        return Ok(());
    }
    let mut st = st0.clone();
    let mut script = String::new();
    let n = s.few(1, 8, 40);
    let mut fails = false;
    for _ in 0..n {
        let a = s.us(0, props.len() - 1);
        let b = s.us(0, props.len() - 1);
        let (pa, pb) = (&props[a], &props[b]);
        let na = if s.bool() { &pa.obj } else { &pa.by_index };
        let nb = if s.bool() { &pb.obj } else { &pb.by_index };
        let c = s.int(-20, 20);
        match s.us(0, 4) {
            0 => {
                // a constant (integers too)
                if s.bool() {
                    script += &format!("{{ let o = {}; o.{} = {}; }}\n", na, pa.prop, c);
                } else {
                    script += &format!("{{ let o = {}; o.{} = {}.5; }}\n", na, pa.prop, c.abs());
                }
                match pa.index {
                    Some(i) => st[i] = if script.ends_with(".5; }\n") { c.abs() as f64 + 0.5 } else { c as f64 },
                    None => fails = true,
                }
            }
            1 => {
                script += &format!("{{ let o = {}; o.{} = {}.{} + {}.0; }}\n", na, pa.prop, nb, pb.prop, c.abs());
                match (pa.index, pb.index) {
                    (Some(i), Some(j)) => st[i] = st[j] + c.abs() as f64,
                    _ => fails = true,
                }
            }
            2 => {
                script += &format!("if {}.{} > {}.0 {{ let o = {}; o.{} = 1.25; }}\n", nb, pb.prop, c.abs(), na, pa.prop);
                match pb.index {
                    Some(j) => {
                        if st[j] > c.abs() as f64 {
                            match pa.index {
                                Some(i) => st[i] = 1.25,
                                None => fails = true,
                            }
                        }
                    }
                    None => fails = true,
                }
            }
            3 => {
                script += &format!("{{ let o = {}; o.{} = o.{} * 2.0; }}\n", na, pa.prop, pa.prop);
                match pa.index {
                    Some(i) => st[i] *= 2.,
                    None => fails = true,
                }
            }
            _ => {
                if s.chance(1, 3) {
                    let t = *s.pick(&["space", "surface", "fenestration", "hvac", "luminaire"]);
                    let arg = *s.pick(&["\"nothing has this name\"", "-1", "1000"]);
                    script += &format!("let z = {}({});\n", t, arg);
                    fails = true;
                } else {
                    script += &format!("let y = {}.{};\n", na, pa.prop);
                    if pa.index.is_none() {
                        fails = true
                    }
                }
            }
        }
        if fails {
            break;
        }
    }
    s.note(|| script.clone());
    s.nontrivial_if(st != st0);
    let shared = Arc::new(Mutex::new(st0.clone()));
    let mut engine = rhai::Engine::new();
    model::rhai_api::register_control_api(&mut engine, &m, &shared, s.bool());
    let r = engine.run(&script);
    ensure!(r.is_err() == fails, "outcome", "script\n{}\nreturned {:?} but should {}", script, r, if fails { "fail" } else { "work" });
    let got = shared.lock().unwrap().clone();
    for i in 0..st.len() {
        ensure!(got[i] == st[i], "state", "after\n{}\nstate {} is {} but should be {} (it was {})", script, i, got[i], st[i], st0[i]);
    }
    Ok(())
}
/// the names by which outputs are requested identify each element
fn output_names(s: &mut Src) -> R {
    let (m, _, _) = world(s)?;
    let mut seen = std::collections::HashMap::new();
    let mut try_one = |e: E, ty: &str, nm: &str| -> R {
        let t = e.stringify(&m);
        let o: model::Output = json5::from_str(&t).map_err(|x| Fail { kind: "unreadable".into(), msg: format!("{}: {}", t, x) })?;
        let v = serde_json::to_value(&o).unwrap();
        ensure!(v == serde_json::json!({ty: nm}), "name", "{:?} is requested by {} ({}), but should be by {}: {}", e, t, v, ty, nm);
        if let Some(p) = seen.insert(t.clone(), e) {
            bail!("ambiguous", "{:?} and {:?} are both called {}", p, e, t);
        }
        Ok(())
    };
    for (i, x) in m.spaces.iter().enumerate() {
        try_one(E::SpaceDryBulbTemperature(i), "SpaceDryBulbTemperature", x.name())?;
        try_one(E::SpaceInfiltrationVolume(i), "SpaceInfiltrationVolume", x.name())?;
        try_one(E::SpaceInfiltrationTemperature(i), "SpaceInfiltrationTemperature", x.name())?;
        try_one(E::SpaceVentilationVolume(i), "SpaceVentilationVolume", x.name())?;
        try_one(E::SpaceVentilationTemperature(i), "SpaceVentilationTemperature", x.name())?;
    }
    for (i, x) in m.surfaces.iter().enumerate() {
        try_one(E::SurfaceFrontConvectionCoefficient(i), "SurfaceFrontConvectionCoefficient", x.name())?;
        try_one(E::SurfaceBackConvectionCoefficient(i), "SurfaceBackConvectionCoefficient", x.name())?;
        try_one(E::SurfaceFrontSolarIrradiance(i), "SurfaceFrontSolarIrradiance", x.name())?;
        try_one(E::SurfaceBackSolarIrradiance(i), "SurfaceBackSolarIrradiance", x.name())?;
        try_one(E::SurfaceFrontIRIrradiance(i), "SurfaceFrontIRIrradiance", x.name())?;
        try_one(E::SurfaceBackIRIrradiance(i), "SurfaceBackIRIrradiance", x.name())?;
    }
    for (i, x) in m.fenestrations.iter().enumerate() {
        try_one(E::FenestrationOpenFraction(i), "FenestrationOpenFraction", x.name())?;
        try_one(E::FenestrationFrontSolarIrradiance(i), "FenestrationFrontSolarIrradiance", x.name())?;
        try_one(E::FenestrationBackIRIrradiance(i), "FenestrationBackIRIrradiance", x.name())?;
        try_one(E::FenestrationFrontConvectiveHeatFlow(i), "FenestrationFrontConvectiveHeatFlow", x.name())?;
    }
    for (i, x) in m.hvacs.iter().enumerate() {
        try_one(E::HeatingCoolingPowerConsumption(i), "HeatingCoolingPowerConsumption", x.name())?;
    }
    for (i, x) in m.luminaires.iter().enumerate() {
        try_one(E::LuminairePowerConsumption(i), "LuminairePowerConsumption", x.name())?;
    }
    s.nontrivial_if(m.spaces.len() + m.surfaces.len() + m.fenestrations.len() + m.hvacs.len() + m.luminaires.len() > 3);
    Ok(())
}
/// the conveniences of surfaces and fenestrations read and write the element that they name
fn surface_state(s: &mut Src) -> R {
    let (m, st0, props) = world(s)?;
    let _ = props;
    let mut n_set = 0;
    macro_rules! both {
        ($x:expr) => {
            macro_rules! one {
                ($get:ident, $set:ident, $idx:ident) => {
                    let mut st = st0.clone();
                    let v = 1234.5;
                    let r = $x.$set(&mut st, v);
                    match $x.$idx() {
                        Some(i) => {
                            n_set += 1;
                            ensure!(r.is_ok(), "set", "{} failed: {:?}", stringify!($set), r);
                            ensure!($x.$get(&st) == Some(v), "get", "{} is {:?}", stringify!($get), $x.$get(&st));
                            ensure!((0..st.len()).all(|k| st[k] == if k == i { v } else { st0[k] }), "others", "{} changed something else", stringify!($set));
                        }
                        None => {
                            ensure!(r.is_err() && $x.$get(&st).is_none() && st == st0, "unset", "{} worked without an index", stringify!($set));
                        }
                    }
                };
            }
            one!(first_node_temperature, set_first_node_temperature, first_node_temperature_index);
            one!(last_node_temperature, set_last_node_temperature, last_node_temperature_index);
            one!(front_convection_coefficient, set_front_convection_coefficient, front_convection_coefficient_index);
            one!(back_convection_coefficient, set_back_convection_coefficient, back_convection_coefficient_index);
            one!(front_convective_heat_flow, set_front_convective_heat_flow, front_convective_heat_flow_index);
            one!(back_convective_heat_flow, set_back_convective_heat_flow, back_convective_heat_flow_index);
            one!(front_incident_solar_irradiance, set_front_incident_solar_irradiance, front_incident_solar_irradiance_index);
            one!(back_incident_solar_irradiance, set_back_incident_solar_irradiance, back_incident_solar_irradiance_index);
            one!(front_ir_irradiance, set_front_ir_irradiance, front_ir_irradiance_index);
            one!(back_ir_irradiance, set_back_ir_irradiance, back_ir_irradiance_index);
        };
    }
    for x in m.surfaces.iter() {
        both!(x);
    }
    for x in m.fenestrations.iter() {
        both!(x);
    }
    s.nontrivial_if(n_set > 0);
    Ok(())
}

pub fn p03() -> Property {
    Property {
        id: "P03",
        facets: vec![
            Facet::new("header", header, 6000, 400_000, "operational and physical elements, and some refused"),
            Facet::new("scripts", scripts, 1500, 60_000, "the script changes the state").threads(8),
            Facet::new("output_names", output_names, 2000, 100_000, "more than three objects"),
            Facet::new("surface_state", surface_state, 3000, 100_000, "some state was assigned"),
        ],
        assumptions: vec![],
    }
}
