//! R10 the programs
use crate::geom::{dir, pt};
use crate::images::{pixel, Tmp};
use crate::sim::{building, device_script, optics, weather};
use fw::*;
use geometry::{Point3D, Vector3D};
use model::{Model, SimulationStateHeader};
use rendering::colour_matrix::read_colour_matrix;
use rendering::colourmap::Colourmap;
use rendering::image::ImageBuffer;
use rendering::{Film, Pinhole, RayTracer, Scene, View};
use serde_json::{json, Value};
use simple::run_simulation::{run, run_rhai, SimOptions};
use simple::{OccupantBehaviour, VoidControl};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
/// Runs one of the programs of the repository
fn program(name: &str, args: &[String], t: &Tmp) -> Result<Ran, Fail> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let exe = exe.parent().ok_or("no folder")?.join(name);
    let (o, e) = (t.file("stdout"), t.file("stderr"));
    let file = |p: &PathBuf| std::fs::File::create(p).map_err(|e| e.to_string());
    let mut c = Command::new(&exe)
        .args(args)
        .current_dir(&t.0)
        .env("RAYON_NUM_THREADS", "2")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(file(&o)?)
        .stderr(file(&e)?)
        .spawn()
        .map_err(|e| format!("{}: {}", exe.display(), e))?;
    let from = Instant::now();
    let code = loop {
        match c.try_wait().map_err(|e| e.to_string())? {
            Some(s) => break s.code(),
            None => {
                if from.elapsed() > Duration::from_secs(60) {
                    let _ = c.kill();
                    let _ = c.wait();
                    bail!("hangs", "{} {:?} does not finish", name, args);
                }
                std::thread::sleep(Duration::from_millis(if from.elapsed() < Duration::from_millis(50) { 1 } else { 10 }));
            }
        }
    };
    let out = std::fs::read(&o).map_err(|e| e.to_string())?;
    let err = String::from_utf8_lossy(&std::fs::read(&e).map_err(|e| e.to_string())?).to_string();
    Ok(Ran { code, out, err })
}
/// It worked, or it said that it did not
fn ended(r: &Ran, well: bool, what: &str) -> R {
    if well {
        ensure!(r.code == Some(0), "failed", "{} ended with {:?}: {}", what, r.code, r.err);
    } else {
        ensure!(r.code.is_some() && r.code != Some(0), "accepted", "{} ended with {:?}: {}", what, r.code, r.err);
        ensure!(r.code != Some(101), "panicked", "{} crashed: {}", what, r.err);
        ensure!(!r.err.is_empty(), "silent", "{} failed and did not say why", what);
    }
    Ok(())
}
fn arg(p: &Path) -> String {
    p.to_string_lossy().to_string()
}
fn list(a: &[&str]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}
fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => close(x.as_f64().unwrap(), y.as_f64().unwrap(), 1e-9, 1e-9),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| alike(x, y)),
        (Value::Object(x), Value::Object(y)) => {
            let has = |x: &Value| !x.is_null();
            x.iter().all(|(k, v)| alike(v, y.get(k).unwrap_or(&Value::Null))) && y.iter().all(|(k, v)| x.contains_key(k) || !has(v))
        }
        _ => a == b,
    }
}
fn load(p: &Path) -> Result<(Model, SimulationStateHeader), String> {
    if arg(p).ends_with(".json") {
        Model::from_json_file(arg(p))
    } else {
        Model::from_file(arg(p))
    }
}
fn value(m: &Model) -> Value {
    serde_json::to_value(m).unwrap()
}
fn translate(s: &mut Src) -> R {
    let w = building(s, false);
    let t = Tmp::new();
    let (m, _) = Model::from_json(&w.j.to_string())?;
    let ext = *s.pick(&["json", "spl"]);
    let input = t.file(&format!("{}.{}", s.pick(&["a", "a.spl", "a.json", "the model"]), ext));
    if ext == "json" {
        m.print_to_json_file(&arg(&input))?;
    } else {
        m.print_to_file(&arg(&input))?;
    }
    let to = *s.pick(&["json", "spl", "txt", "csv"]);
    let output = t.file(&format!("{}.{}", s.pick(&["b", "b.json", "the other"]), to));
    let broken = s.chance(1, 3);
    if broken {
        let mut b = std::fs::read(&input).map_err(|e| e.to_string())?;
        let k = s.us(0, b.len() - 1);
        match s.us(0, 2) {
            0 => b.truncate(k),
            1 => b[k] = s.draw(256) as u8,
            _ => {
                b.remove(k);
            }
        }
        std::fs::write(&input, &b).map_err(|e| e.to_string())?;
    }
    let expected = load(&input).map(|x| value(&x.0));
    s.nontrivial_if(w.devices.len() + w.spaces > 2);
    s.note(|| format!("{} to {} {} {}", arg(&input), arg(&output), expected.is_ok(), w.j));
    // just read it
    let r = program("simple", &list(&["--check", "-i", &arg(&input)]), &t)?;
    ended(&r, expected.is_ok(), "--check")?;
    ensure!(r.out.is_empty(), "output", "--check wrote {:?}", String::from_utf8_lossy(&r.out));
    // write it
    let r = program("simple", &list(&["-i", &arg(&input), *s.pick(&["-t", "--translate"]), &arg(&output)]), &t)?;
    let can = to == "json" || to == "spl";
    ended(&r, expected.is_ok() && can, "the translation")?;
    ensure!(r.out.is_empty(), "output", "the translation wrote {:?}", String::from_utf8_lossy(&r.out));
    ensure!(output.exists() == (expected.is_ok() && can), "file", "{} {} there", arg(&output), if output.exists() { "is" } else { "is not" });
    if let (Ok(e), true) = (&expected, can) {
        let (g, _) = load(&output).map_err(|e| Fail { kind: "unreadable".into(), msg: e })?;
        let g = value(&g);
        ensure!(alike(e, &g), "translation", "{} became {}", e, g);
        // and back
        let back = t.file(&format!("back.{}", ext));
        let r = program("simple", &list(&["-i", &arg(&output), "-t", &arg(&back)]), &t)?;
        ended(&r, true, "the translation")?;
        let (g, _) = load(&back).map_err(|e| Fail { kind: "unreadable".into(), msg: e })?;
        let g = value(&g);
        ensure!(alike(e, &g), "translation", "{} became {} after two translations", e, g);
    }
    // not a model
    if s.chance(1, 4) {
        let other = t.file(*s.pick(&["no.json", "no.spl", "yes.txt", "yes"]));
        if arg(&other).contains("yes") {
            std::fs::copy(&input, &other).map_err(|e| e.to_string())?;
        }
        let r = program("simple", &list(&["--check", "-i", &arg(&other)]), &t)?;
        ended(&r, false, "a file that is not a model")?;
    }
    Ok(())
}
fn simulate(s: &mut Src) -> R {
    let mut w = building(s, true);
    let t = Tmp::new();
    let traced = s.chance(1, 4);
    if traced {
        w.j["solar_options"] = json!({"n_solar_irradiance_points":1,"solar_ambient_divitions":10,"solar_sky_discretization":1});
    } else {
        let path = t.file("optical.json");
        let mf = *s.pick(&[1usize, 1, 2]);
        w.j["solar_options"] = json!({"optical_data_path":arg(&path),"solar_sky_discretization":mf});
        let o = optics(s, &w.j, mf);
        std::fs::write(&path, serde_json::to_string(&o).unwrap()).unwrap();
    }
    let (m, _) = Model::from_json(&w.j.to_string())?;
    let input = t.file(*s.pick(&["in.json", "in.spl"]));
    if arg(&input).ends_with("json") {
        m.print_to_json_file(&arg(&input))?;
    } else {
        m.print_to_file(&arg(&input))?;
    }
    let wx = weather(s);
    let wf = t.file(*s.pick(&["here.epw", "here.sw"]));
    std::fs::write(&wf, if arg(&wf).ends_with("epw") { wx.epw.clone() } else { wx.json.to_string() }).unwrap();
    let n = *s.pick(&[1usize, 1, 2, 3, 4, 6, 12]);
    let kind = s.us(0, 2);
    let mut args = list(&["-i", &arg(&input), "-w", &arg(&wf)]);
    if n != 1 || s.bool() {
        args.extend(list(&[*s.pick(&["-n", "--n"]), &n.to_string()]));
    }
    let script = t.file("control.rhai");
    match kind {
        0 => (),
        1 => args.extend(list(&["-c", "people"])),
        _ => {
            std::fs::write(&script, device_script(&w)).unwrap();
            args.extend(list(&["--control-file", &arg(&script)]));
        }
    }
    let to_file = s.bool();
    let report = t.file("report.csv");
    if to_file {
        args.extend(list(&["-o", &arg(&report)]));
        if s.bool() {
            // something longer was there
            std::fs::write(&report, "x".repeat(100_000)).unwrap();
        }
    }
    let wrong = if s.chance(1, 5) { s.us(1, 5) } else { 0 };
    let at = |args: &[String], k: &str| args.iter().position(|x| x == k).unwrap();
    match wrong {
        1 => args[3] = arg(&t.file("missing.epw")),
        2 => {
            args.drain(2..4);
        }
        3 => args.extend(list(&["--nothing-like-this"])),
        4 => {
            if kind == 0 {
                args.extend(list(&["-c", "missing.rhai"]));
            } else {
                let k = at(&args, if kind == 1 { "-c" } else { "--control-file" });
                args[k + 1] = "missing.rhai".into();
            }
        }
        5 => args[1] = arg(&t.file("missing.spl")),
        _ => (),
    }
    s.note(|| format!("{:?} {} {}", args, w.j, wx.json));
    let r = program("simple", &args, &t)?;
    if wrong > 0 {
        s.nontrivial();
        ended(&r, false, &format!("mistake {} {:?}", wrong, args))?;
        ensure!(r.out.is_empty(), "output", "mistake {} was refused, but it wrote {:?}", wrong, String::from_utf8_lossy(&r.out));
        return Ok(());
    }
    // the same with the library
    let options = SimOptions { n, weather_file: Some(arg(&wf)), ..SimOptions::default() };
    let mut text = vec![];
    let (m, mut h) = load(&input)?;
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<bool, Fail> {
        Ok(match kind {
            0 => run(&m, &mut h, &options, &mut text, VoidControl {}),
            1 => run(&m, &mut h, &options, &mut text, OccupantBehaviour::new(&m)?),
            _ => run_rhai(m, &mut h, &options, &arg(&script), &mut text),
        }
        .is_ok())
    }));
    // skies that the Perez model is not meant for (e.g., a strong sun at the horizon) can
    // be a million times too bright, and then temperatures do not make sense: see R08
    let sane = String::from_utf8_lossy(&text).lines().skip(1).all(|l| l.split(',').skip(1).all(|v| v.parse::<f64>().map_or(true, |v| v.abs() < 1e5)));
    let e = match e {
        Ok(e) if sane => e?,
        Err(e) if sane => std::panic::resume_unwind(e),
        _ => return Ok(()),
    };
    ended(&r, e, &format!("{:?}", args))?;
    let got = if to_file {
        ensure!(r.out.is_empty(), "output", "with a file for the results, it wrote {:?}", String::from_utf8_lossy(&r.out));
        std::fs::read(&report).map_err(|e| e.to_string())?
    } else {
        r.out
    };
    let (got, text) = (String::from_utf8_lossy(&got).to_string(), String::from_utf8_lossy(&text).to_string());
    s.nontrivial_if(text.lines().count() > 3);
    if !traced {
        ensure!(got == text, "results", "the program says\n{}\nand the library\n{}", got, text);
    } else {
        let (a, b): (Vec<&str>, Vec<&str>) = (got.lines().collect(), text.lines().collect());
        ensure!(a.len() == b.len() && a.first() == b.first(), "results", "the program says\n{}\nand the library\n{}", got, text);
        for (x, y) in a.iter().zip(&b).skip(1) {
            let (x, y): (Vec<&str>, Vec<&str>) = (x.split(',').collect(), y.split(',').collect());
            ensure!(x[0] == y[0] && x.len() == y.len() && x[1..].iter().all(|v| v.parse::<f64>().is_ok()), "results", "{:?} instead of {:?}", x, y);
        }
    }
    Ok(())
}
const MAPS: [&str; 5] = ["radiance", "inferno", "magma", "plasma", "viridis"];
fn map(n: &str) -> Colourmap {
    match n {
        "radiance" => Colourmap::Radiance,
        "inferno" => Colourmap::Inferno,
        "magma" => Colourmap::Magma,
        "plasma" => Colourmap::Plasma,
        _ => Colourmap::Viridis,
    }
}
fn pictures(s: &mut Src) -> R {
    let (w, h) = (s.us(1, 12), s.us(1, 12));
    let t = Tmp::new();
    let mut make = |n: &str, w: usize, h: usize| -> Result<(PathBuf, ImageBuffer), Fail> {
        let px = (0..w * h).map(|_| pixel(s)).collect();
        let f = t.file(n);
        ImageBuffer::from_pixels(w, h, px).save_hdre(&f)?;
        let i = ImageBuffer::from_file(&f)?;
        Ok((f, i))
    };
    let (fa, a) = make("a.hdr", w, h)?;
    let (fb, b) = make("b.hdr", w, h)?;
    let (fc, _) = make("c.hdr", w + 1, h)?;
    let (min, max) = (if s.bool() { Some(s.f(0., 10.)) } else { None }, if s.bool() { Some(s.f(11., 1000.)) } else { None });
    let m = *s.pick(&MAPS);
    let log = s.bool();
    let mut scale = vec![];
    if let Some(v) = min {
        scale.extend(list(&["--min", &format!("{:?}", v)]));
    }
    if let Some(v) = max {
        scale.extend(list(&[*s.pick(&["-s", "--max"]), &format!("{:?}", v)]));
    }
    if log {
        scale.extend(list(&[*s.pick(&["-l", "--log"])]));
    }
    let out = t.file("out");
    let want = t.file("want");
    s.nontrivial_if(w * h > 4);
    s.note(|| format!("{}x{} {} {:?} {:?} {:?}", w, h, m, scale, a.pixels, b.pixels));
    let save = |i: &ImageBuffer| if log { i.save_log_falsecolour(min, max, map(m), &want) } else { i.save_falsecolour(min, max, map(m), &want) };
    let bytes = |p: &Path| std::fs::read(p).map_err(|e| Fail { kind: "file".into(), msg: e.to_string() });
    match s.us(0, 4) {
        0 | 1 => {
            let mut args = list(&["-i", &arg(&fa), "-o", &arg(&out), "-m", m]);
            args.extend(scale);
            let r = program("sfalsecolor", &args, &t)?;
            ended(&r, true, "sfalsecolor")?;
            save(&a)?;
            ensure!(bytes(&out)? == bytes(&want)?, "falsecolour", "{:?} is not what the library does", args);
        }
        2 => {
            // a map of the differences
            let mut args = list(&["-a", &arg(&fa), "-b", &arg(&fb), "-o", &arg(&out), "--map", m]);
            args.extend(scale);
            let r = program("scompare", &args, &t)?;
            ended(&r, true, "scompare")?;
            save(&a.diff(&b)?)?;
            ensure!(bytes(&out)? == bytes(&want)?, "differences", "{:?} is not what the library does", args);
        }
        3 => {
            let r = program("scompare", &list(&["-a", &arg(&fa), "-b", &arg(&fb), "-o", &arg(&out)]), &t)?;
            ended(&r, true, "scompare")?;
            let d = ImageBuffer::from_file(&out)?;
            ensure!((d.width, d.height) == (w, h), "size", "differences of {}x{} are {}x{}", w, h, d.width, d.height);
            for (i, p) in d.pixels.iter().enumerate() {
                let e = (a.pixels[i].radiance() - b.pixels[i].radiance()).abs();
                ensure!(p.0.iter().all(|v| (e - v).abs() <= e / 120. + 1e-18), "differences", "pixel {} is {:?} instead of {}", i, p, e);
            }
            // with itself
            let r = program("scompare", &list(&["-a", &arg(&fa), "-b", &arg(&fa), "-o", &arg(&out)]), &t)?;
            ended(&r, true, "scompare")?;
            ensure!(ImageBuffer::from_file(&out)?.pixels.iter().all(|p| p.is_black()), "same", "an image differs from itself");
        }
        _ => {
            let no = arg(&t.file("no.hdr"));
            let bad: [(&str, Vec<String>); 5] = [
                ("scompare", list(&["-a", &arg(&fa), "-b", &arg(&fc), "-o", &arg(&out)])),
                ("scompare", list(&["-a", &no, "-b", &arg(&fa), "-o", &arg(&out)])),
                ("scompare", list(&["-a", &arg(&fb), "-b", &no, "-o", &arg(&out)])),
                ("sfalsecolor", list(&["-i", &no, "-o", &arg(&out), "-m", m])),
                ("sfalsecolor", list(&["-i", &arg(&fa), "-o", &arg(&out), "-m", "rainbow"])),
            ];
            let (p, args) = s.pick(&bad).clone();
            let r = program(p, &args, &t)?;
            ended(&r, false, &format!("{} {:?}", p, args))?;
            ensure!(!out.exists(), "file", "{} {:?} failed, but wrote its output", p, args);
        }
    }
    Ok(())
}
fn triplet(s: &mut Src, v: [f64; 3]) -> String {
    let f = |v: f64, k: usize| match k {
        0 => format!("{:?}", v),
        1 => format!("{}", v),
        _ => format!("{:e}", v),
    };
    let k = [s.us(0, 2), s.us(0, 2), s.us(0, 2)];
    let pad = *s.pick(&["", "", " "]);
    format!("{}{} {} {}{}", pad, f(v[0], k[0]), f(v[1], k[1]), f(v[2], k[2]), pad)
}
/// Scenes in which there are only lights
fn views(s: &mut Src) -> R {
    let t = Tmp::new();
    let mut scene = String::new();
    let from = pt(s, 5.);
    for i in 0..s.us(1, 6) {
        let d = dir(s);
        let c = from + d * s.f(2., 10.);
        let n = dir(s);
        let r = s.f(0.5, 6.);
        let side = n.cross(if n.z.abs() < 0.9 { Vector3D::new(0., 0., 1.) } else { Vector3D::new(0., 1., 0.) }).get_normalized();
        let v: Vec<Point3D> = (0..3)
            .map(|k| {
                let a = (k as f64) * 2.1;
                c + side * (r * a.cos()) + n.cross(side) * (r * a.sin())
            })
            .collect();
        let e = [s.f(0., 10.), s.f(0., 10.), s.f(0., 10.)];
        scene += &format!("void light l{} 0 0 3 {} {} {}\nl{} polygon p{} 0 0 9 {}\n", i, e[0], e[1], e[2], i, i, v.iter().map(|p| format!("{:?} {:?} {:?}", p.x, p.y, p.z)).collect::<Vec<_>>().join(" "));
    }
    let input = t.file("in.rad");
    std::fs::write(&input, &scene).unwrap();
    let d = {
        let d = dir(s);
        d * s.f(0.3, 4.)
    };
    let mut up = None;
    let mut args = list(&["-i", &arg(&input), "-p", &triplet(s, [from.x, from.y, from.z]), *s.pick(&["-d", "--view-direction"]), &triplet(s, [d.x, d.y, d.z])]);
    let (x, y) = (s.us(1, 24), s.us(1, 24));
    args.extend(list(&["-x", &x.to_string(), "-y", &y.to_string()]));
    let u = dir(s);
    if d.z.abs() > 0.99 * d.length() || s.bool() {
        let u = if u.cross(d.get_normalized()).length() < 0.05 { Vector3D::new(d.y, d.z, -d.x) } else { u };
        if u.get_normalized().cross(d.get_normalized()).length() < 0.02 {
            return Ok(());
        }
        args.extend(list(&["-u", &triplet(s, [u.x, u.y, u.z])]));
        up = Some(u);
    }
    let mut fov = 60.;
    if s.bool() {
        fov = s.f(5., 120.);
        args.extend(list(&[*s.pick(&["-h", "--view_horizontal"]), &format!("{:?}", fov)]));
    }
    let mut how = RayTracer { n_ambient_samples: 70, n_shadow_samples: 10, max_depth: 2 };
    if s.bool() {
        how = RayTracer { n_ambient_samples: s.us(0, 10), n_shadow_samples: s.us(0, 3), max_depth: s.us(0, 3) };
        args.extend(list(&["-b", &how.max_depth.to_string(), "-a", &how.n_ambient_samples.to_string(), "-s", &how.n_shadow_samples.to_string()]));
    }
    let out = t.file("out.hdr");
    args.extend(list(&["-o", &arg(&out)]));
    s.note(|| format!("{:?}\n{}", args, scene));
    if s.chance(1, 8) {
        s.nontrivial();
        match s.us(0, 3) {
            0 => args[1] = arg(&t.file("no.rad")),
            1 => args[3] = "1 2".into(),
            2 => args[5] = "1 2 up".into(),
            _ => {
                let o = t.file("in.txt");
                std::fs::write(&o, &scene).unwrap();
                args[1] = arg(&o);
            }
        }
        let r = program("spict", &args, &t)?;
        ended(&r, false, &format!("spict {:?}", args))?;
        ensure!(!out.exists(), "file", "spict {:?} failed, but wrote its output", args);
        return Ok(());
    }
    let r = program("spict", &args, &t)?;
    ended(&r, true, &format!("spict {:?}", args))?;
    let g = ImageBuffer::from_file(&out)?;
    let view = View { view_direction: d.get_normalized(), view_point: from, view_up: up.unwrap_or(Vector3D::new(0., 0., 1.)).get_normalized(), field_of_view: fov };
    let camera = Pinhole::new(view, Film { resolution: (x, y) });
    let mut sc = Scene::from_radiance(arg(&input))?;
    sc.build_accelerator();
    let e = how.render(&sc, &camera);
    ensure!((g.width, g.height) == (x, y), "size", "an image of {}x{} is {}x{}", x, y, g.width, g.height);
    let lit = e.pixels.iter().filter(|p| !p.is_black()).count();
    s.nontrivial_if(lit > 0 && lit < x * y);
    // as precise as the format of the image is
    let near = |a: &rendering::Spectrum, b: &rendering::Spectrum| a.0.iter().zip(&b.0).all(|(x, y)| (x - y).abs() <= b.max() / 100. + 1e-12);
    let bad: Vec<_> = g.pixels.iter().zip(&e.pixels).filter(|(a, b)| !near(a, b)).collect();
    ensure!(bad.len() * 200 <= x * y + 199, "image", "{} of the {}x{} pixels are not those of the library: {:?}", bad.len(), x, y, bad.first());
    Ok(())
}
/// What arrives to the sensors of sfluxmtx, which are always the same
fn flux(s: &mut Src) -> R {
    let t = Tmp::new();
    let eye = Point3D::new(1., 6., 1.);
    // everything is white or a mirror, or there is just a black wall
    let white = s.bool();
    let mut scene = String::new();
    let mut hidden = 0.;
    let tri = |v: &[Point3D]| v.iter().map(|p| format!("{:?} {:?} {:?}", p.x, p.y, p.z)).collect::<Vec<_>>().join(" ");
    if white {
        scene += "void plastic white 0 0 5 1 1 1 0 0\nvoid mirror glossy 0 0 3 1 1 1\n";
        for i in 0..s.us(1, 6) {
            let c = eye + dir(s) * s.f(1.5, 6.);
            let (n, r, k) = (dir(s), s.f(0.2, 1.2), s.us(0, 1));
            let side = n.cross(if n.z.abs() < 0.9 { Vector3D::new(0., 0., 1.) } else { Vector3D::new(0., 1., 0.) }).get_normalized();
            let v: Vec<Point3D> = (0..3).map(|k| (k as f64) * 2.1).map(|a| c + side * (r * a.cos()) + n.cross(side) * (r * a.sin())).collect();
            scene += &format!("{} polygon p{} 0 0 9 {}\n", ["white", "glossy"][k], i, tri(&v));
        }
    } else {
        // a wall without end, which leans over the sensor
        let (az, lean) = (s.f(0., 6.28), s.f(-1.4, 1.4));
        let a = Vector3D::new(az.cos(), az.sin(), 0.);
        let up = Vector3D::new(-a.x * lean.sin(), -a.y * lean.sin(), lean.cos());
        let along = Vector3D::new(-a.y, a.x, 0.);
        let base = eye + a * s.f(0.5, 3.);
        let l = 1e5;
        // (what is behind a plane with a normal that makes an angle g with the sensor's own: (1 + cos g)/2)
        let v = [base - along * l - up * l, base + along * l - up * l, base + along * l + up * l, base - along * l + up * l];
        scene += &format!("void plastic black 0 0 5 0 0 0 0 0\nblack polygon w 0 0 12 {}\n", tri(&v));
        // the plane hides all directions w for which w*n > 0
        hidden = (1. + lean.sin()) / 2.;
    }
    let input = t.file("in.rad");
    std::fs::write(&input, &scene).unwrap();
    let mf = *s.pick(&[1usize, 1, 2, 4]);
    let (depth, n) = if white { (100_000, s.us(1, 20)) } else { (s.us(0, 3), s.us(200, 2000)) };
    let out = t.file("out.mtx");
    let mut args = list(&["-i", &arg(&input), "-o", &arg(&out), *s.pick(&["-b", "--max_depth"]), &depth.to_string(), *s.pick(&["-a", "--ambient_samples"]), &n.to_string()]);
    if mf > 1 || s.bool() {
        args.extend(list(&[*s.pick(&["-m", "--sky_subdivision"]), &mf.to_string()]));
    }
    s.note(|| format!("{:?}\n{}", args, scene));
    if s.chance(1, 8) {
        s.nontrivial();
        match s.us(0, 3) {
            0 => args[1] = arg(&t.file("no.rad")),
            1 => {
                let o = t.file("in.txt");
                std::fs::write(&o, &scene).unwrap();
                args[1] = arg(&o);
            }
            2 => args[3] = arg(&t.file("no").join("out.mtx")),
            _ => args[7] = "many".into(),
        }
        let r = program("sfluxmtx", &args, &t)?;
        ended(&r, false, &format!("sfluxmtx {:?}", args))?;
        ensure!(!out.exists(), "file", "sfluxmtx {:?} failed, but wrote its output", args);
        return Ok(());
    }
    s.nontrivial();
    let r = program("sfluxmtx", &args, &t)?;
    ended(&r, true, &format!("sfluxmtx {:?}", args))?;
    let m = read_colour_matrix(&out)?;
    let bins = weather::ReinhartSky::new(mf).n_bins;
    ensure!(m.size() == (6, bins), "size", "a matrix of {:?} for 6 sensors and {} parts of the sky", m.size(), bins);
    let mut total = 0.;
    for i in 0..6 {
        let sum: f64 = (0..bins).map(|k| m.get(i, k).unwrap().0[0]).sum();
        total += sum / 6.;
        ensure!(!white || close(sum, std::f64::consts::PI, 1e-3, 0.), "white", "{} arrives from everywhere, instead of pi", sum);
    }
    if !white {
        let p: f64 = total / std::f64::consts::PI;
        let sd = (hidden * (1. - hidden) / (6. * n as f64)).sqrt();
        ensure!((p - (1. - hidden)).abs() < 6. * sd + 2e-3, "wall", "{} of the light arrives, instead of {}", p, 1. - hidden);
    }
    Ok(())
}
pub fn r10() -> Property {
    Property {
        id: "R10",
        facets: vec![
            Facet::new("translate", translate, 60, 6000, "three objects or more").threads(8).limit(120),
            Facet::new("simulate", simulate, 60, 6000, "three rows or more, or a mistake").threads(8).limit(120),
            Facet::new("pictures", pictures, 100, 10_000, "more than four pixels").threads(8).limit(120),
            Facet::new("views", views, 100, 10_000, "the image has lights and darkness, or a mistake").threads(8).limit(120),
            Facet::new("flux", flux, 40, 4000, "all of them").threads(8).limit(120),
        ],
        assumptions: vec!["the programs are built by the harness from bin/*.rs and the crates of the working tree, with the feature 'parallel'", "the sensors of sfluxmtx are fixed in its code", "simulations whose results diverge (beyond 1e5) are not compared"],
    }
}
