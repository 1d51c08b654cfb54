//! R04 cameras, images and matrices
use crate::geom::{dir, pt};
use crate::mats::{colour, same};
use fw::*;
use geometry::{Ray3D, Vector3D};
use rendering::colour_matrix::*;
use rendering::colourmap::Colourmap;
use rendering::image::ImageBuffer;
use rendering::{Camera, CameraSample, ColourMatrix, Film, Pinhole, RayTracer, Scene, Spectrum, View};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Tmp(pub PathBuf);
static N: AtomicUsize = AtomicUsize::new(0);
impl Tmp {
    pub fn new() -> Self {
        let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("vrend-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Tmp(p)
    }
    pub fn file(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn view(s: &mut Src) -> View {
    let d = dir(s);
    let mut up = dir(s);
    if d.cross(up).length() < 0.05 {
        up = if d.z.abs() < 0.9 { Vector3D::new(0., 0., 1.) } else { Vector3D::new(0., 1., 0.) };
    }
    View { view_point: pt(s, 10.), view_direction: d * if s.bool() { 1. } else { s.f(0.5, 3.) }, view_up: up, field_of_view: s.f(5., 150.) }
}
fn camera(s: &mut Src) -> R {
    let v = view(s);
    let (w, h) = (s.us(1, 200), s.us(1, 200));
    let c = Pinhole::new(v, Film { resolution: (w, h) });
    s.note(|| format!("{:?} {}x{}", v, w, h));
    s.nontrivial_if(w != h);
    ensure!(c.film_resolution() == (w, h), "film", "{:?}", c.film_resolution());
    let d = v.view_direction.get_normalized();
    let right = d.cross(v.view_up).get_normalized();
    let up = right.cross(d);
    let t = (v.field_of_view.to_radians() / 2.).tan();
    for _ in 0..8 {
        let (x, y) = (s.us(0, w - 1), s.us(0, h - 1));
        let (r, k) = c.gen_ray(&CameraSample { p_film: (x, y) });
        ensure!(k == 1. && r.origin == v.view_point && (r.direction.length() - 1.).abs() < 1e-6, "ray", "{:?} {}", r, k);
        let dx = 2. * t / w as f64;
        let exp = (d + right * ((x as f64 + 0.5 - w as f64 / 2.) * dx) - up * ((y as f64 + 0.5 - h as f64 / 2.) * dx)).get_normalized();
        ensure!((exp - r.direction).length() < 1e-6, "gen_ray", "pixel {:?} looks to {} instead of {}", (x, y), r.direction, exp);
        let (p, k) = c.pixel_from_ray(&r);
        ensure!(p == (x, y) && k == 1., "pixel_from_ray", "pixel {:?} became {:?} (weight {})", (x, y), p, k);
        ensure!(c.pixel_index((x, y)) == y * w + x, "pixel_index", "{:?} is {}", (x, y), c.pixel_index((x, y)));
    }
    for _ in 0..4 {
        let q = dir(s);
        let (f, x, y) = (q * d, q * right, q * up);
        let ((i, j), k) = c.pixel_from_ray(&Ray3D { origin: v.view_point, direction: q });
        let hh = t * h as f64 / w as f64;
        if f < -1e-6 || (f > 1e-6 && (x.abs() > f * t * (1. + 1e-6) || y.abs() > f * hh * (1. + 1e-6))) {
            ensure!(k == 0., "out_of_view", "{} is not seen, but it is pixel {:?}", q, (i, j));
        } else if f > 1e-6 && x.abs() < f * t * (1. - 1e-6) && y.abs() < f * hh * (1. - 1e-6) {
            let (a, b) = ((x / f / t + 1.) / 2. * w as f64, (1. - y / f / hh) / 2. * h as f64);
            ensure!(k == 1. && (a - i as f64 - 0.5).abs() < 0.5001 && (b - j as f64 - 0.5).abs() < 0.5001, "pixel", "{} is pixel {:?} instead of {} {}", q, (i, j), a, b);
        }
    }
    Ok(())
}
/// Each pixel of an image is what is seen through it
fn render(s: &mut Src) -> R {
    let v = view(s);
    let (w, h) = (s.us(1, 60), s.us(1, 60));
    let c = Pinhole::new(v, Film { resolution: (w, h) });
    let a = dir(s);
    let mut scene = Scene::new();
    let f = move |d: Vector3D| 2. + d * a;
    scene.sky = Some(Box::new(f));
    scene.build_accelerator();
    s.nontrivial_if(w * h > 128);
    s.note(|| format!("{:?} {}x{}", v, w, h));
    let rt = RayTracer { max_depth: s.us(0, 3), n_shadow_samples: s.us(0, 2), n_ambient_samples: s.us(0, 3) };
    let im = rt.render(&scene, &c);
    ensure!((im.width, im.height) == (w, h) && im.pixels.len() == w * h, "size", "{}x{} with {} pixels", im.width, im.height, im.pixels.len());
    for y in 0..h {
        for x in 0..w {
            let (r, _) = c.gen_ray(&CameraSample { p_film: (x, y) });
            ensure!(same(im[(x, y)], Spectrum::gray(f(r.direction)), 1e-6), "render", "pixel {:?} of {}x{} is {:?} but should be {}", (x, y), w, h, im[(x, y)], f(r.direction));
        }
    }
    Ok(())
}
pub fn pixel(s: &mut Src) -> Spectrum {
    let mut c = Spectrum::BLACK;
    let scale = s.logf(1e-12, 1e12);
    for v in c.0.iter_mut() {
        *v = match s.us(0, 9) {
            0 => 0.,
            1 => scale,
            2 => 2f64.powi(s.int(-20, 20) as i32),
            3 => {
                let e = s.int(-20, 20) as i32;
                2f64.powi(e) * (1. - 1e-15)
            }
            4 => scale * s.logf(1e-6, 1.),
            _ => scale * s.f(0., 1.),
        };
    }
    c
}
fn hdr(s: &mut Src) -> R {
    let (w, h) = (s.few(1, 12, 300), s.few(1, 12, 40));
    let mut im = ImageBuffer::new(w, h);
    ensure!(im.pixels.len() == w * h && im.pixels.iter().all(|p| p.is_black()), "new", "a new image is not black");
    let px: Vec<Spectrum> = (0..w * h).map(|_| pixel(s)).collect();
    for (i, p) in px.iter().enumerate() {
        im[(i % w, i / w)] = *p;
    }
    ensure!(im.pixels == px, "index", "pixels are not from top to bottom, left to right");
    s.nontrivial_if(w != h);
    s.note(|| format!("{}x{} {:?}", w, h, px));
    let t = Tmp::new();
    let f = t.file("a.hdr");
    im.save_hdre(&f)?;
    let other = ImageBuffer::from_file(&f)?;
    ensure!((other.width, other.height, other.pixels.len()) == (w, h, w * h), "hdr_size", "{}x{} became {}x{}", w, h, other.width, other.height);
    for (a, b) in px.iter().zip(&other.pixels) {
        let m = a.max();
        for k in 0..3 {
            // eight bits per channel, sharing the exponent
            let err = a.0[k] - b.0[k];
            ensure!(m < 1e-18 && b.0[k] <= m || err >= -1e-9 * m && err <= m / 127., "hdr", "{:?} became {:?}", a, b);
        }
    }
    // differences
    let d = im.diff(&other)?;
    for (i, p) in d.pixels.iter().enumerate() {
        let e = (px[i].radiance() - other.pixels[i].radiance()).abs();
        ensure!(same(*p, Spectrum::gray(e), 1e-9), "diff", "{:?} instead of {}", p, e);
    }
    ensure!(im.diff(&ImageBuffer::new(w + 1, h)).is_err(), "diff_size", "images of different sizes can be compared");
    // incomplete files
    let bytes = std::fs::read(&f).map_err(|e| e.to_string())?;
    let cut = s.us(1, 4 * w * h);
    std::fs::write(&f, &bytes[..bytes.len() - cut]).map_err(|e| e.to_string())?;
    ensure!(ImageBuffer::from_file(&f).is_err(), "truncated", "an image of {}x{} is read from a file in which {} bytes are missing", w, h, cut);
    let cut = s.us(0, bytes.len());
    let mut garbage = bytes.clone();
    if cut < bytes.len() {
        garbage[cut] = s.draw(256) as u8;
    }
    std::fs::write(&f, &garbage).map_err(|e| e.to_string())?;
    if let Ok(i) = ImageBuffer::from_file(&f) {
        ensure!(i.pixels.len() == i.width * i.height, "inconsistent", "{}x{} with {} pixels", i.width, i.height, i.pixels.len());
    }
    ensure!(ImageBuffer::from_file(&t.file("no")).is_err(), "missing", "read a file that does not exist");
    Ok(())
}
fn matrices(s: &mut Src) -> R {
    let (r, c) = (s.few(1, 10, 80), s.few(1, 10, 80));
    let t = Tmp::new();
    let f = t.file("m.txt");
    s.nontrivial_if(r != c);
    let mut cm = ColourMatrix::new(Spectrum::BLACK, r, c);
    let mut m = matrix::Matrix::new(0., r, c);
    for i in 0..r {
        for j in 0..c {
            cm.set(i, j, colour(s) * s.logf(1e-3, 1e4))?;
            let v = s.sign() * s.logf(1e-12, 1e12);
            m.set(i, j, v)?;
        }
    }
    s.note(|| format!("{} {:?}", cm, m));
    save_colour_matrix(&cm, &f)?;
    let x = read_colour_matrix(&f)?;
    ensure!(x.size() == (r, c), "size", "{}x{} became {:?}", r, c, x.size());
    for i in 0..r {
        for j in 0..c {
            let (a, b) = (cm.get(i, j)?, x.get(i, j)?);
            ensure!(a.0.iter().zip(&b.0).all(|(p, q)| (p - q).abs() <= 0.51e-5), "colour_matrix", "({}, {}) was {:?} and became {:?}", i, j, a, b);
        }
    }
    ensure!(read_matrix(&f).is_err(), "components", "a matrix of colours is read as one of numbers");
    let lines: Vec<String> = std::fs::read_to_string(&f).map_err(|e| e.to_string())?.lines().map(|x| x.to_string()).collect();
    let bad = |lines: &[String], s: &mut Src| -> Result<bool, Fail> {
        let keep = lines.len() - s.us(1, r);
        std::fs::write(&f, lines[..keep].join("\n")).map_err(|e| e.to_string())?;
        Ok(true)
    };
    bad(&lines, s)?;
    ensure!(read_colour_matrix(&f).is_err(), "truncated", "a matrix is read from a file in which rows are missing");
    save_matrix(&m, &f)?;
    let x = read_matrix(&f)?;
    ensure!(x.size() == (r, c), "size", "{}x{} became {:?}", r, c, x.size());
    for i in 0..r {
        for j in 0..c {
            let (a, b) = (m.get(i, j)?, x.get(i, j)?);
            ensure!(a == b, "matrix", "({}, {}) was {} and became {}", i, j, a, b);
        }
    }
    ensure!(read_colour_matrix(&f).is_err(), "components", "a matrix of numbers is read as one of colours");
    let lines: Vec<String> = std::fs::read_to_string(&f).map_err(|e| e.to_string())?.lines().map(|x| x.to_string()).collect();
    bad(&lines, s)?;
    ensure!(read_matrix(&f).is_err(), "truncated", "a matrix is read from a file in which rows are missing");
    // conversions
    let (rad, lum) = (colour_matrix_to_radiance(&cm), colour_matrix_to_luminance(&cm));
    let av = average_matrix(&m);
    ensure!(rad.size() == (r, c) && lum.size() == (r, c) && av.size() == (1, c), "size", "{:?} {:?} {:?}", rad.size(), lum.size(), av.size());
    for j in 0..c {
        let mut sum = 0.;
        let mut mag = 0.;
        for i in 0..r {
            let k = cm.get(i, j)?;
            let e = 0.265 * k.0[0] + 0.67 * k.0[1] + 0.065 * k.0[2];
            ensure!(close(rad.get(i, j)?, e, 1e-9, 1e-12), "radiance", "({}, {}) {:?} has radiance {}", i, j, k, rad.get(i, j)?);
            ensure!(close(lum.get(i, j)?, 179. * e, 1e-9, 1e-12), "luminance", "({}, {}) {:?} has luminance {}", i, j, k, lum.get(i, j)?);
            sum += m.get(i, j)? / r as f64;
            mag += m.get(i, j)?.abs();
        }
        ensure!(close(av.get(0, j)?, sum, 1e-9, 1e-12 * mag), "average", "column {} averages {} not {}", j, av.get(0, j)?, sum);
    }
    Ok(())
}
fn maps(s: &mut Src) -> R {
    let name = *s.pick(&["Radiance", "Inferno", "Magma", "Plasma", "Viridis"]);
    let get = || match name {
        "Radiance" => Colourmap::Radiance,
        "Inferno" => Colourmap::Inferno,
        "Magma" => Colourmap::Magma,
        "Plasma" => Colourmap::Plasma,
        _ => Colourmap::Viridis,
    };
    let m = get();
    let min = s.f(-100., 100.);
    let max = min + s.logf(1e-3, 1e5);
    let first = m.map_linear(min, min, max);
    let last = m.map_linear(max, min, max);
    s.nontrivial();
    let mut x = match s.us(0, 3) {
        0 => min + (max - min) * s.f(-0.2, 1.2),
        1 => min + (max - min) * s.us(0, 255) as f64 / 255.,
        2 => max - (max - min) * s.logf(1e-17, 1e-3),
        _ => min + (max - min) * s.logf(1e-17, 1e-3),
    };
    if s.chance(1, 4) {
        x = f64::from_bits(max.to_bits() - 1);
    }
    s.note(|| format!("{} {} in [{}, {}]", name, x, min, max));
    let y = m.map_linear(x, min, max);
    ensure!(y.iter().all(|v| *v >= -1e-6 && *v <= 1. + 1e-6), "range", "{:?}", y);
    if x <= min {
        ensure!(y == first, "below", "{} is {:?} instead of {:?}", x, y, first);
    } else if x >= max {
        ensure!(y == last, "above", "{} is {:?} instead of {:?}", x, y, last);
    } else {
        // the same as in other scale
        let z = m.map_linear((x - min) / (max - min), 0., 1.);
        let tol = 1e-6 + 1e-12 * (min.abs() + max.abs()) / (max - min) * 255.;
        ensure!((0..3).all(|i| (y[i] - z[i]).abs() < tol), "scale", "{} in [{}, {}] is {:?}, but {:?} after scaling", x, min, max, y, z);
        // continuous and in between
        let u = (x - min) / (max - min) * 255.;
        let at = |k: f64| m.map_linear(k / 255., 0., 1.);
        let (a, b) = (at(u.floor()), at((u.floor() + 1.).min(255.)));
        let f = u - u.floor();
        ensure!((0..3).all(|i| (z[i] - a[i] - f * (b[i] - a[i])).abs() < 1e-6), "linear", "{} is {:?}, which is not {} of the way from {:?} to {:?}", x, z, f, a, b);
    }
    Ok(())
}
/// The tables of the maps are smooth; those of BIDS get brighter, and go through their published colours
fn tables(s: &mut Src) -> R {
    let (name, m, ends): (_, _, Option<[u32; 3]>) = match s.us(0, 4) {
        0 => ("Radiance", Colourmap::Radiance, None),
        1 => ("Inferno", Colourmap::Inferno, Some([0x000004, 0xbc3754, 0xfcffa4])),
        2 => ("Magma", Colourmap::Magma, Some([0x000004, 0xb73779, 0xfcfdbf])),
        3 => ("Plasma", Colourmap::Plasma, Some([0x0d0887, 0xcc4778, 0xf0f921])),
        _ => ("Viridis", Colourmap::Viridis, Some([0x440154, 0x21918c, 0xfde725])),
    };
    let k = s.us(1, 254);
    s.nontrivial();
    s.note(|| format!("{} {}", name, k));
    let at = |k: usize| m.map_linear(k as f64, 0., 255.);
    let (a, b, c) = (at(k - 1), at(k), at(k + 1));
    let rough = if ends.is_some() { 0.006 } else { 0.013 };
    ensure!((0..3).all(|i| (a[i] - 2. * b[i] + c[i]).abs() < rough), "smooth", "colours {} to {} of {} are {:?}, {:?}, {:?}", k - 1, k + 1, name, a, b, c);
    if let Some(ends) = ends {
        let lum = |x: [f64; 3]| 0.2126 * x[0] + 0.7152 * x[1] + 0.0722 * x[2];
        ensure!(lum(a) < lum(b) && lum(b) < lum(c), "brighter", "colours {} to {} of {} are {:?}, {:?}, {:?}", k - 1, k + 1, name, a, b, c);
        for (x, e) in [(0., ends[0]), (127.5, ends[1]), (255., ends[2])] {
            let y = m.map_linear(x, 0., 255.);
            for (i, shift) in [16, 8, 0].into_iter().enumerate() {
                let v = ((e >> shift) & 255) as f64 / 255.;
                ensure!((y[i] - v).abs() < 2.5 / 255., "published", "{} is {:?} at {}, but should be #{:06x}", name, y, x, e);
            }
        }
    }
    Ok(())
}
/// Those who save false colours paint each pixel with the colour of its luminance, from the minimum to the maximum
fn falsecolour(s: &mut Src) -> R {
    let (w, h) = (s.few(1, 9, 60), s.few(1, 9, 60));
    let around = s.logf(1e-6, 1e3);
    let near = s.bool();
    let px: Vec<Spectrum> = (0..w * h)
        .map(|_| {
            if near {
                let mut c = Spectrum::BLACK;
                for v in c.0.iter_mut() {
                    *v = around * s.f(0., 1.);
                }
                c
            } else {
                pixel(s)
            }
        })
        .collect();
    let im = ImageBuffer::from_pixels(w, h, px.clone());
    let log = s.bool();
    let top = px.iter().map(|c| c.luminance()).fold(0., f64::max);
    let a = if s.bool() { Some(s.f(-1., 10.)) } else { None };
    let b = if s.bool() { Some(a.unwrap_or(0.01).max(0.01) + s.logf(1., 1000.)) } else { None };
    let which = s.us(0, 4);
    let map = || [Colourmap::Radiance, Colourmap::Inferno, Colourmap::Magma, Colourmap::Plasma, Colourmap::Viridis].into_iter().nth(which).unwrap();
    let what = || format!("log: {} from {:?} to {:?} map {}: {:?}", log, a, b, which, px);
    s.note(what);
    let t = Tmp::new();
    let f = t.file("a.jpeg");
    if log {
        im.save_log_falsecolour(a, b, map(), &f)?;
    } else {
        im.save_falsecolour(a, b, map(), &f)?;
    }
    let d = std::fs::read(&f).map_err(|e| e.to_string())?;
    // the size
    let mut i = 2;
    let size = loop {
        ensure!(i + 9 < d.len(), "jpeg", "{}: not a JPEG file", what());
        let l = (d[i + 2] as usize) * 256 + d[i + 3] as usize;
        if (0xC0..=0xC2).contains(&d[i + 1]) {
            break ((d[i + 7] as usize) * 256 + d[i + 8] as usize, (d[i + 5] as usize) * 256 + d[i + 6] as usize);
        }
        i += 2 + l;
    };
    ensure!(size == (w, h), "jpeg_size", "{}x{} became {:?}", w, h, size);
    // the colours
    let m = map();
    let colour = |u: f64| m.map_linear(u, 0., 1.);
    let floor = if log { 0.001 } else { 0. };
    let lo = a.unwrap_or(floor).max(floor);
    let hi = b.unwrap_or(top);
    if hi <= lo || (b.is_none() && top < 2. * floor) {
        return Ok(());
    }
    s.nontrivial_if(top > lo);
    let mut data: Vec<u8> = vec![];
    for c in &px {
        let l = 179. * (c.0[0] * 0.265 + c.0[1] * 0.67 + c.0[2] * 0.065);
        let at = |l: f64| if log { (l.max(1e-9).log10() - lo.log10()) / (hi.log10() - lo.log10()) } else { (l - lo) / (hi - lo) };
        let bytes = |u: f64| colour(u.clamp(0., 1.)).map(|v| (v * 256.).round() as u8);
        let u = at(l);
        let v = bytes(u);
        if bytes(u + 1e-6) != v || bytes(u - 1e-6) != v {
            return Ok(()); // too close to the next one
        }
        data.extend(v);
    }
    let g = t.file("b.jpeg");
    let enc = jpeg_encoder::Encoder::new_file(&g, 100).map_err(|e| e.to_string())?;
    enc.encode(&data, w as u16, h as u16, jpeg_encoder::ColorType::Rgb).map_err(|e| e.to_string())?;
    ensure!(std::fs::read(&g).map_err(|e| e.to_string())? == d, "colours", "{}: not the colours that correspond", what());
    Ok(())
}
pub fn r04() -> Property {
    Property {
        id: "R04",
        facets: vec![
            Facet::new("camera", camera, 5000, 500_000, "the film is not square"),
            Facet::new("render", render, 100, 10_000, "more pixels than what a thread takes at once"),
            Facet::new("hdr", hdr, 2000, 100_000, "the image is not square"),
            Facet::new("matrices", matrices, 2000, 100_000, "the matrix is not square"),
            Facet::new("maps", maps, 20_000, 2_000_000, "every case"),
            Facet::new("tables", tables, 2000, 100_000, "every case"), 
            Facet::new("falsecolour", falsecolour, 1500, 60_000, "some pixel is over the minimum"),
        ],
        assumptions: vec!["colours are below 1e12, as the format for images does not go above 1e38", "matrices of colours are stored with five decimals"],
    }
}
