//! P04 EPW files, P05 weather records, P06 the sun, P07 skies, P08 estimated radiation
use crate::dirint::DIRINT;
use crate::model_io::Tmp;
use calendar::Date;
use fw::*;
use geometry::Vector3D;
use std::f64::consts::PI;
use ::weather::solar::{air_mass, PerezSky, ReinhartSky, SkyUnits, Solar, Time};
use ::weather::{CurrentWeather, EPWWeather, Location, SyntheticWeather, Weather, WeatherTrait};

const MONTH: [u32; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
fn day_of_year(d: Date) -> f64 {
    (MONTH[..d.month as usize - 1].iter().sum::<u32>() + d.day as u32 - 1) as f64 + d.hour / 24.
}
fn date(s: &mut Src) -> Date {
    let month = s.us(1, 12);
    let day = if s.chance(1, 4) { *s.pick(&[1, MONTH[month - 1] as usize]) } else { s.us(1, MONTH[month - 1] as usize) };
    let hour = if s.bool() { s.draw(24) as f64 } else { s.draw(24 * 64) as f64 / 64. };
    Date { month: month as u8, day: day as u8, hour }
}
fn quiet_panic<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

// ------------------------------------------------------------------ P04
/// A number, and how it is written
fn num(s: &mut Src, lo: f64, hi: f64) -> (f64, String) {
    let v = s.f(lo, hi);
    let t = match s.draw(5) {
        0 => format!("{:.0}", v),
        1 => format!("{:.1}", v),
        2 => format!("{:.4}", v),
        3 => format!("{:e}", v),
        _ => format!("{}", v),
    };
    (t.parse().unwrap(), t)
}
struct Epw {
    /// lines, each made of fields
    lines: Vec<Vec<String>>,
    first_data: usize,
    loc: (Vec<String>, [f64; 4]),
    ground: Vec<(f64, [Option<f64>; 3], [f64; 12])>,
    data: Vec<[f64; 35]>,
}
fn word(s: &mut Src) -> String {
    s.pick(&["SANTIAGO", "-", "", "CHL", "IWEC Data", "855740", "\"Punta Arenas, Magallanes\"", "Ñuñoa", "a;b", "Climate Design Data 2009 ASHRAE Handbook", "St. John's", "12/ 8", "No", "0"]).to_string()
}
fn epw(s: &mut Src, zone: impl Fn(&mut Src) -> (f64, String)) -> Epw {
    let mut lines: Vec<Vec<String>> = vec![];
    let names: Vec<String> = (0..5).map(|_| word(s)).collect();
    let lat = num(s, -90., 90.);
    let lon = num(s, -180., 180.);
    let tz = zone(s);
    let el = num(s, -400., 6000.);
    let mut l = vec!["LOCATION".to_string()];
    l.extend(names.iter().cloned());
    l.extend([lat.1, lon.1, tz.1, el.1]);
    lines.push(l);
    for k in ["DESIGN CONDITIONS", "TYPICAL/EXTREME PERIODS"] {
        if s.chance(3, 4) {
            let mut l = vec![k.to_string()];
            for _ in 0..s.us(1, 8) {
                l.push(word(s));
            }
            lines.push(l);
        }
    }
    let mut ground = vec![];
    if s.chance(3, 4) {
        let n = s.us(0, 4);
        let mut l = vec!["GROUND TEMPERATURES".to_string(), n.to_string()];
        for _ in 0..n {
            let d = num(s, 0., 10.);
            l.push(d.1);
            let mut o = [None; 3];
            for (i, o) in o.iter_mut().enumerate() {
                if s.chance(1, 3) {
                    let v = num(s, 0.1, [5., 3000., 2000.][i]);
                    *o = Some(v.0);
                    l.push(v.1);
                } else {
                    l.push(String::new());
                }
            }
            let mut t = [0.; 12];
            for t in t.iter_mut() {
                let v = num(s, -30., 40.);
                *t = v.0;
                l.push(v.1);
            }
            ground.push((d.0, o, t));
        }
        lines.push(l);
    }
    lines.push(vec!["HOLIDAYS/DAYLIGHT SAVINGS".into(), "No".into(), "0".into(), "0".into(), "0".into()]);
    for k in ["COMMENTS 1", "COMMENTS 2"] {
        if s.chance(2, 3) {
            let c = s.pick(&["\"IWEC- WMO#855740, Original Source, (c) 2001\"", " -- Ground temps produced with a standard soil {m**2/day}", "\"\"", "", "\"LOCATION,x\""]).to_string();
            lines.push(vec![k.to_string(), c]);
        }
    }
    lines.push(["DATA PERIODS", "1", "1", "Data", "Sunday", " 1/ 1", "12/31"].map(String::from).to_vec());
    let first_data = lines.len();
    let n = s.few(1, 12, 200);
    let mut data = vec![];
    for _ in 0..n {
        let mut v = [0.; 35];
        let mut l = vec![];
        for (i, v) in v.iter_mut().enumerate() {
            let (x, t) = match i {
                0 => {
                    let y = s.int(1900, 2100) as f64;
                    (y, format!("{}", y))
                }
                1 => {
                    let y = s.int(1, 12) as f64;
                    (y, format!("{}", y))
                }
                2 => {
                    let y = s.int(1, 28) as f64;
                    (y, format!("{:02}", y))
                }
                3 => {
                    let y = s.int(1, 24) as f64;
                    (y, format!("{}", y))
                }
                4 => {
                    let y = s.int(0, 60) as f64;
                    (y, format!("{}", y))
                }
                5 => (1., s.pick(&["C9C9C9C9*0?9?9?9?9?9?9?9A7A7B8B8A7*0*0E8*0*0", "?9", "*", "\"a,b\""]).to_string()),
                20 => {
                    if s.chance(1, 6) {
                        (360., "999".to_string())
                    } else {
                        num(s, 0., 360.)
                    }
                }
                6 | 7 => num(s, -70., 60.),
                8 => num(s, 0., 100.),
                22 | 23 => num(s, 0., 10.),
                31 => {
                    let y = s.int(0, 99) as f64;
                    (y, format!("{}", y))
                }
                _ => num(s, 0., 1e5),
            };
            *v = x;
            l.push(t);
        }
        data.push(v);
        lines.push(l);
    }
    Epw { lines, first_data, loc: (names, [lat.0, lon.0, tz.0, el.0]), ground, data }
}
fn join(s: &mut Src, lines: &[Vec<String>]) -> String {
    let nl = *s.pick(&["\n", "\r\n"]);
    let mut t = lines.iter().map(|l| l.join(",")).collect::<Vec<_>>().join(nl);
    if s.bool() {
        t.push_str(nl);
    }
    t
}
fn read_epw(bytes: &[u8]) -> Result<EPWWeather, String> {
    let t = Tmp::new();
    std::fs::write(t.file("w.epw"), bytes).unwrap();
    EPWWeather::from_file(t.file("w.epw"))
}
fn whole_zone(s: &mut Src) -> (f64, String) {
    let z = s.int(-12, 14) as f64;
    (z, if s.bool() { format!("{}", z) } else { format!("{:.1}", z) })
}
fn epw_read(s: &mut Src) -> R {
    let e = epw(s, whole_zone);
    let text = join(s, &e.lines);
    s.note(|| text.clone());
    s.nontrivial_if(e.data.len() > 1 && !e.ground.is_empty());
    let w = read_epw(text.as_bytes()).map_err(|m| Fail { kind: "refused".into(), msg: format!("{}\n{}", m, text) })?;
    let l = &w.location;
    for (a, b) in [(&l.city, 0), (&l.state, 1), (&l.country, 2), (&l.source, 3), (&l.wmo, 4)] {
        ensure!(*a == e.loc.0[b], "location", "name {} is '{}', not '{}'\n{}", b, a, e.loc.0[b], text);
    }
    let v = e.loc.1;
    ensure!(close(l.latitude, v[0] * PI / 180., 1e-12, 1e-12) && close(l.longitude, v[1] * PI / 180., 1e-12, 1e-12), "location", "{} {} from {} {}", l.latitude, l.longitude, v[0], v[1]);
    ensure!(l.timezone as f64 == v[2] && l.elevation == v[3], "location", "{} {} from {} {}", l.timezone, l.elevation, v[2], v[3]);
    ensure!(w.ground_temperature.len() == e.ground.len(), "ground", "{} ground temperatures of {}", w.ground_temperature.len(), e.ground.len());
    for (a, b) in w.ground_temperature.iter().zip(&e.ground) {
        ensure!(a.depth == b.0 && [a.soil_conductivity, a.soil_density, a.soil_specific_heat] == b.1 && a.average_monthly_temperature == b.2, "ground", "{:?} instead of {:?}", a, b);
    }
    ensure!(w.data.len() == e.data.len(), "records", "{} records of {}\n{}", w.data.len(), e.data.len(), text);
    for (d, v) in w.data.iter().zip(&e.data) {
        let f = [
            d.year as f64,
            d.month as f64,
            d.day as f64,
            d.hour,
            d.minute as f64,
            1.,
            d.dry_bulb_temperature,
            d.dew_point_temperature,
            d.relative_humidity,
            d.atmospheric_station_pressure,
            d.extraterrestrial_horizontal_radiation,
            d.extraterrestrial_direct_normal_radiation,
            d.horizontal_infrared_radiation_intensity,
            d.global_horizontal_radiation,
            d.direct_normal_radiation,
            d.diffuse_horizontal_radiation,
            d.global_horizontal_illuminance,
            d.direct_normal_illuminance,
            d.diffuse_horizontal_illuminance,
            d.zenith_luminance,
            d.wind_direction,
            d.wind_speed,
            d.total_sky_cover,
            d.opaque_sky_cover,
            d.visibility,
            d.ceiling_height,
            d.present_weather_observation,
            d.present_weather_codes,
            d.precipitable_water,
            d.aerosol_optical_depth,
            d.snow_depth,
            d.last_day_since_last_snowfall as f64,
            d.albedo,
            d.liquid_precipitation_depth,
            d.liquid_precipitation_quantity,
        ];
        for i in 0..35 {
            ensure!(f[i] == v[i], "field", "field {} (from 0) of {:?} was read as {} instead of {}\n{}", i, v, f[i], v[i], text);
        }
        let dd = d.date();
        ensure!(dd.month as f64 == v[1] && dd.day as f64 == v[2] && close(dd.hour, v[3], 0., 1e-5), "date", "{:?} for {:?}", dd, &v[..4]);
    }
    let ww: Weather = w.clone().into();
    ensure!(ww.location == w.location && ww.data.len() == e.data.len(), "conversion", "the location or the records changed");
    for (c, v) in ww.data.iter().zip(&e.data) {
        ensure!(c.date.month as f64 == v[1] && c.date.day as f64 == v[2] && close(c.date.hour, v[3], 0., 1e-5), "conversion", "{:?} for {:?}", c.date, &v[..4]);
        ensure!(c.date.hour < 24., "conversion", "the hour of {:?} is out of the day", c.date);
        let ir = c.horizontal_infrared_radiation_intensity.unwrap_or(f64::NAN);
        let pairs = [
            ("dry bulb", c.dry_bulb_temperature, v[6]),
            ("dew point", c.dew_point_temperature, v[7]),
            ("humidity", c.relative_humidity, v[8] / 100.),
            ("pressure", c.pressure, v[9]),
            ("infrared", ir, v[12]),
            ("global", c.global_horizontal_radiation, v[13]),
            ("direct", c.direct_normal_radiation, v[14]),
            ("diffuse", c.diffuse_horizontal_radiation, v[15]),
            ("wind direction", c.wind_direction, v[20] * PI / 180.),
            ("wind speed", c.wind_speed, v[21]),
            ("sky cover", c.opaque_sky_cover, v[23] / 10.),
        ];
        for (n, a, b) in pairs {
            ensure!(close(a, b, 1e-12, 1e-12), "conversion", "{} of {:?} is {} instead of {}", n, v, a, b);
        }
    }
    Ok(())
}
fn epw_half_hours(s: &mut Src) -> R {
    let e = epw(s, |s| {
        let z = *s.pick(&[5.5, -3.5, 9.5]);
        (z, format!("{}", z))
    });
    let text = join(s, &e.lines);
    s.nontrivial();
    s.note(|| text.clone());
    let w = read_epw(text.as_bytes())?;
    ensure!(w.location.timezone as f64 == e.loc.1[2], "half_hour_zone", "time zone {} was read as {}", e.loc.1[2], w.location.timezone);
    Ok(())
}
fn epw_mistakes(s: &mut Src) -> R {
    let mut e = epw(s, whole_zone);
    let what = s.us(0, 5);
    let n = e.lines.len();
    let must_fail;
    let mut bytes: Vec<u8>;
    match what {
        0 => {
            // a number that is not a number
            let l = s.us(e.first_data, n - 1);
            let mut f = s.us(0, 33);
            if f >= 5 {
                f += 1;
            }
            e.lines[l][f] = s.pick(&["x", "", "1.2.3", "--1", "1,2", "12C"]).to_string();
            must_fail = true;
            bytes = join(s, &e.lines).into_bytes();
        }
        1 => {
            // the last record is not complete
            let k = s.us(1, 34);
            e.lines[n - 1].truncate(35 - k);
            must_fail = true;
            bytes = e.lines.iter().map(|l| l.join(",")).collect::<Vec<_>>().join("\n").into_bytes();
        }
        2 => {
            let k = s.us(1, 2);
            e.lines[e.first_data - 1][k] = s.pick(&["2", "0", "x"]).to_string();
            must_fail = true;
            bytes = join(s, &e.lines).into_bytes();
        }
        3 => {
            let k = s.us(6, 9);
            e.lines[0][k] = s.pick(&["x", "", "S33", "1/2"]).to_string();
            must_fail = true;
            bytes = join(s, &e.lines).into_bytes();
        }
        4 => {
            must_fail = false;
            bytes = join(s, &e.lines).into_bytes();
            for _ in 0..s.us(1, 4) {
                let i = s.us(0, bytes.len() - 1);
                match s.draw(4) {
                    0 => bytes[i] = s.draw(256) as u8,
                    1 => {
                        bytes.remove(i);
                    }
                    2 => {
                        let c = *s.pick(b",\"\n\r-.e");
                        bytes.insert(i, c);
                    }
                    _ => bytes.truncate(i.max(1)),
                }
            }
        }
        _ => {
            must_fail = false;
            let k = s.us(0, n - 1);
            e.lines.remove(k);
            let k = s.us(0, n - 2);
            let m = s.us(0, e.lines[k].len());
            e.lines[k].truncate(m);
            bytes = join(s, &e.lines).into_bytes();
        }
    }
    s.note(|| format!("mistake {}: {}", what, String::from_utf8_lossy(&bytes)));
    s.nontrivial_if(must_fail || what == 4);
    let r = read_epw(&bytes);
    ensure!(!(must_fail && r.is_ok()), "accepted", "mistake {} was accepted\n{}", what, String::from_utf8_lossy(&bytes));
    if what == 0 {
        ensure!(EPWWeather::from_file("/nonexistent/vphys.epw").is_err(), "accepted", "a file that does not exist was read");
    }
    Ok(())
}

// ------------------------------------------------------------------ P05
const NF: usize = 11;
fn fields(c: &CurrentWeather) -> [f64; NF] {
    [
        c.dry_bulb_temperature,
        c.dew_point_temperature,
        c.global_horizontal_radiation,
        c.direct_normal_radiation,
        c.diffuse_horizontal_radiation,
        c.wind_speed,
        c.wind_direction,
        c.horizontal_infrared_radiation_intensity.unwrap_or(f64::INFINITY),
        c.opaque_sky_cover,
        c.relative_humidity,
        c.pressure,
    ]
}
fn record(s: &mut Src, date: Date) -> CurrentWeather {
    let ir = if s.chance(1, 6) { None } else { Some(s.f(100., 500.)) };
    CurrentWeather {
        date,
        dry_bulb_temperature: s.f(-40., 50.),
        dew_point_temperature: s.f(-40., 30.),
        global_horizontal_radiation: s.f(0., 1200.),
        direct_normal_radiation: s.f(0., 1200.),
        diffuse_horizontal_radiation: s.f(0., 700.),
        wind_speed: s.f(0., 30.),
        wind_direction: s.f(0., 6.28),
        horizontal_infrared_radiation_intensity: ir,
        opaque_sky_cover: s.f(0., 1.),
        relative_humidity: s.f(0., 1.),
        pressure: s.f(7e4, 1.05e5),
    }
}
fn interpolation(s: &mut Src) -> R {
    let n = s.few(1, 14, 300);
    let mut ds: Vec<Date> = vec![];
    let hourly = s.chance(1, 3);
    let start = date(s);
    for i in 0..n {
        let d = if hourly {
            // an hourly sequence, not through new year
            let mut d = start;
            for _ in 0..i {
                d.hour += 1.;
                if d.hour >= 24. {
                    d.hour -= 24.;
                    d.day += 1;
                    if d.day as u32 > MONTH[d.month as usize - 1] {
                        d.day = 1;
                        d.month = d.month % 12 + 1;
                    }
                }
            }
            d
        } else {
            date(s)
        };
        if !ds.iter().any(|x| day_of_year(*x) == day_of_year(d)) {
            ds.push(d);
        }
    }
    let mut w = Weather { data: ds.iter().map(|d| record(s, *d)).collect(), location: Location::default() };
    // shuffle and sort
    for i in (1..w.data.len()).rev() {
        let j = s.us(0, i);
        w.data.swap(i, j);
    }
    let mut expected = w.data.clone();
    expected.sort_by(|a, b| day_of_year(a.date).partial_cmp(&day_of_year(b.date)).unwrap());
    w.sort_data();
    ensure!(w.data.len() == expected.len() && w.data.iter().zip(&expected).all(|(a, b)| a.date == b.date && fields(a) == fields(b)), "sort", "sort_data() did not sort {:?}", ds);
    let q = match s.draw(3) {
        0 => w.data[s.us(0, w.data.len() - 1)].date,
        1 => {
            // near one of them
            let d = w.data[s.us(0, w.data.len() - 1)].date;
            Date { hour: (d.hour + s.f(-0.2, 0.2)).clamp(0., 23.999), ..d }
        }
        _ => date(s),
    };
    let c = w.find_weather_line(q);
    let c2 = w.get_weather_data(q);
    ensure!(fields(&c) == fields(&c2), "trait", "get_weather_data() and find_weather_line() differ");
    let t = day_of_year(q);
    let m = w.data.len();
    let k = expected.iter().take_while(|r| day_of_year(r.date) <= t).count();
    let (a, b) = (&expected[(k + m - 1) % m], &expected[k % m]);
    let ta = day_of_year(a.date) - if k == 0 { 365. } else { 0. };
    let tb = day_of_year(b.date) + if k == m { 365. } else { 0. };
    let x = (t - ta) / (tb - ta);
    let wraps = k == 0 || k == m;
    s.note(|| format!("records {:?}\nquery {:?} between {:?} and {:?}, x={}", expected.iter().map(|r| r.date).collect::<Vec<_>>(), q, a.date, b.date, x));
    s.nontrivial_if(m > 1 && t != ta);
    let what = if t == ta {
        "exact"
    } else if wraps {
        "over_new_year"
    } else {
        "between"
    };
    let (fa, fb, fc) = (fields(a), fields(b), fields(&c));
    for i in 0..NF {
        let exp = if t == ta {
            fa[i]
        } else if fa[i].is_infinite() || fb[i].is_infinite() {
            f64::INFINITY
        } else {
            fa[i] + x * (fb[i] - fa[i])
        };
        ensure!(close(fc[i], exp, 1e-7, 1e-7), what, "field {} at {:?}, between {:?} ({}) and {:?} ({}), is {} instead of {}", i, q, a.date, fa[i], b.date, fb[i], fc[i], exp);
    }
    let dt = (day_of_year(c.date) - t).abs();
    ensure!(m == 1 || dt.min((dt - 365.).abs()) < 1e-6, "date", "the record for {:?} is dated {:?}", q, c.date);
    // concatenating
    let cut = s.us(0, m);
    let mut w1 = Weather { data: expected[..cut].to_vec(), location: w.location.clone() };
    w1 += Weather { data: expected[cut..].to_vec(), location: w.location.clone() };
    ensure!(w1.data.len() == m && w1.data.iter().zip(&expected).all(|(a, b)| a.date == b.date && fields(a) == fields(b)), "concatenate", "records changed when adding two weathers");
    let other = Location { latitude: 0.1, ..Location::default() };
    let panicked = quiet_panic(move || w1 += Weather { data: vec![], location: other }).is_none();
    ensure!(panicked, "concatenate", "weathers of different places can be added");
    Ok(())
}
struct Sch(u64, f64);
impl schedule::Schedule<f64> for Sch {
    fn get(&self, d: Date) -> Option<f64> {
        if (d.hour as u64 + d.day as u64) % 5 == self.0 {
            None
        } else {
            Some(self.1 + d.month as f64 + d.hour)
        }
    }
}
fn synthetic(s: &mut Src) -> R {
    let mut w = SyntheticWeather::default();
    let p: Vec<Option<(u64, f64)>> = (0..NF)
        .map(|_| {
            let v = s.f(0., 10.);
            let k = s.draw(6);
            if s.chance(2, 3) {
                Some((k, v))
            } else {
                None
            }
        })
        .collect();
    let mk = |i: usize| -> Box<dyn schedule::Schedule<f64>> {
        match p[i] {
            Some(x) => Box::new(Sch(x.0, x.1)),
            None => Box::new(schedule::EmptySchedule),
        }
    };
    w.dry_bulb_temperature = mk(0);
    w.dew_point_temperature = mk(1);
    w.global_horizontal_radiation = mk(2);
    w.direct_normal_radiation = mk(3);
    w.diffuse_horizontal_radiation = mk(4);
    w.wind_speed = mk(5);
    w.wind_direction = mk(6);
    w.horizontal_infrared_radiation_intensity = mk(7);
    w.opaque_sky_cover = mk(8);
    w.relative_humidity = mk(9);
    w.pressure = mk(10);
    s.nontrivial_if(p.iter().any(|x| x.is_none()) && p.iter().any(|x| x.is_some()));
    s.note(|| format!("{:?}", p));
    for _ in 0..4 {
        let d = date(s);
        let c = w.get_weather_data(d);
        let f = fields(&c);
        ensure!(c.date == d, "date", "the record for {:?} is dated {:?}", d, c.date);
        for i in 0..NF {
            let def = match i {
                7 => f64::INFINITY,
                9 => 0.5,
                10 => 101300.,
                _ => 0.,
            };
            let exp = p[i].and_then(|x| schedule::Schedule::get(&Sch(x.0, x.1), d)).unwrap_or(def);
            ensure!(f[i] == exp, "field", "field {} at {:?} is {} instead of {}", i, d, f[i], exp);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P06
fn b_of(n: f64) -> f64 {
    (n - 1.) * 2. * PI / 365.
}
fn ref_declination(n: f64) -> f64 {
    let b = b_of(n);
    0.006918 - 0.399912 * b.cos() + 0.070257 * b.sin() - 0.006758 * (2. * b).cos() + 0.000907 * (2. * b).sin() - 0.002697 * (3. * b).cos() + 0.00148 * (3. * b).sin()
}
fn ref_eot(n: f64) -> f64 {
    let b = b_of(n);
    229.2 * (0.000075 + 0.001868 * b.cos() - 0.032077 * b.sin() - 0.014615 * (2. * b).cos() - 0.04089 * (2. * b).sin())
}
fn ref_extra(n: f64) -> f64 {
    let b = b_of(n);
    1367.7 * (1.00011 + 0.034221 * b.cos() + 0.00128 * b.sin() + 0.000719 * (2. * b).cos() + 0.000077 * (2. * b).sin())
}
struct Site {
    lat: f64,
    lon: f64,
    tz: i64,
    solar: Solar,
}
fn site(s: &mut Src) -> Site {
    let lat = match s.draw(4) {
        0 => *s.pick(&[0., 0.4, -0.4, 0.41, 1.2, -1.2, 1.4, -1.55]),
        _ => s.f(-89.9, 89.9).to_radians(),
    };
    let lon = s.f(-180., 180.);
    let tz = ((lon / 15.).round() as i64 + s.int(-2, 2)).clamp(-12, 14);
    let solar = if s.bool() {
        Solar::new(lat, -lon.to_radians(), -(tz as f64 * 15.).to_radians())
    } else {
        Location { latitude: lat, longitude: lon.to_radians(), timezone: tz as i8, ..Location::default() }.get_solar()
    };
    Site { lat, lon, tz, solar }
}
/// solar time of a standard time, both in days
fn ref_solar_time(site: &Site, n: f64) -> f64 {
    n + (4. * (site.lon - site.tz as f64 * 15.) + ref_eot(n)) / 1440.
}
/// towards the sun: x is east, y is north
fn ref_sun(lat: f64, n: f64) -> [f64; 3] {
    let d = ref_declination(n);
    let w = (n * 24. - 12.) * 15. * PI / 180.;
    [-d.cos() * w.sin(), d.sin() * lat.cos() - d.cos() * lat.sin() * w.cos(), d.sin() * lat.sin() + d.cos() * lat.cos() * w.cos()]
}
fn same(a: Option<Vector3D>, b: Option<Vector3D>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => (a - b).length() < 1e-4 || (a.z > 0.9998 && b.z > 0.9998),
        (None, None) => true,
        // setting or rising
        (Some(a), None) | (None, Some(a)) => a.z < 1e-6,
    }
}
fn sun(s: &mut Src) -> R {
    let site = site(s);
    let d = date(s);
    let n0 = day_of_year(d);
    let standard = s.chance(2, 3);
    let n = if standard { ref_solar_time(&site, n0) } else { n0 };
    let e = ref_sun(site.lat, n);
    s.note(|| format!("latitude {} deg, longitude {}, GMT{:+}, {:?} ({}): sun at {:?}", site.lat.to_degrees(), site.lon, site.tz, d, if standard { "standard" } else { "solar" }, e));
    let f = if standard {
        let a = site.solar.sun_position_from_standard_time(d);
        let b = site.solar.sun_position(Time::Standard(n0));
        ensure!(same(a, b), "same", "{:?} and {:?}", a, b);
        a
    } else {
        let a = site.solar.sun_position_from_solar_time(d);
        let b = site.solar.sun_position(Time::Solar(n0));
        ensure!(same(a, b), "same", "{:?} and {:?}", a, b);
        a
    };
    let t = if standard { Time::Standard(n0) } else { Time::Solar(n0) };
    ensure!(close(site.solar.unwrap_solar_time(t), n, 0., 1e-9), "solar_time", "solar time {} instead of {}", site.solar.unwrap_solar_time(t), n);
    let ha = site.solar.hour_angle(t);
    let exp = ((n.rem_euclid(1.)) * 24. - 12.) * 15. * PI / 180.;
    ensure!(((ha - exp) / 2.).sin().abs() < 1e-7, "hour_angle", "hour angle {} instead of {}", ha, exp);
    match f {
        None => ensure!(e[2] < 1e-6, "set", "no sun, but it is at {:?} (lat {} deg, n={})", e, site.lat.to_degrees(), n),
        Some(v) => {
            s.nontrivial();
            ensure!(e[2] > -1e-6, "risen", "sun at {:?}, but it is at {:?}", v, e);
            ensure!(close(v.length(), 1., 0., 1e-6), "length", "{:?}", v);
            ensure!(v.z >= 0., "below", "{:?}", v);
            let err = ((v.x - e[0]).powi(2) + (v.y - e[1]).powi(2) + (v.z - e[2]).powi(2)).sqrt();
            // less than 0.8 degrees from the zenith is considered vertical
            let tol = if e[2] > 0.99989 { 0.0155 } else { 2e-4 };
            ensure!(err < tol, "position", "sun at {:?}, but it is at {:?} (lat {} deg, n={})", v, e, site.lat.to_degrees(), n);
        }
    }
    Ok(())
}
fn sun_times(s: &mut Src) -> R {
    let site = site(s);
    let n = s.f(0.0, 364.99);
    let so = &site.solar;
    s.note(|| format!("latitude {} deg, longitude {}, GMT{:+}, n={}", site.lat.to_degrees(), site.lon, site.tz, n));
    ensure!(close(so.declination(n), ref_declination(n), 0., 1e-9), "declination", "{} instead of {}", so.declination(n), ref_declination(n));
    ensure!(so.declination(n).abs() < 23.6f64.to_radians(), "declination", "{}", so.declination(n));
    ensure!(close(so.equation_of_time(n), ref_eot(n), 0., 1e-8), "equation_of_time", "{} instead of {}", so.equation_of_time(n), ref_eot(n));
    ensure!(close(so.normal_extraterrestrial_radiation(n), ref_extra(n), 1e-9, 0.), "extraterrestrial", "{} instead of {}", so.normal_extraterrestrial_radiation(n), ref_extra(n));
    let diff = 4. * (site.lon - site.tz as f64 * 15.) + ref_eot(n);
    ensure!(close(so.solar_standard_time_difference(n), diff, 0., 1e-7), "time_difference", "{} instead of {}", so.solar_standard_time_difference(n), diff);
    let t = so.unwrap_solar_time(Time::Standard(n));
    ensure!(close(t, n + diff / 1440., 0., 1e-9), "solar_time", "{} instead of {}", t, n + diff / 1440.);
    ensure!(so.unwrap_solar_time(Time::Solar(n)) == n && so.unwrap_standard_time(Time::Standard(n)) == n, "identity", "times in their own units change");
    let back = so.unwrap_standard_time(Time::Solar(t));
    // the equation of time changes less than 0.6 minutes a day
    ensure!(close(back, n, 0., 0.6 * 1.1 / 1440.), "round_trip", "{} -> {} -> {}", n, t, back);
    // sunrise and sunset
    let c = -site.lat.tan() * ref_declination(n).tan();
    if c.abs() < 0.9999 {
        s.nontrivial();
        let (a, b) = so.sunrise_sunset(n);
        let (a, b) = match (a, b) {
            (Time::Solar(a), Time::Solar(b)) => (a, b),
            _ => bail!("sunrise", "sunrise and sunset are not in solar time"),
        };
        let half = c.acos() / 2. / PI;
        ensure!(close(a, n.floor() + 0.5 - half, 0., 1e-7) && close(b, n.floor() + 0.5 + half, 0., 1e-7), "sunrise", "from {} to {}, but should be {} around {}", a, b, half, n.floor() + 0.5);
        // around the sunrise of this very day and declination
        let mid = n.floor() + 0.5;
        for (t, up) in [(mid - half + 0.03, true), (mid + half - 0.03, true), (mid - half - 0.03, false), (mid + half + 0.03, false)] {
            if half > 0.1 && half < 0.4 && t.floor() == n.floor() && ref_sun(site.lat, t)[2].abs() > 1e-3 {
                ensure!(so.sun_position(Time::Solar(t)).is_some() == up || (ref_sun(site.lat, t)[2] > 0.) != up, "sunrise", "the sun is wrong at {} ({} to {})", t, a, b);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P07
fn dir(s: &mut Src) -> Vector3D {
    let z = s.f(-1., 1.);
    let a = s.f(0., 2. * PI);
    let r = (1. - z * z).max(0.).sqrt();
    Vector3D::new(r * a.sin(), r * a.cos(), z).get_normalized()
}
const TNAZ: [usize; 7] = [30, 30, 24, 24, 18, 12, 6];
/// (row, first bin) of every row; the last one is the cap
fn rows(mf: usize) -> Vec<(usize, usize)> {
    let mut first = 1;
    let mut ret = vec![];
    for r in 0..7 * mf {
        let n = TNAZ[r / mf] * mf;
        ret.push((n, first));
        first += n;
    }
    ret.push((1, first));
    ret
}
fn reinhart(s: &mut Src) -> R {
    let mf = s.us(1, 8);
    let r = ReinhartSky::new(mf);
    let rows = rows(mf);
    let n = 144 * mf * mf + 2;
    ensure!(r.n_bins == n && ReinhartSky::n_bins(mf) == n, "bins", "mf {}: {} and {} bins instead of {}", mf, r.n_bins, ReinhartSky::n_bins(mf), n);
    let h = PI / 2. / (7. * mf as f64 + 0.5);
    // any direction
    let d = dir(s);
    let bin = r.dir_to_bin(d);
    ensure!(bin < n, "bins", "{:?} is in bin {} of {}", d, bin, n);
    let alt = d.z.asin();
    let row = ((alt / h).floor() as i64).clamp(-1, 7 * mf as i64);
    let near = (alt / h - (alt / h).round()).abs() < 1e-6;
    s.note(|| format!("mf={} direction {:?}: bin {}", mf, d, bin));
    if !near {
        if row < 0 {
            ensure!(bin == 0, "ground", "{:?} points to the ground but is in bin {}", d, bin);
        } else {
            let (k, first) = rows[row as usize];
            let az = d.x.atan2(d.y).rem_euclid(2. * PI) / (2. * PI) * k as f64;
            if k == 1 || (az + 0.5 - (az + 0.5).round()).abs() > 1e-6 {
                s.nontrivial();
                let exp = if k == 1 { first } else { first + (az + 0.5).floor() as usize % k };
                ensure!(bin == exp, "bin", "mf {}: {:?} is in bin {} instead of {}", mf, d, bin, exp);
            }
        }
    }
    // any bin
    let b = s.us(0, n - 1);
    let c = r.bin_dir(b);
    ensure!(close(c.length(), 1., 0., 1e-9), "bin_dir", "{:?} of bin {} is not normalised", c, b);
    ensure!(r.dir_to_bin(c) == b, "bin_dir", "mf {}: the direction {:?} of bin {} is in bin {}", mf, c, b, r.dir_to_bin(c));
    let omega = r.bin_solid_angle(b);
    let exp = if b == 0 {
        2. * PI
    } else {
        let row = rows.iter().rposition(|x| x.1 <= b).unwrap();
        let (k, _) = rows[row];
        let top = ((row as f64 + 1.) * h).min(PI / 2.);
        2. * PI * (top.sin() - (row as f64 * h).sin()) / k as f64
    };
    ensure!(close(omega, exp, 1e-6, 1e-12), "solid_angle", "mf {}: the solid angle of bin {} is {} instead of {}", mf, b, omega, exp);
    // the centre is in the middle of its patch
    if b > 0 && b < n - 1 {
        let row = rows.iter().rposition(|x| x.1 <= b).unwrap();
        let (k, first) = rows[row];
        let a = 2. * PI * (b - first) as f64 / k as f64;
        let alt = (row as f64 + 0.5) * h;
        let e = Vector3D::new(a.sin() * alt.cos(), a.cos() * alt.cos(), alt.sin());
        ensure!((c - e).length() < 1e-6, "bin_dir", "mf {}: bin {} points to {:?} instead of {:?}", mf, b, c, e);
    }
    if s.chance(1, 20) {
        let total: f64 = (1..n).map(|b| r.bin_solid_angle(b)).sum();
        ensure!(close(total, 2. * PI, 1e-6, 0.), "solid_angle", "the sky measures {}", total);
    }
    Ok(())
}

const PEREZ: [[f64; 20]; 8] = [
    [1.3525, -0.2576, -0.2690, -1.4366, -0.7670, 0.0007, 1.2734, -0.1233, 2.8000, 0.6004, 1.2375, 1.0000, 1.8734, 0.6297, 0.9738, 0.2809, 0.0356, -0.1246, -0.5718, 0.9938],
    [-1.2219, -0.7730, 1.4148, 1.1016, -0.2054, 0.0367, -3.9128, 0.9156, 6.9750, 0.1774, 6.4477, -0.1239, -1.5798, -0.5081, -1.7812, 0.1080, 0.2624, 0.0672, -0.2190, -0.4285],
    [-1.1000, -0.2515, 0.8952, 0.0156, 0.2782, -0.1812, -4.5000, 1.1766, 24.7219, -13.0812, -37.7000, 34.8438, -5.0000, 1.5218, 3.9229, -2.6204, -0.0156, 0.1597, 0.4199, -0.5562],
    [-0.5484, -0.6654, -0.2672, 0.7117, 0.7234, -0.6219, -5.6812, 2.6297, 33.3389, -18.3000, -62.2500, 52.0781, -3.5000, 0.0016, 1.1477, 0.1062, 0.4659, -0.3296, -0.0876, -0.0329],
    [-0.6000, -0.3566, -2.5000, 2.3250, 0.2937, 0.0496, -5.6812, 1.8415, 21.0000, -4.7656, -21.5906, 7.2492, -3.5000, -0.1554, 1.4062, 0.3988, 0.0032, 0.0766, -0.0656, -0.1294],
    [-1.0156, -0.3670, 1.0078, 1.4051, 0.2875, -0.5328, -3.8500, 3.3750, 14.0000, -0.9999, -7.1406, 7.5469, -3.4000, -0.1078, -1.0750, 1.5702, -0.0672, 0.4016, 0.3017, -0.4844],
    [-1.0000, 0.0211, 0.5025, -0.5119, -0.3000, 0.1922, 0.7023, -1.6317, 19.0000, -5.0000, 1.2438, -1.9094, -4.0000, 0.0250, 0.3844, 0.2656, 1.0468, -0.3788, -2.4517, 1.4656],
    [-1.0500, 0.0289, 0.4260, 0.3590, -0.3250, 0.1156, 0.7781, 0.0025, 31.0625, -14.5000, -46.1148, 55.3750, -7.2312, 0.4050, 13.3500, 0.6234, 1.5000, -0.6426, 1.8564, 0.5636],
];
const DIFF_EFF: [[f64; 4]; 8] = [
    [97.24, -0.46, 12.00, -8.91],
    [107.22, 1.15, 0.59, -3.95],
    [104.97, 2.96, -5.53, -8.77],
    [102.39, 5.59, -13.95, -13.90],
    [100.71, 5.94, -22.75, -23.74],
    [106.42, 3.83, -36.15, -28.83],
    [141.88, 1.90, -53.24, -14.03],
    [152.23, 0.35, -45.27, -7.98],
];
const DIR_EFF: [[f64; 4]; 8] = [
    [57.20, -4.55, -2.98, 117.12],
    [98.99, -3.46, -1.21, 12.38],
    [109.83, -4.90, -1.71, -8.81],
    [110.34, -5.84, -1.99, -4.56],
    [106.36, -3.97, -1.75, -6.16],
    [107.19, -1.25, -1.51, -26.73],
    [105.75, 0.77, -1.26, -34.44],
    [101.18, 1.58, -1.10, -8.29],
];
const CLEARNESS: [f64; 7] = [1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2];
struct RefPerez {
    sun: Vector3D,
    p: [f64; 5],
    norm: f64,
    /// W/m2 (visible or solar) of the sky and of the sun
    diff: f64,
    direct: f64,
}
impl RefPerez {
    fn new(sun: Vector3D, extra: f64, visible: bool, dew: f64, diff: f64, direct: f64) -> Option<RefPerez> {
        let z = sun.z.clamp(0., 3f64.to_radians().cos()).acos();
        let mass = 1. / (z.cos() + 0.15 * (93.885 - z.to_degrees()).powf(-1.253));
        let mut delta = (diff * mass / extra).max(0.01);
        let k = 1.041 * z.powi(3);
        let eps = (((diff + direct) / diff + k) / (1. + k)).min(11.9);
        // too close to a change of category, or to the minimum
        if CLEARNESS.iter().any(|c| (eps - c).abs() < 1e-6) {
            return None;
        }
        let cat = CLEARNESS.iter().filter(|c| eps >= **c).count();
        let w = (0.07 * dew - 0.075).exp();
        let de = DIFF_EFF[cat];
        let se = DIR_EFF[cat];
        let deff = de[0] + de[1] * w + de[2] * sun.z + de[3] * delta.ln();
        let seff = (se[0] + se[1] * w + se[2] * (5.73 * z - 5.).exp() + se[3] * delta).max(0.);
        let (d, b) = if visible { (diff * deff / 179., direct * seff / 179.) } else { (diff, direct) };
        if eps > 1.065 && eps < 2.8 {
            delta = delta.max(0.2);
        }
        let x = |i: usize, j: usize| PEREZ[cat][4 * i + j];
        let mut p = [0.; 5];
        for (i, p) in p.iter_mut().enumerate() {
            *p = x(i, 0) + x(i, 1) * z + delta * (x(i, 2) + x(i, 3) * z);
        }
        if cat == 0 {
            p[2] = (delta * (x(2, 0) + x(2, 1) * z)).powf(x(2, 2)).exp() - x(2, 3);
            p[3] = -(delta * (x(3, 0) + x(3, 1) * z)).exp() + x(3, 2) + delta * x(3, 3);
        }
        let mut r = RefPerez { sun, p, norm: 1., diff: d, direct: b };
        // Tregenza's patches
        let h = PI / 2. / 7.5;
        let mut total = 0.;
        for (row, (k, _)) in rows(1).iter().enumerate() {
            let top = ((row as f64 + 1.) * h).min(PI / 2.);
            let omega = 2. * PI * (top.sin() - (row as f64 * h).sin()) / *k as f64;
            for i in 0..*k {
                let a = 2. * PI * i as f64 / *k as f64;
                let alt: f64 = if *k == 1 { PI / 2. } else { (row as f64 + 0.5) * h };
                let d = Vector3D::new(a.sin() * alt.cos(), a.cos() * alt.cos(), alt.sin());
                total += r.rel(d).max(0.) * omega * d.z;
            }
        }
        // (a bright sky with the sun on the horizon overflows)
        if (total - 1e-4).abs() < 1e-5 || !(total < 1e30) {
            return None;
        }
        r.norm = if total > 1e-4 { d / total } else { 0. };
        Some(r)
    }
    fn rel(&self, d: Vector3D) -> f64 {
        let cg = (self.sun * d).clamp(-1., 1.);
        let g = cg.acos();
        let p = self.p;
        let v = (1. + p[0] * (p[1] / d.z.max(0.01)).exp()) * (1. + p[2] * (p[3] * g).exp() + p[4] * cg * cg);
        if v.is_nan() {
            0.
        } else {
            v
        }
    }
    fn sky(&self, d: Vector3D) -> f64 {
        self.rel(d) * self.norm
    }
}
fn radiation(s: &mut Src) -> (f64, f64) {
    let diff = if s.chance(1, 8) { s.f(0.1, 5.) } else { s.f(0.1, 600.) };
    let direct = match s.draw(4) {
        0 => 0.,
        1 => s.f(0., 50.),
        _ => s.f(0., 1000.),
    };
    (diff, direct)
}
/// A moment in which the sun is up
fn daytime(s: &mut Src) -> Option<(Site, Date, Vector3D, f64)> {
    let site = site(s);
    let d = date(s);
    let n = ref_solar_time(&site, day_of_year(d));
    let sun = site.solar.sun_position_from_standard_time(d)?;
    Some((site, d, sun, ref_extra(n)))
}
fn units(v: bool) -> SkyUnits {
    if v {
        SkyUnits::Visible
    } else {
        SkyUnits::Solar
    }
}
fn perez_sky(s: &mut Src) -> R {
    let Some((site, d, sun, extra)) = daytime(s) else { return Ok(()) };
    let visible = s.bool();
    let dew = s.f(-20., 25.);
    let (diff, direct) = radiation(s);
    let Some(r) = RefPerez::new(sun, extra, visible, dew, diff, direct) else { return Ok(()) };
    let f = PerezSky::get_sky_func_standard_time(units(visible), &site.solar, d, dew, diff, direct);
    s.nontrivial_if(r.norm > 0.);
    s.note(|| format!("lat {} deg {:?} sun {:?} diffuse {} direct {} dew {} visible {}", site.lat.to_degrees(), d, sun, diff, direct, dew, visible));
    // horizontal irradiance of the sky
    let t = ReinhartSky::new(1);
    let mut total = 0.;
    for b in 1..t.n_bins {
        let d = t.bin_dir(b);
        total += f(d).max(0.) * t.bin_solid_angle(b) * d.z;
    }
    if r.norm != 0. && r.diff > 0. {
        ensure!(close(total, r.diff, 1e-5, 1e-9), "irradiance", "the sky gives {} W/m2 on a horizontal surface, instead of {} (diffuse {} direct {} sun {:?} visible {})", total, r.diff, diff, direct, sun, visible);
    }
    for i in 0..6 {
        let mut d = dir(s);
        d.z = d.z.abs();
        if i == 0 {
            d = sun;
        }
        let (a, b) = (f(d), r.sky(d));
        if !(r.rel(d).abs() < 1e30) {
            continue;
        }
        ensure!(close(a, b, 1e-5, 1e-7 * diff), "radiance", "the sky towards {:?} (sun {:?}) is {} instead of {} (diffuse {} direct {} dew {} visible {})", d, sun, a, b, diff, direct, dew, visible);
    }
    // its parts
    let z = sun.z.clamp(0., 3f64.to_radians().cos()).acos();
    let k = 1.041 * z.powi(3);
    let c = PerezSky::sky_clearness(diff, direct, z);
    ensure!(close(c, ((diff + direct) / diff + k) / (1. + k), 1e-9, 0.), "clearness", "{}", c);
    let b = PerezSky::sky_brightness(diff, air_mass(z), extra);
    ensure!(close(b, (diff * air_mass(z) / extra).max(0.01), 1e-9, 0.), "brightness", "{}", b);
    Ok(())
}
fn weather_of(s: &mut Src, d: Date, dew: f64, diff: f64, direct: f64, sun_z: f64) -> CurrentWeather {
    CurrentWeather { date: d, dew_point_temperature: dew, diffuse_horizontal_radiation: diff, direct_normal_radiation: direct, global_horizontal_radiation: diff + direct * sun_z, ..record(s, d) }
}
fn col(v: &matrix::Matrix) -> Vec<f64> {
    (0..v.size().0).map(|i| v.get(i, 0).unwrap()).collect()
}
fn sky_vector(s: &mut Src) -> R {
    let mf = *s.pick(&[1, 1, 2, 3, 4]);
    let n = ReinhartSky::n_bins(mf);
    let visible = s.bool();
    let dew = s.f(-20., 25.);
    let albedo = if s.chance(1, 4) { 0. } else { s.f(0., 1.) };
    let (mut diff, mut direct) = radiation(s);
    let (sky, sun_on) = (s.chance(3, 4), s.chance(3, 4));
    if s.chance(1, 10) {
        diff = 0.;
        direct = 0.;
    }
    let site = site(s);
    let d = date(s);
    let ns = ref_solar_time(&site, day_of_year(d));
    let pos = site.solar.sun_position_from_standard_time(d);
    let w = weather_of(s, d, dew, diff, direct, pos.map(|p| p.z).unwrap_or(0.));
    let w = CurrentWeather { dew_point_temperature: dew, diffuse_horizontal_radiation: diff, direct_normal_radiation: direct, ..w };
    let v = PerezSky::gen_sky_vec(mf, &site.solar, d, w, units(visible), albedo, sky, sun_on)?;
    ensure!(v.size() == (n, 1), "size", "{:?} for mf {}", v.size(), mf);
    let v = col(&v);
    s.note(|| format!("mf {} lat {} deg {:?} sun {:?} diffuse {} direct {} albedo {} sky {} sun {} visible {}", mf, site.lat.to_degrees(), d, pos, diff, direct, albedo, sky, sun_on, visible));
    ensure!(v.iter().all(|x| x.is_finite()), "finite", "some element of the sky vector is not finite");
    let sun = match pos {
        Some(p) if diff + direct >= 1e-4 => p,
        _ => {
            ensure!(v.iter().all(|x| *x == 0.), "night", "the sky vector is not zero at night: {:?} {:?}", site.lat, d);
            return Ok(());
        }
    };
    let Some(r) = RefPerez::new(sun, ref_extra(ns), visible, dew, diff, direct) else { return Ok(()) };
    if diff == 0. {
        return Ok(());
    }
    s.nontrivial_if(sky && sun_on && direct > 1.);
    let rs = ReinhartSky::new(mf);
    // what the sun adds
    let mut rest = vec![0.; n];
    for b in 0..n {
        let e = if b == 0 {
            if albedo > 1e-6 {
                albedo * (r.diff + r.direct * sun.z) / PI
            } else {
                0.
            }
        } else if sky {
            r.sky(rs.bin_dir(b))
        } else {
            0.
        };
        rest[b] = v[b] - e;
    }
    let mut by_distance: Vec<usize> = (0..n).collect();
    let dots: Vec<f64> = (0..n).map(|b| rs.bin_dir(b) * sun).collect();
    by_distance.sort_by(|a, b| dots[*b].partial_cmp(&dots[*a]).unwrap());
    let tol = 1e-5 * (diff + direct) + 1e-6;
    if !sun_on || direct <= 1e-4 {
        for b in 0..n {
            ensure!(rest[b].abs() < tol + 1e-5 * v[b].abs(), "sky", "bin {} is {} but should be {}", b, v[b], v[b] - rest[b]);
        }
    } else {
        // close to ties, any of them can be chosen
        let limit = dots[by_distance[3]] - 1e-9;
        let mut w = 0.;
        let mut slack = 0.;
        for b in 0..n {
            if dots[b] >= limit {
                slack += 1e-4 * v[b].abs() * rs.bin_solid_angle(b);
                w += rest[b] * rs.bin_solid_angle(b);
                ensure!(rest[b] > -tol - 1e-5 * v[b].abs(), "sun", "the sun makes bin {} darker", b);
            } else {
                ensure!(rest[b].abs() < tol + 1e-5 * v[b].abs(), "sky", "bin {} is {} but should be {}; it is not one of the closest to the sun", b, v[b], v[b] - rest[b]);
            }
        }
        ensure!(close(w, r.direct, 1e-4, tol + slack), "sun", "the sun in the sky vector measures {} W/m2 instead of {} ({} direct, {} diffuse, sun {:?})", w, r.direct, direct, diff, sun);
        // closer patches get more of it
        let share: Vec<f64> = by_distance[..4].iter().map(|b| rest[*b] * rs.bin_solid_angle(*b)).collect();
        let ws: Vec<f64> = by_distance[..4].iter().map(|b| 1. / (1.002 - dots[*b])).collect();
        let tw: f64 = ws.iter().sum();
        if dots[by_distance[3]] - dots[by_distance[4]] > 1e-6 {
            for k in 0..4 {
                ensure!(close(share[k], r.direct * ws[k] / tw, 1e-3, tol + slack), "sun", "patch {} closest to the sun gets {} W/m2, instead of {}", k, share[k], r.direct * ws[k] / tw);
            }
        }
    }
    // wrong sizes are refused
    let mut bad = matrix::Matrix::new(0., n + 1, 1);
    ensure!(PerezSky::update_sky_vec(&mut bad, mf, &site.solar, d, w, units(visible), albedo, sky, sun_on).is_err(), "size", "a vector of the wrong size was accepted");
    Ok(())
}

// ------------------------------------------------------------------ P08
fn ref_disc(extra: f64, zenith: f64, global_normal: f64, pressure: f64) -> f64 {
    let kt = global_normal / extra;
    if kt <= 0. || zenith > 80f64.to_radians() {
        return 0.;
    }
    let kt = kt.min(1.);
    let m = air_mass_ref(zenith) * pressure / 101300.;
    let (a, b, c) = if kt > 0.6 {
        (-5.743 + 21.77 * kt - 27.49 * kt * kt + 11.56 * kt.powi(3), 41.4 - 118.5 * kt + 66.05 * kt * kt + 31.9 * kt.powi(3), -47.01 + 184.2 * kt - 222. * kt * kt + 73.81 * kt.powi(3))
    } else {
        (0.512 - 1.56 * kt + 2.286 * kt * kt - 2.222 * kt.powi(3), 0.37 + 0.962 * kt, -0.28 + 0.932 * kt - 2.048 * kt * kt)
    };
    let knc = 0.866 - 0.122 * m + 0.0121 * m * m - 0.000653 * m.powi(3) + 0.000014 * m.powi(4);
    (extra * (knc - (a + b * (c * m).exp()))).max(0.)
}
fn air_mass_ref(z: f64) -> f64 {
    1. / (z.cos() + 0.15 * (93.885 - z.to_degrees()).powf(-1.253))
}
/// `None` when too close to a limit of the tables
fn ref_dirint(extra: f64, sun_z: f64, w: &CurrentWeather, next: Option<(f64, &CurrentWeather)>, prev: Option<(f64, &CurrentWeather)>) -> Option<f64> {
    let z = sun_z.acos();
    let lim = |v: f64, l: &[f64]| -> Option<usize> {
        if l.iter().any(|x| (x - v).abs() < 1e-9) {
            return None;
        }
        Some(l.iter().filter(|x| v > **x).count())
    };
    let zl = [25., 40., 55., 70., 80.].map(|x: f64| x.to_radians());
    let zb = lim(z, &zl)?;
    if zb == 5 {
        return Some(0.);
    }
    let gn = w.global_horizontal_radiation / sun_z;
    let m = air_mass_ref(z) * w.pressure / 101300.;
    let f = |kt: f64| kt / (1.031 * (-1.4 / (0.9 + 9.4 / m)).exp() + 0.1);
    let kt = f((gn / extra).clamp(0., 1.)).clamp(0., 1.);
    let of = |o: Option<(f64, &CurrentWeather)>| o.map(|(e, w)| f(w.global_horizontal_radiation / sun_z / e)).unwrap_or(kt);
    let dk = (0.5 * ((kt - of(next)).abs() + (kt - of(prev)).abs())).clamp(0., 1.);
    let kb = lim(kt, &[0.24, 0.4, 0.56, 0.7, 0.8])?;
    let db = lim(dk, &[0.015, 0.035, 0.07, 0.15, 0.3])?;
    let wb = lim((0.07 * w.dew_point_temperature - 0.075).exp(), &[1., 2., 3.])?;
    Some(DIRINT[kb][zb][db * 5 + wb] * ref_disc(extra, z, gn, w.pressure))
}
fn direct_estimates(s: &mut Src) -> R {
    let Some((site, d, sun, extra)) = daytime(s) else { return Ok(()) };
    let so = site.solar;
    let n = day_of_year(d);
    let w = record(s, d);
    let w = CurrentWeather { global_horizontal_radiation: w.global_horizontal_radiation * sun.z, ..w };
    s.note(|| format!("lat {} deg {:?} sun {:?} {:?}", site.lat.to_degrees(), d, sun, w));
    let z = sun.z.acos();
    s.nontrivial_if(z < 75f64.to_radians() && w.global_horizontal_radiation > 0.);
    ensure!(close(air_mass(z), air_mass_ref(z), 1e-9, 0.) && air_mass(z) > 0.99 * 1. / (z.cos() + 0.3), "air_mass", "{} at {}", air_mass(z), z);
    let gn = w.global_horizontal_radiation / sun.z;
    let kt = so.hourly_clearness_index(Time::Standard(n), gn);
    ensure!(close(kt, gn / extra, 1e-9, 0.), "clearness", "{} instead of {}", kt, gn / extra);
    if (z - 80f64.to_radians()).abs() > 1e-9 && (kt - 0.6).abs() > 1e-9 && gn > 0. {
        let a = so.disc_direct_solar(Time::Standard(n), sun, gn, w.pressure);
        let b = ref_disc(extra, z, gn, w.pressure);
        ensure!(close(a, b, 1e-6, 1e-6), "disc", "{} instead of {} (z={} global normal {} pressure {})", a, b, z, gn, w.pressure);
        ensure!(a >= 0., "disc", "{}", a);
    }
    let other = |s: &mut Src, dh: f64| -> Option<CurrentWeather> {
        if s.chance(1, 4) {
            return None;
        }
        let g = if s.bool() { w.global_horizontal_radiation * s.f(0.8, 1.2) } else { s.f(0., 1200.) * sun.z };
        let hour = (d.hour + dh).clamp(0., 23.99);
        Some(CurrentWeather { date: Date { hour, ..d }, global_horizontal_radiation: g, ..w })
    };
    let next = other(s, 1.);
    let prev = other(s, -1.);
    let ex = |w: &CurrentWeather| ref_extra(ref_solar_time(&site, day_of_year(w.date)));
    let e = ref_dirint(extra, sun.z, &w, next.as_ref().map(|w| (ex(w), w)), prev.as_ref().map(|w| (ex(w), w)));
    let a = so.perez_direct_normal_radiation(sun, w, next, prev);
    if let Some(e) = e {
        if gn > 0. && (kt - 0.6).abs() > 1e-9 {
            ensure!(close(a, e, 1e-6, 1e-6), "dirint", "{} instead of {}: {:?}, sun {:?}, next {:?} prev {:?}", a, e, w, sun, next.map(|w| w.global_horizontal_radiation), prev.map(|w| w.global_horizontal_radiation));
        }
    }
    // clear sky
    let el = s.f(0., 2500.) / 1000.;
    let tb = 0.4237 - 0.00821 * (6. - el).powi(2) + (0.5055 + 0.00595 * (6.5 - el).powi(2)) * (-(0.2711 + 0.01858 * (2.5 - el).powi(2)) / sun.z).exp();
    let a = so.beam_atmosphere_transmittance(sun, el * 1000.);
    ensure!(close(a, tb, 1e-9, 1e-12) && a > 0. && a < 1., "transmittance", "{} instead of {}", a, tb);
    let g = so.clear_sky_global_horizontal_rad(Time::Standard(n), sun, el * 1000.);
    let e = extra * (tb + 0.271 - 0.294 * tb) * sun.z;
    ensure!(close(g, e, 1e-9, 1e-9), "clear_sky", "{} instead of {}", g, e);
    // Erbs
    let kt = s.f(0., 1.2);
    let a = so.diffuse_fraction(kt);
    let e = if kt <= 0.22 {
        1. - 0.09 * kt
    } else if kt <= 0.8 {
        0.9511 - 0.1604 * kt + 4.388 * kt * kt - 16.638 * kt.powi(3) + 12.336 * kt.powi(4)
    } else {
        0.165
    };
    ensure!(close(a, e, 1e-9, 1e-12) || [0.22, 0.8].iter().any(|x| (x - kt).abs() < 1e-9), "diffuse_fraction", "{} at {} instead of {}", a, kt, e);
    ensure!((0. ..=1.).contains(&a), "diffuse_fraction", "{}", a);
    Ok(())
}
fn ref_global(sun_z: f64, w: &CurrentWeather, before: f64) -> f64 {
    let cc = w.opaque_sky_cover;
    (1367.7 * sun_z * (0.749833333 + 0.043947778 * cc - 0.28806125 * cc * cc + 0.016512222 * (w.dry_bulb_temperature - before) - 0.0029925 * 100. * w.relative_humidity + 0.003777778 * w.wind_speed) - 5.949946667).max(0.)
}
fn filled(s: &mut Src) -> R {
    let st = site(s);
    let loc = Location { latitude: st.lat, longitude: st.lon.to_radians(), timezone: st.tz as i8, ..Location::default() };
    let n = s.few(1, 30, 200);
    let mut d = date(s);
    d.hour = d.hour.floor();
    let mut data = vec![];
    let mut prev: Option<CurrentWeather> = None;
    let zero = s.bool();
    for _ in 0..n {
        let mut r = record(s, d);
        if let Some(p) = prev {
            r.dry_bulb_temperature = p.dry_bulb_temperature + s.f(-6., 6.);
        }
        if zero {
            r.global_horizontal_radiation = 0.;
        }
        if s.chance(1, 3) {
            r.opaque_sky_cover = 1.;
            r.relative_humidity = s.f(0.9, 1.);
        }
        prev = Some(r);
        data.push(r);
        d.add_hours(1.);
    }
    let mut w = Weather { data: data.clone(), location: loc };
    w.fill_solar_radiation_data()?;
    ensure!(w.data.len() == n, "records", "{} records of {}", w.data.len(), n);
    let solar = w.location.get_solar();
    let mut day = 0;
    let mut dark = false;
    for i in 0..n {
        let (a, b) = (&w.data[i], &data[i]);
        let (mut fa, mut fb) = (fields(a), fields(b));
        for k in 2..5 {
            fa[k] = 0.;
            fb[k] = 0.;
        }
        ensure!(fa == fb && a.date == b.date, "other_fields", "record {} was changed", i);
        let (g, dn, dh) = (a.global_horizontal_radiation, a.direct_normal_radiation, a.diffuse_horizontal_radiation);
        ensure!(g.is_finite() && dn.is_finite() && dh.is_finite(), "finite", "record {} at {:?} (sky cover {} humidity {}): global {} direct {} diffuse {}", i, a.date, a.opaque_sky_cover, a.relative_humidity, g, dn, dh);
        ensure!(g >= 0. && dn >= 0. && dh >= 0., "negative", "global {} direct {} diffuse {}", g, dn, dh);
        match solar.sun_position_from_standard_time(a.date) {
            None => ensure!(g == 0. && dn == 0. && dh == 0., "night", "record {} at {:?} (lat {} deg): global {} direct {} diffuse {}", i, a.date, st.lat.to_degrees(), g, dn, dh),
            Some(sun) => {
                day += 1;
                let before = if i >= 3 { data[i - 3].dry_bulb_temperature } else { b.dry_bulb_temperature };
                let e = ref_global(sun.z, b, before);
                ensure!(close(g, e, 1e-6, 1e-6), "global", "record {} at {:?}: {} instead of {}", i, a.date, g, e);
                dark |= g == 0.;
                ensure!(close(dh, (g - dn * sun.z).max(0.), 1e-9, 1e-6), "closure", "record {}: global {} direct {} diffuse {} sun {:?}", i, g, dn, dh, sun);
                let ex = |w: &CurrentWeather| ref_extra(ref_solar_time(&st, day_of_year(w.date)));
                let now = CurrentWeather { global_horizontal_radiation: g, ..*b };
                let next = data.get(i + 1).map(|w| (ex(w), w));
                let prev = if i > 0 { Some((ex(&data[i - 1]), &data[i - 1])) } else { None };
                if let Some(e) = ref_dirint(ex(b), sun.z, &now, next, prev) {
                    let kt = g / sun.z / ex(b);
                    if (kt - 0.6).abs() > 1e-9 && g > 0. {
                        ensure!(close(dn, e, 1e-6, 1e-6), "direct", "record {} at {:?}: {} instead of {}", i, a.date, dn, e);
                    }
                }
                if g == 0. {
                    ensure!(dn == 0., "direct", "no global, but {} direct radiation", dn);
                }
            }
        }
    }
    s.note(|| format!("{} records from {:?} at {} deg, {} of them with sun", n, data[0].date, st.lat.to_degrees(), day));
    s.nontrivial_if(day > 2);
    let _ = dark;
    Ok(())
}
fn derived_ir(s: &mut Src) -> R {
    let d = date(s);
    let w = CurrentWeather { opaque_sky_cover: s.f(0., 10.), ..record(s, d) };
    let n = w.opaque_sky_cover;
    let e = 5.670374419e-8 * (w.dry_bulb_temperature + 273.15).powi(4) * (0.787 + 0.764 * ((w.dew_point_temperature + 273.15) / 273.).ln()) * (1. + 0.0224 * n - 0.0035 * n * n + 0.00028 * n * n * n);
    let a = w.derive_horizontal_ir();
    s.nontrivial_if(n > 0.1);
    s.note(|| format!("{:?} -> {}", w, a));
    ensure!(close(a, e, 1e-6, 0.) && a > 0., "ir", "{} instead of {} for {:?}", a, e, w);
    Ok(())
}

pub fn p04() -> Property {
    Property {
        id: "P04",
        facets: vec![
            Facet::new("epw_read", epw_read, 6000, 400_000, "several records and some ground temperature"),
            Facet::new("epw_mistakes", epw_mistakes, 6000, 400_000, "the file is wrong"),
            Facet::new("epw_half_hours", epw_half_hours, 50, 500, "always"),
        ],
        assumptions: vec!["one data period and one record per hour, which is what the code supports"],
    }
}
pub fn p05() -> Property {
    Property {
        id: "P05",
        facets: vec![
            Facet::new("interpolation", interpolation, 100_000, 4_000_000, "several records, and not an exact match"),
            Facet::new("synthetic", synthetic, 20_000, 500_000, "some schedules are defined and some are not"),
        ],
        assumptions: vec!["records have different dates and were sorted with sort_data()"],
    }
}
pub fn p06() -> Property {
    Property {
        id: "P06",
        facets: vec![
            Facet::new("sun", sun, 200_000, 10_000_000, "the sun is up"),
            Facet::new("sun_times", sun_times, 100_000, 5_000_000, "the sun rises and sets"),
        ],
        assumptions: vec!["the reference is the series of Duffie and Beckman that the code cites, with its hour angle counted from solar noon", "latitudes up to 89.9 degrees"],
    }
}
pub fn p07() -> Property {
    Property {
        id: "P07",
        facets: vec![
            Facet::new("reinhart", reinhart, 60_000, 3_000_000, "the direction points to the sky and is not on the limit of a patch"),
            Facet::new("perez_sky", perez_sky, 20_000, 1_000_000, "the sun is up and the sky is not black"),
            Facet::new("sky_vector", sky_vector, 8_000, 300_000, "the sun is up, and sky and sun are both added"),
        ],
        assumptions: vec!["the reference is Perez's 1990 and 1993 models, with the limits of gendaymtx that the code cites"],
    }
}
pub fn p08() -> Property {
    Property {
        id: "P08",
        facets: vec![
            Facet::new("direct_estimates", direct_estimates, 100_000, 5_000_000, "some radiation, and the sun is not low"),
            Facet::new("filled", filled, 20_000, 800_000, "three or more records with sun"),
            Facet::new("derived_ir", derived_ir, 20_000, 500_000, "there are clouds"),
        ],
        assumptions: vec!["the references are the DISC, DIRINT, Hottel, Erbs, Bre and Clark-Allen correlations that the code cites"],
    }
}
