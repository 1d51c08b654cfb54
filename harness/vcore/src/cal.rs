//! Calendar: C01 (date arithmetic) and C02 (periods)
use calendar::{Date, Period};
use chrono::{Datelike, NaiveDate, Timelike};
use fw::*;

pub const MONTH: [u32; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];

/// Whole days before a date (0 = January 1st)
fn ref_days(month: u32, day: u32) -> u32 {
    MONTH[..month as usize - 1].iter().sum::<u32>() + day - 1
}
fn ref_hours(d: Date) -> f64 {
    ref_days(d.month as u32, d.day as u32) as f64 * 24. + d.hour
}
fn ref_date(mut days: u32) -> (u8, u8) {
    days %= 365;
    let mut m = 0;
    while days >= MONTH[m] {
        days -= MONTH[m];
        m += 1;
    }
    (m as u8 + 1, days as u8 + 1)
}

/// Any valid date. `exact`: hour is a multiple of 1/64
pub fn date(s: &mut Src, exact: bool) -> Date {
    let (month, day) = match s.draw(4) {
        0 => {
            // around month ends
            let m = s.us(1, 12);
            let d = if s.bool() { 1 } else { MONTH[m - 1] as usize - s.us(0, 1) };
            (m as u8, d as u8)
        }
        1 => *s.pick(&[(12u8, 31u8), (1, 1), (2, 28), (3, 1), (12, 30), (1, 2)]),
        _ => {
            let m = s.us(1, 12);
            (m as u8, s.us(1, MONTH[m - 1] as usize) as u8)
        }
    };
    let hour = if exact {
        s.draw(24 * 64) as f64 / 64.
    } else {
        match s.draw(4) {
            0 => 0.0,
            1 => *s.pick(&[23.999999, 23.5, 23., 12., 0.00001, 23.9999999999]),
            _ => s.uniform(0., 24.).min(24. - 1e-12),
        }
    };
    Date { month, day, hour }
}

fn valid(d: Date) -> bool {
    (1..=12).contains(&d.month) && d.day >= 1 && (d.day as u32) <= MONTH[d.month as usize - 1] && d.hour >= 0. && d.hour < 24.
}

fn add_exact(s: &mut Src) -> R {
    let start = date(s, true);
    let mut d = start;
    // model: units of 1/3600 of 1/64 of an hour, as integers
    const H: i64 = 64;
    let mut model: i64 = ref_days(d.month as u32, d.day as u32) as i64 * 24 * H + (d.hour * 64.).round() as i64;
    let n = s.us(1, 8);
    let mut ops = vec![];
    for _ in 0..n {
        match s.draw(4) {
            0 => {
                let k = match s.draw(3) {
                    0 => s.us(0, 40),
                    1 => s.us(0, 370),
                    _ => s.us(0, 3000),
                };
                d.add_days(k);
                model += k as i64 * 24 * H;
                ops.push(format!("+{}d", k));
            }
            1 => {
                let k = match s.draw(3) {
                    0 => s.draw(64 * 30),
                    1 => s.draw(64 * 24 * 40),
                    _ => s.draw(64 * 24 * 1000),
                };
                d.add_hours(k as f64 / 64.);
                model += k as i64;
                ops.push(format!("+{}h", k as f64 / 64.));
            }
            2 => {
                // minutes: multiples of 15/16
                let big = s.chance(1, 3);
                let k = s.draw(if big { 64 * 24 * 400 } else { 64 * 3 });
                d.add_minutes(k as f64 * 60. / 64.);
                model += k as i64;
                ops.push(format!("+{}min", k as f64 * 60. / 64.));
            }
            _ => {
                let big = s.chance(1, 3);
                let k = s.draw(if big { 64 * 24 * 400 } else { 64 * 3 });
                d.add_seconds(k as f64 * 3600. / 64.);
                model += k as i64;
                ops.push(format!("+{}s", k as f64 * 3600. / 64.));
            }
        }
        let total = model.rem_euclid(365 * 24 * H);
        let (m, day) = ref_date((total / (24 * H)) as u32);
        let hour = (total % (24 * H)) as f64 / 64.;
        ensure!(
            d.month == m && d.day == day && d.hour == hour,
            "add-exact",
            "{:?} {:?} gave {:?}, expected {}/{} {}h",
            start,
            ops,
            d,
            m,
            day,
            hour
        );
    }
    s.nontrivial_if(d.month != start.month);
    s.note(|| format!("{:?} {:?} -> {:?}", start, ops, d));
    Ok(())
}

fn add_any(s: &mut Src) -> R {
    let start = date(s, false);
    let mut d = start;
    let amount = match s.draw(5) {
        0 => s.uniform(0., 1e-3),
        1 => s.uniform(0., 2.),
        2 => s.uniform(0., 48.),
        3 => s.uniform(0., 9000.),
        _ => s.uniform(0., 40000.),
    };
    let which = s.draw(3);
    match which {
        0 => d.add_hours(amount),
        1 => d.add_minutes(amount * 60.),
        _ => d.add_seconds(amount * 3600.),
    }
    s.nontrivial_if(d.day != start.day);
    s.note(|| format!("{:?} + {} h (op {}) -> {:?}", start, amount, which, d));
    ensure!(valid(d), "add-invalid", "{:?} + {} h is not a valid date: {:?}", start, amount, d);
    let exp = (ref_hours(start) + amount).rem_euclid(8760.);
    let mut diff = (ref_hours(d) - exp).abs();
    diff = diff.min((diff - 8760.).abs());
    ensure!(diff < 1e-6, "add", "{:?} + {} h gave {:?}: off by {} hours", start, amount, d, diff);
    Ok(())
}

fn order(s: &mut Src) -> R {
    let a = date(s, false);
    let b = match s.draw(4) {
        0 => a,
        1 => Date { hour: date(s, false).hour, ..a },
        2 => {
            let o = date(s, false);
            Date { day: o.day.min(28), hour: o.hour, month: a.month }
        }
        _ => date(s, false),
    };
    let (ha, hb) = (ref_hours(a), ref_hours(b));
    s.note(|| format!("{:?} vs {:?}", a, b));
    s.nontrivial_if(a.month == b.month);
    ensure!((a < b) == (ha < hb), "order", "{:?} < {:?} is {}", a, b, a < b);
    ensure!((a > b) == (ha > hb), "order", "{:?} > {:?} is {}", a, b, a > b);
    ensure!((a == b) == (a.month == b.month && a.day == b.day && a.hour == b.hour), "order", "{:?} == {:?} is {}", a, b, a == b);
    #[allow(deprecated)]
    let earlier = a.is_earlier(b);
    ensure!(earlier == (ha < hb), "order", "{:?} is earlier than {:?}: {}", a, b, earlier);
    ensure!((a <= b) == (ha <= hb), "order", "{:?} <= {:?} is {}", a, b, a <= b);
    ensure!(a.cmp(&b) == b.cmp(&a).reverse(), "order", "cmp is not antisymmetric for {:?} {:?}", a, b);
    ensure!(close(a - b, (ha - hb) / 24., 1e-12, 1e-9), "difference", "{:?} - {:?} = {} days, expected {}", a, b, a - b, (ha - hb) / 24.);
    ensure!(a.same_day(b) == (a.month == b.month && a.day == b.day), "same-day", "{:?} {:?}", a, b);
    Ok(())
}
fn doy(s: &mut Src) -> R {
    let d = date(s, false);
    let n = d.day_of_year();
    s.nontrivial();
    s.note(|| format!("{:?} <-> {}", d, n));
    ensure!(close(n, ref_hours(d) / 24., 1e-12, 1e-12), "day-of-year", "{:?}.day_of_year() = {}", d, n);
    let back = Date::from_day_of_year(n.min(365. - 1e-9));
    ensure!(valid(back), "from-doy-invalid", "from_day_of_year({}) = {:?}", n, back);
    ensure!((ref_hours(back) - ref_hours(d)).abs() < 1e-6, "from-doy", "{:?} -> {} -> {:?}", d, n, back);
    let x = s.uniform(0., 365. - 1e-9);
    let b = Date::from_day_of_year(x);
    ensure!(valid(b), "from-doy-invalid", "from_day_of_year({}) = {:?}", x, b);
    ensure!((ref_hours(b) / 24. - x).abs() < 1e-9, "from-doy", "from_day_of_year({}) = {:?}", x, b);
    let k = s.draw(365);
    let b = Date::from_day_of_year(k as f64);
    let (m, dd) = ref_date(k as u32);
    ensure!(b.month == m && b.day == dd && b.hour == 0., "from-doy", "from_day_of_year({}) = {:?}", k, b);
    Ok(())
}

fn chrono_rt(s: &mut Src) -> R {
    let year = *s.pick(&[2023, 2022, 1999, 2025, 2019, 2026]);
    let d0 = date(s, true);
    let (h, mi, se) = (s.us(0, 23) as u32, s.us(0, 59) as u32, s.us(0, 59) as u32);
    let nd = NaiveDate::from_ymd_opt(year, d0.month as u32, d0.day as u32).unwrap().and_hms_opt(h, mi, se).unwrap();
    let d: Date = nd.into();
    s.nontrivial_if(mi != 0 || se != 0);
    s.note(|| format!("{}", nd));
    ensure!(d.month as u32 == nd.month() && d.day as u32 == nd.day(), "from-chrono", "{} -> {:?}", nd, d);
    ensure!(close(d.hour * 3600., (h * 3600 + mi * 60 + se) as f64, 0., 1e-6), "from-chrono", "{} -> {:?}", nd, d);
    let back = d.into_naive_datetime(year).map_err(|e| Fail { kind: "into-chrono".into(), msg: format!("{} -> {:?} -> {}", nd, d, e) })?;
    ensure!(back == nd, "into-chrono", "{} -> {:?} -> {}", nd, d, back);
    // any date: nearest second
    let d = date(s, false);
    let n = d.into_naive_datetime(year)?;
    let sec = (n.hour() * 3600 + n.minute() * 60 + n.second()) as f64;
    ensure!(
        n.year() == year && n.month() == d.month as u32 && n.day() == d.day as u32 && (sec - d.hour * 3600.).abs() <= 1.0 + 1e-6,
        "into-chrono",
        "{:?} -> {}",
        d,
        n
    );
    Ok(())
}

fn interp(s: &mut Src) -> R {
    let a = date(s, false);
    let b = date(s, false);
    let x = s.f(0., 1.);
    let r = a.interpolate(b, x);
    let (na, mut nb) = (ref_hours(a), ref_hours(b));
    if nb < na {
        nb += 8760.
    }
    s.nontrivial_if(nb > na);
    s.note(|| format!("{:?} {:?} at {} -> {:?}", a, b, x, r));
    ensure!(valid(r), "interpolate-invalid", "{:?} {:?} {} -> {:?}", a, b, x, r);
    let e = (na + (nb - na) * x).rem_euclid(8760.);
    let mut diff = (ref_hours(r) - e).abs();
    diff = diff.min((8760. - diff).abs());
    ensure!(diff < 1e-6, "interpolate", "{:?} {:?} at {} gave {:?} (off by {} h)", a, b, x, r, diff);
    Ok(())
}

fn io(s: &mut Src) -> R {
    let a = date(s, false);
    s.nontrivial();
    s.note(|| format!("{}", a));
    let j = serde_json::to_string(&a).unwrap();
    let b: Date = serde_json::from_str(&j).map_err(|e| format!("{}: {}", j, e))?;
    ensure!(a.month == b.month && a.day == b.day && close(a.hour, b.hour, 1e-14, 0.), "json", "{:?} -> {} -> {:?}", a, j, b);
    // Display: 'MM/DD - h:mm', to the nearest minute
    let t = format!("{}", a);
    let p: Vec<&str> = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
    ensure!(p.len() == 4, "display", "{:?} shown as '{}'", a, t);
    let n: Vec<f64> = p.iter().map(|x| x.parse().unwrap()).collect();
    ensure!(n[0] == a.month as f64 && n[1] == a.day as f64, "display", "{:?} shown as '{}'", a, t);
    ensure!(n[3] < 60. && (n[2] * 60. + n[3] - a.hour * 60.).abs() <= 0.5 + 1e-6, "display", "{:?} shown as '{}'", a, t);
    Ok(())
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        facets: vec![
            Facet::new("add_exact", add_exact, 300_000, 20_000_000, "the history of additions moved the date into another month"),
            Facet::new("add_any", add_any, 300_000, 20_000_000, "the addition crossed a midnight"),
            Facet::new("order", order, 200_000, 10_000_000, "both dates are in the same month"),
            Facet::new("day_of_year", doy, 200_000, 10_000_000, "every case"),
            Facet::new("chrono", chrono_rt, 200_000, 10_000_000, "minutes or seconds are not zero"),
            Facet::new("interpolate", interp, 200_000, 10_000_000, "the two dates differ"),
            Facet::new("io", io, 50_000, 1_000_000, "every case"),
        ],
        assumptions: vec!["non-leap years, as the crate documents", "amounts added are not negative"],
    }
}

/* ------------------------------------------------ periods */

fn period_exact(s: &mut Src) -> R {
    // steps of k/64 hours, starts and ends on a grid of 1/64 h: no rounding anywhere
    let start = date(s, true);
    let k = match s.draw(5) {
        0 => 64,
        1 => *s.pick(&[16u64, 32, 64, 128, 8, 64 * 24, 64 * 12]),
        2 => 1 + s.draw(64),
        3 => 1 + s.draw(64 * 24),
        _ => 1 + s.draw(64 * 24 * 30),
    };
    let end = match s.draw(4) {
        0 => {
            // near the start
            let mut e = start;
            e.add_hours(s.draw(64 * 72) as f64 / 64.);
            e
        }
        1 => {
            // shortly after new year
            let mut e = Date { month: 1, day: 1, hour: 0. };
            e.add_hours(s.draw(64 * 48) as f64 / 64.);
            e
        }
        _ => date(s, true),
    };
    const YEAR: i64 = 8760 * 64;
    let a = (ref_hours(start) * 64.).round() as i64;
    let mut b = (ref_hours(end) * 64.).round() as i64;
    let ny = start > end;
    if b < a {
        b += YEAR;
    }
    let n = (b - a) / k as i64;
    if n > 4000 {
        return Ok(()); // too long for one case
    }
    s.nontrivial_if(ny && n > 0);
    s.note(|| format!("{:?} -> {:?} every {} h: {} steps", start, end, k as f64 / 64., n));
    let p = Period::new(start, end, k as f64 * 3600. / 64.);
    let got: Vec<Date> = p.take(n as usize + 5).collect();
    for (i, d) in got.iter().enumerate() {
        let t = (a + (i as i64 + 1) * k as i64).rem_euclid(YEAR);
        let (m, day) = ref_date((t / (24 * 64)) as u32);
        let h = (t % (24 * 64)) as f64 / 64.;
        if i as i64 >= n {
            bail!("too-many", "Period {:?} -> {:?} every {} h goes on after the end: item {} is {:?}", start, end, k as f64 / 64., i, d);
        }
        ensure!(d.month == m && d.day == day && d.hour == h, "item", "Period {:?} -> {:?} every {} h: item {} is {:?}, expected {}/{} {}", start, end, k as f64 / 64., i, d, m, day, h);
        ensure!(p.contains(*d), "contains", "the period {:?} -> {:?} does not contain its own item {:?}", start, end, d);
    }
    ensure!(got.len() as i64 == n, "too-few", "Period {:?} -> {:?} every {} h gave {} dates, expected {}", start, end, k as f64 / 64., got.len(), n);
    Ok(())
}

fn period_any(s: &mut Src) -> R {
    let start = date(s, false);
    let dt = match s.draw(4) {
        0 => 3600. / s.us(1, 60) as f64,
        1 => s.uniform(30., 3600.),
        2 => s.uniform(3600., 90000.),
        _ => *s.pick(&[60., 300., 600., 900., 1200., 1800., 3600., 7200.]),
    };
    let span = s.uniform(0., 1500.) * dt / 3600.;
    let span = span.min(8700.);
    let mut end = start;
    end.add_hours(span);
    let n_f = span * 3600. / dt;
    let p = Period::new(start, end, dt);
    let ny = start > end;
    s.nontrivial_if(ny);
    s.note(|| format!("{:?} -> {:?} every {} s", start, end, dt));
    let got: Vec<Date> = p.take(n_f as usize + 10).collect();
    // only ambiguous when the end falls (numerically) on a step
    let lo = (n_f - 1e-4).floor() as usize;
    let hi = (n_f + 1e-4).floor() as usize;
    ensure!(got.len() >= lo && got.len() <= hi, "count", "Period {:?} -> {:?} every {} s gave {} dates, expected {}", start, end, dt, got.len(), lo);
    for (i, d) in got.iter().enumerate() {
        let e = (ref_hours(start) + (i + 1) as f64 * dt / 3600.).rem_euclid(8760.);
        let mut diff = (ref_hours(*d) - e).abs();
        diff = diff.min((8760. - diff).abs());
        ensure!(valid(*d) && diff < 1e-5, "item", "Period {:?} -> {:?} every {} s: item {} is {:?} (off by {} h)", start, end, dt, i, d, diff);
    }
    Ok(())
}

fn contains(s: &mut Src) -> R {
    let (a, b) = (date(s, false), date(s, false));
    let x = match s.draw(4) {
        0 => a,
        1 => b,
        _ => date(s, false),
    };
    let p = Period::new(a, b, 3600.);
    let (ha, hb, hx) = (ref_hours(a), ref_hours(b), ref_hours(x));
    let exp = if ha <= hb { hx >= ha && hx <= hb } else { hx >= ha || hx <= hb };
    s.nontrivial_if(ha > hb);
    s.note(|| format!("{:?} -> {:?} contains {:?}", a, b, x));
    ensure!(p.contains(x) == exp, "contains", "Period {:?} -> {:?} contains {:?}: {}", a, b, x, p.contains(x));
    Ok(())
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        facets: vec![
            Facet::new("steps_exact", period_exact, 40_000, 2_000_000, "the period goes through new year and yields at least one date"),
            Facet::new("steps_any", period_any, 20_000, 1_000_000, "the period goes through new year"),
            Facet::new("contains", contains, 200_000, 10_000_000, "the period goes through new year"),
        ],
        assumptions: vec!["time step greater than zero and shorter than a month", "a period lasts less than a year"],
    }
}
