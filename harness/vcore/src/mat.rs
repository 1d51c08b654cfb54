//! C03 (dense matrices, polynomials) and C04 (n-diagonal matrices, linear solvers)
use fw::*;
use matrix::{Matrix, NDiagMatrix};
use polynomial::{poly, Polynomial};
use std::panic::{catch_unwind, AssertUnwindSafe};

type M = Vec<Vec<f64>>;

fn dense(s: &mut Src, r: usize, c: usize) -> M {
    // small dyadic numbers: all the arithmetic below is exact
    (0..r).map(|_| (0..c).map(|_| if s.chance(1, 5) { 0.0 } else { s.int(-64, 64) as f64 / 8. }).collect()).collect()
}
fn to_m(m: &M, c: usize) -> Matrix {
    Matrix::from_data(m.len(), c, m.iter().flatten().cloned().collect())
}
fn same(got: &Matrix, exp: &M, c: usize, what: &str) -> R {
    ensure!(got.size() == (exp.len(), c), "size", "{}: size is {:?}, expected {:?}", what, got.size(), (exp.len(), c));
    for (i, row) in exp.iter().enumerate() {
        for (j, v) in row.iter().enumerate() {
            let g = got.get(i, j)?;
            ensure!(g == *v, "value", "{}: element ({},{}) is {}, expected {}", what, i, j, g, v);
        }
    }
    Ok(())
}
fn mulm(a: &M, b: &M, c: usize) -> M {
    a.iter().map(|ra| (0..c).map(|j| ra.iter().enumerate().map(|(k, x)| x * b[k][j]).sum()).collect()).collect()
}
fn dirty(s: &mut Src, r: usize, c: usize) -> Matrix {
    let v = *s.pick(&[0.0, 1.0, -7.5, 1e300, f64::NAN, f64::INFINITY]);
    Matrix::new(v, r, c)
}
fn dim(s: &mut Src) -> usize {
    if s.chance(1, 8) {
        if s.chance(1, 16) {
            s.us(21, 70)
        } else {
            s.us(7, 20)
        }
    } else {
        s.us(1, 6)
    }
}

fn algebra(s: &mut Src) -> R {
    let (r, k, c) = (dim(s), dim(s), dim(s));
    let a = dense(s, r, k);
    let a2 = dense(s, r, k);
    let b = dense(s, k, c);
    let (ma, ma2, mb) = (to_m(&a, k), to_m(&a2, k), to_m(&b, c));
    s.nontrivial_if(r != c || r != k);
    s.note(|| format!("{}x{} by {}x{}", r, k, k, c));
    let ew = |f: &dyn Fn(f64, f64) -> f64| -> M { a.iter().zip(&a2).map(|(x, y)| x.iter().zip(y).map(|(x, y)| f(*x, *y)).collect()).collect() };
    let sc = |f: &dyn Fn(f64) -> f64| -> M { a.iter().map(|x| x.iter().map(|x| f(*x)).collect()).collect() };
    let q = *s.pick(&[0.0, 1.0, -1.0, 2.0, 0.25, -3.5]);
    // sums
    let sum = ew(&|x, y| x + y);
    same(&(&ma + &ma2), &sum, k, "a + b")?;
    let mut t = dirty(s, r, k);
    ma.add_into(&ma2, &mut t)?;
    same(&t, &sum, k, "add_into")?;
    let mut t = ma.clone();
    t += &ma2;
    same(&t, &sum, k, "a += b")?;
    let dif = ew(&|x, y| x - y);
    same(&(&ma - &ma2), &dif, k, "a - b")?;
    let mut t = dirty(s, r, k);
    ma.sub_into(&ma2, &mut t)?;
    same(&t, &dif, k, "sub_into")?;
    let mut t = ma.clone();
    t -= &ma2;
    same(&t, &dif, k, "a -= b")?;
    // scaling
    let scl = sc(&|x| x * q);
    same(&(&ma * q), &scl, k, "a * s")?;
    let mut t = dirty(s, r, k);
    ma.scale_into(q, &mut t)?;
    same(&t, &scl, k, "scale_into")?;
    let mut t = ma.clone();
    t *= q;
    same(&t, &scl, k, "a *= s")?;
    let dv = *s.pick(&[1.0, -1.0, 2.0, 0.25, -0.5]);
    let d = sc(&|x| x / dv);
    same(&(&ma / dv), &d, k, "a / s")?;
    let mut t = ma.clone();
    t /= dv;
    same(&t, &d, k, "a /= s")?;
    // product
    let p = mulm(&a, &b, c);
    same(&(&ma * &mb), &p, c, "a * b")?;
    let mut t = dirty(s, r, c);
    ma.prod_into(&mb, &mut t)?;
    same(&t, &p, c, "prod_into")?;
    // identity and diagonal
    same(&(&Matrix::eye(r) * &ma), &a, k, "I * a")?;
    same(&(&ma * &Matrix::eye(k)), &a, k, "a * I")?;
    let dg: Vec<f64> = (0..r).map(|i| i as f64 - 2.5).collect();
    let da: M = a.iter().zip(&dg).map(|(row, g)| row.iter().map(|x| x * g).collect()).collect();
    same(&(&Matrix::diag(dg) * &ma), &da, k, "diag * a")?;
    // sources are untouched
    same(&ma, &a, k, "operand a")?;
    same(&ma2, &a2, k, "operand a2")?;
    same(&mb, &b, c, "operand b")?;
    // n-diagonal product on a banded matrix, square or not
    let n = 2 * s.us(0, 4) + 1;
    let h = (n - 1) / 2;
    let rows = if s.bool() { k } else { r };
    let mut band = dense(s, rows, k);
    for (i, row) in band.iter_mut().enumerate() {
        for (j, v) in row.iter_mut().enumerate() {
            if i.abs_diff(j) > h {
                *v = 0.0
            }
        }
    }
    let mband = to_m(&band, k);
    let p = mulm(&band, &b, c);
    let mut t = dirty(s, rows, c);
    mband.prod_n_diag_into(&mb, n, &mut t)?;
    same(&t, &p, c, "prod_n_diag_into")?;
    same(&mband.from_prod_n_diag(&mb, n)?, &p, c, "from_prod_n_diag")?;
    if n <= 3 {
        let mut t = dirty(s, rows, c);
        mband.prod_tri_diag_into(&mb, &mut t)?;
        same(&t, &p, c, "prod_tri_diag_into")?;
    }
    Ok(())
}

fn access(s: &mut Src) -> R {
    let (r, c) = (dim(s), dim(s));
    let mut model = dense(s, r, c);
    let mut m = to_m(&model, c);
    let n = s.us(1, 30);
    let mut oob = false;
    for _ in 0..n {
        let (i, j) = (s.us(0, model.len()), s.us(0, c));
        let ok = i < model.len() && j < c;
        oob |= !ok;
        let v = s.int(-8, 8) as f64;
        match s.draw(6) {
            0 => ensure!(m.get(i, j).is_ok() == ok, "bounds", "get({},{}) of {:?}: {:?}", i, j, m.size(), m.get(i, j)),
            1 => {
                ensure!(m.set(i, j, v).is_ok() == ok, "bounds", "set({},{}) in {:?}", i, j, (r, c));
                if ok {
                    model[i][j] = v
                }
            }
            2 => {
                ensure!(m.add_to_element(i, j, v).is_ok() == ok, "bounds", "add_to_element({},{})", i, j);
                if ok {
                    model[i][j] += v
                }
            }
            3 => {
                let v = *s.pick(&[0.0, 1.0, -1.0, 0.5, 2.0]);
                ensure!(m.scale_element(i, j, v).is_ok() == ok, "bounds", "scale_element({},{})", i, j);
                if ok {
                    model[i][j] *= v
                }
            }
            4 => {
                let k = s.us(1, 3);
                let cc = if s.chance(1, 4) { s.us(1, 8) } else { c };
                let o = dense(s, k, cc);
                let res = m.concat_rows(&to_m(&o, cc));
                ensure!(res.is_ok() == (cc == c), "concat", "concat_rows of {} columns under {} columns: {:?}", cc, c, res);
                if cc == c {
                    model.extend(o);
                }
            }
            _ => {
                let mut o = dirty(s, model.len(), c);
                o.copy_from(&m);
                ensure!(o.compare(&m) && m.compare(&o), "compare", "a copy does not compare equal");
                m = o;
                let (i, j) = (s.us(0, model.len() - 1), s.us(0, c - 1));
                let mut o = m.clone();
                o.set(i, j, model[i][j] + 1.0)?;
                ensure!(!o.compare(&m) && !m.compare(&o), "compare", "matrices that differ at ({},{}) compare equal", i, j);
            }
        }
        same(&m, &model, c, "after the operations")?;
    }
    let json = serde_json::to_string(&m).map_err(|e| e.to_string())?;
    let back: Matrix = serde_json::from_str(&json).map_err(|e| e.to_string())?;
    same(&back, &model, c, "json round trip")?;
    let flat: Vec<f64> = model.iter().flatten().cloned().collect();
    ensure!(m.as_slice() == &flat[..], "slice", "as_slice is not row-major");
    s.nontrivial_if(oob && model.len() > r);
    s.note(|| format!("{} operations on {}x{}", n, r, c));
    Ok(())
}

/// operations on matrices of incompatible sizes are refused
fn mismatch(s: &mut Src) -> R {
    let mut v = [0usize; 6];
    for x in v.iter_mut() {
        *x = s.us(1, 4);
    }
    let a = Matrix::new(1.0, v[0], v[1]);
    let b = Matrix::new(2.0, v[2], v[3]);
    let mut t = Matrix::new(0.0, v[4], v[5]);
    let size0 = t.size();
    let same_ab = v[0] == v[2] && v[1] == v[3];
    let same_at = v[0] == v[4] && v[1] == v[5];
    let prod = v[1] == v[2] && v[4] == v[0] && v[5] == v[3];
    s.nontrivial_if(!(same_ab && same_at && prod));
    s.note(|| format!("{:?}", v));
    let go = |what: &str, ok: bool, r: Result<(), String>, t: &mut Matrix| -> R {
        ensure!(r.is_ok() == ok, "mismatch", "{} with sizes {:?}: {:?}", what, v, r);
        ensure!(t.size() == size0, "mismatch", "{} changed the size of its destination", what);
        Ok(())
    };
    let r = a.add_into(&b, &mut t);
    go("add_into", same_ab && same_at, r, &mut t)?;
    let r = a.sub_into(&b, &mut t);
    go("sub_into", same_ab && same_at, r, &mut t)?;
    let r = a.scale_into(2.0, &mut t);
    go("scale_into", same_at, r, &mut t)?;
    let r = a.prod_into(&b, &mut t);
    go("prod_into", prod, r, &mut t)?;
    let r = a.prod_n_diag_into(&b, 3, &mut t);
    go("prod_n_diag_into", prod, r, &mut t)?;
    let r = a.prod_tri_diag_into(&b, &mut t);
    go("prod_tri_diag_into", prod, r, &mut t)?;
    let p = |f: &dyn Fn() -> Matrix| catch_unwind(AssertUnwindSafe(f)).is_ok();
    ensure!(p(&|| &a + &b) == same_ab, "mismatch", "a + b with sizes {:?}", v);
    ensure!(p(&|| &a - &b) == same_ab, "mismatch", "a - b with sizes {:?}", v);
    ensure!(p(&|| &a * &b) == (v[1] == v[2]), "mismatch", "a * b with sizes {:?}", v);
    ensure!(
        p(&|| {
            let mut c = a.clone();
            c += &b;
            c
        }) == same_ab,
        "mismatch",
        "a += b with sizes {:?}",
        v
    );
    ensure!(
        p(&|| {
            let mut c = a.clone();
            c -= &b;
            c
        }) == same_ab,
        "mismatch",
        "a -= b with sizes {:?}",
        v
    );
    let n = s.us(0, 20);
    ensure!(p(&|| Matrix::from_data(v[0], v[1], vec![0.0; n])) == (n == v[0] * v[1]), "mismatch", "from_data {}x{} with {} elements", v[0], v[1], n);
    ensure!(!a.compare(&b) , "compare", "different matrices compare equal");
    ensure!(a.compare(&Matrix::new(1.0, v[4], v[5])) == same_at, "compare", "compare {:?} with {:?}", a.size(), (v[4], v[5]));
    Ok(())
}

fn polynomial_eval(s: &mut Src) -> R {
    let n = s.us(0, 12);
    let c: Vec<f64> = (0..n).map(|_| s.int(-9, 9) as f64).collect();
    let mut p = match s.draw(3) {
        0 => Polynomial::new(),
        1 => poly![],
        _ => Polynomial::default(),
    };
    ensure!(p.is_empty() && p.len() == 0 && p.eval(3.0) == 0.0, "empty", "an empty polynomial is not zero");
    for (i, x) in c.iter().enumerate() {
        p.push(*x);
        ensure!(p.len() == i + 1 && !p.is_empty(), "len", "len {} after {} pushes", p.len(), i + 1);
    }
    s.nontrivial_if(n >= 3);
    let x = s.int(-8, 8) as f64;
    let exp = c.iter().rev().fold(0.0, |a, k| a * x + k);
    s.note(|| format!("{:?} at {} = {}", c, x, exp));
    ensure!(p.eval(x) == exp, "eval", "{:?} at {}: {} instead of {}", c, x, p.eval(x), exp);
    let x = s.f(-3., 3.);
    let exp = c.iter().rev().fold(0.0, |a, k| a * x + k);
    let mag: f64 = c.iter().rev().fold(0.0, |a, k| a * x.abs() + k.abs());
    ensure!((p.eval(x) - exp).abs() <= 1e-12 * mag.max(1e-300), "eval", "{:?} at {}: {} instead of {}", c, x, p.eval(x), exp);
    // macro
    let (a, b, d) = (s.int(-9, 9) as f64, s.int(-9, 9) as f64, s.int(-9, 9) as f64);
    let x = s.int(-8, 8) as f64;
    ensure!(poly![a, b, d].eval(x) == a + b * x + d * x * x && poly![a].eval(x) == a && poly![a, b].eval(x) == a + b * x, "macro", "poly![{},{},{}] at {}", a, b, d, x);
    ensure!(poly![a, b, d].len() == 3, "len", "poly!");
    // too many coefficients
    if n == 12 {
        let mut p2 = p;
        let r = catch_unwind(AssertUnwindSafe(|| p2.push(1.0)));
        ensure!(r.is_err(), "overflow", "a 13th coefficient was accepted");
    }
    Ok(())
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        facets: vec![
            Facet::new("algebra", algebra, 60_000, 3_000_000, "at least one of the matrices is not square"),
            Facet::new("access", access, 60_000, 3_000_000, "rows were appended and an index out of bounds was tried"),
            Facet::new("mismatch", mismatch, 60_000, 1_000_000, "at least one operation is between incompatible sizes"),
            Facet::new("polynomial", polynomial_eval, 200_000, 5_000_000, "three coefficients or more"),
        ],
        assumptions: vec!["matrices have at least one row and one column"],
    }
}

fn ndiag<const N: usize>(s: &mut Src) -> R {
    let r = dim(s);
    let c = if s.chance(1, 3) { dim(s) } else { r };
    let h = (N - 1) / 2;
    let v0 = *s.pick(&[0.0, 1.0, -2.5]);
    let inb = |i: usize, j: usize| i.abs_diff(j) <= h;
    let mut m = NDiagMatrix::<N>::new(v0, r, c);
    ensure!(m.size() == (r, c), "size", "size {:?}", m.size());
    let mut model: M = (0..r).map(|i| (0..c).map(|j| if inb(i, j) { v0 } else { 0.0 }).collect()).collect();
    let check = |m: &NDiagMatrix<N>, model: &M, what: &str| -> R {
        for i in 0..r {
            for j in 0..c {
                let g = m.get(i, j)?;
                ensure!(g == model[i][j], "value", "{}-diagonal {}x{}: {}: ({},{}) is {} instead of {}", N, r, c, what, i, j, g, model[i][j]);
            }
        }
        Ok(())
    };
    check(&m, &model, "new")?;
    for i in 0..r {
        for j in 0..c {
            if inb(i, j) {
                model[i][j] = s.int(-64, 64) as f64 / 8.;
                m.set(i, j, model[i][j])?;
            }
        }
    }
    check(&m, &model, "filled")?;
    let n = s.us(0, 12);
    for _ in 0..n {
        let (i, j) = (s.us(0, r), s.us(0, c));
        let ok = i < r && j < c && inb(i, j);
        let v = s.int(-8, 8) as f64;
        match s.draw(5) {
            0 => {
                ensure!(m.set(i, j, v).is_ok() == ok, "bounds", "set({},{}) in {}x{} {}-diagonal", i, j, r, c, N);
                if ok {
                    model[i][j] = v
                }
            }
            1 => {
                ensure!(m.add_to_element(i, j, v).is_ok() == ok, "bounds", "add_to_element({},{}) in {}x{} {}-diagonal", i, j, r, c, N);
                if ok {
                    model[i][j] += v
                }
            }
            2 => {
                let v = *s.pick(&[0.0, 1.0, -1.0, 0.5]);
                ensure!(m.scale_element(i, j, v).is_ok() == ok, "bounds", "scale_element({},{})", i, j);
                if ok {
                    model[i][j] *= v
                }
            }
            3 => {
                let q = *s.pick(&[1.0, 2.0, -0.5]);
                m *= q;
                model.iter_mut().flatten().for_each(|x| *x *= q);
            }
            _ => {
                let q = *s.pick(&[1.0, 2.0, -0.5]);
                let mut o = NDiagMatrix::<N>::new(9.0, r, c);
                m.scale_into(q, &mut o)?;
                model.iter_mut().flatten().for_each(|x| *x *= q);
                m.copy_from(&o);
            }
        }
        ensure!(m.get(i, j).is_ok() == (i < r && j < c), "bounds", "get({},{})", i, j);
        check(&m, &model, "after the operations")?;
    }
    // product by a column
    let x: Vec<f64> = (0..c).map(|_| s.int(-16, 16) as f64 / 4.).collect();
    let mut y = vec![*s.pick(&[0.0, 3.0, f64::NAN]); r];
    m.column_prod_into(&x, &mut y)?;
    for i in 0..r {
        let e: f64 = (0..c).map(|j| model[i][j] * x[j]).sum();
        ensure!(y[i] == e, "product", "{}-diagonal {}x{}: row {} of the product is {} instead of {}", N, r, c, i, y[i], e);
    }
    ensure!(m.column_prod_into(&vec![0.0; c + 1], &mut y).is_err(), "mismatch", "a column that is too long was accepted");
    ensure!(m.column_prod_into(&x, &mut vec![0.0; r + 1]).is_err(), "mismatch", "a destination that is too long was accepted");
    s.nontrivial_if(r > h + 1);
    s.note(|| format!("{}-diagonal {}x{}", N, r, c));
    Ok(())
}
fn ndiag_any(s: &mut Src) -> R {
    match s.draw(4) {
        0 => ndiag::<1>(s),
        1 => ndiag::<5>(s),
        2 => ndiag::<7>(s),
        _ => ndiag::<3>(s),
    }
}

/// Diagonally dominant, with half-bandwidth h
fn dominant(s: &mut Src, n: usize, h: usize) -> M {
    let scale = s.logf(1e-3, 1e3);
    let mut a: M = vec![vec![0.0; n]; n];
    for i in 0..n {
        let mut sum = 0.0;
        for j in 0..n {
            if i != j && i.abs_diff(j) <= h && !s.chance(1, 6) {
                a[i][j] = s.uniform(-1., 1.) * scale;
                sum += a[i][j].abs();
            }
        }
        a[i][i] = s.sign() * (sum * s.uniform(1.1, 3.) + scale * s.uniform(0.1, 1.));
    }
    a
}

fn solve(s: &mut Src) -> R {
    let n = if s.chance(1, 6) { s.us(1, 3) } else if s.chance(1, 60) { s.us(26, 140) } else { s.us(2, 25) };
    let h = if s.chance(1, 20) { s.us(5, 12) } else { s.us(0, 4) };
    let nd = 2 * h + 1;
    let a = dominant(s, n, h);
    let k = s.us(1, 3);
    let b: M = (0..n).map(|_| (0..k).map(|_| s.f(-100., 100.)).collect()).collect();
    let (ma, mb) = (to_m(&a, n), to_m(&b, k));
    let resid = |x: &Matrix, what: &str| -> R {
        ensure!(x.size() == (n, k), "size", "{}: solution of size {:?}", what, x.size());
        for i in 0..n {
            for j in 0..k {
                let mut r = -b[i][j];
                let mut mag = b[i][j].abs();
                for l in 0..n {
                    let xv = x.get(l, j)?;
                    r += a[i][l] * xv;
                    mag += (a[i][l] * xv).abs();
                }
                ensure!(r.abs() <= 1e-10 * mag.max(1e-200), "residual", "{} ({}-diagonal, {}x{}): row {} has residual {} (terms add to {})", what, nd, n, n, i, r, mag);
            }
        }
        Ok(())
    };
    s.nontrivial_if(n > h + 1 && h > 0);
    s.note(|| format!("{}x{} with {} diagonals, {} right-hand sides", n, n, nd, k));
    let x = ma.n_diag_gaussian(&mb, nd)?;
    resid(&x, "n_diag_gaussian")?;
    same(&ma, &a, n, "matrix given to n_diag_gaussian")?;
    same(&mb, &b, k, "right-hand side given to n_diag_gaussian")?;
    let (mut c, mut d) = (ma.clone(), mb.clone());
    c.mut_n_diag_gaussian(&mut d, nd)?;
    resid(&d, "mut_n_diag_gaussian")?;
    // a wider band than needed does not matter
    let x = ma.n_diag_gaussian(&mb, nd + 2)?;
    resid(&x, "n_diag_gaussian with a wider band")?;
    if h == 1 && k == 1 {
        let mut nm = NDiagMatrix::<3>::new(0.0, n, n);
        for i in 0..n {
            for j in 0..n {
                if i.abs_diff(j) <= 1 {
                    nm.set(i, j, a[i][j])?;
                }
            }
        }
        let mut v: Vec<f64> = b.iter().map(|r| r[0]).collect();
        nm.mut_gaussian(&mut v)?;
        resid(&Matrix::from_data(n, 1, v), "NDiagMatrix::mut_gaussian")?;
    }
    if k == 1 {
        let conv = s.logf(1e-10, 1e-3);
        let mut x = Matrix::new(s.f(-10., 10.), n, 1);
        let r = ma.gauss_seidel(&mb, &mut x, 2000, conv);
        if let Err(e) = r {
            bail!("gauss-seidel", "a diagonally dominant system did not converge: {}", e);
        }
        let exact = ma.n_diag_gaussian(&mb, nd)?;
        for i in 0..n {
            let (g, e) = (x.get(i, 0)?, exact.get(i, 0)?);
            // contraction factor <= 1/1.1
            ensure!((g - e).abs() <= 12. * conv + 1e-9 * e.abs().max(1.0), "gauss-seidel", "x[{}] = {} instead of {} (tolerance {})", i, g, e, conv);
        }
    }
    Ok(())
}

/// A solver that cannot solve says so
fn unsolvable(s: &mut Src) -> R {
    let n = s.us(1, 6);
    let h = n;
    let a: M = dense(s, n, n);
    let x0: Vec<f64> = (0..n).map(|_| s.int(-8, 8) as f64).collect();
    let b: M = (0..n).map(|i| vec![(0..n).map(|j| a[i][j] * x0[j]).sum()]).collect();
    let (ma, mb) = (to_m(&a, n), to_m(&b, 1));
    let mag: f64 = a.iter().flatten().fold(1.0, |m: f64, x| m.max(x.abs()));
    s.note(|| format!("{:?} x = {:?}", a, b));
    let conv = 1e-9;
    let mut x = Matrix::new(0.0, n, 1);
    match ma.gauss_seidel(&mb, &mut x, 200, conv) {
        Ok(()) => {
            for i in 0..n {
                let r: f64 = (0..n).map(|j| a[i][j] * x.get(j, 0).unwrap()).sum::<f64>() - b[i][0];
                let xm = (0..n).fold(1.0f64, |m, j| m.max(x.get(j, 0).unwrap().abs()));
                ensure!(r.abs() <= 2. * n as f64 * mag * conv + 1e-9 * mag * xm, "gauss-seidel-wrong", "reported convergence, but A x - b = {} in row {} (x = {:?})", r, i, x.as_slice());
            }
        }
        Err(_) => s.nontrivial(),
    }
    // sizes
    let mut y = Matrix::new(0.0, n + 1, 1);
    ensure!(ma.gauss_seidel(&mb, &mut y, 10, 1e-3).is_err(), "mismatch", "wrong size of x accepted");
    ensure!(ma.gauss_seidel(&y, &mut x, 10, 1e-3).is_err(), "mismatch", "wrong size of b accepted");
    ensure!(Matrix::new(1.0, n, n + 1).gauss_seidel(&mb, &mut x, 10, 1e-3).is_err(), "mismatch", "matrix that is not square accepted");
    // zero row and column: nothing can solve this
    let z = s.us(0, n - 1);
    let mut a0 = a.clone();
    for i in 0..n {
        a0[i][z] = 0.0;
        a0[z][i] = 0.0;
    }
    let r = to_m(&a0, n).n_diag_gaussian(&mb, 2 * h + 1);
    ensure!(r.is_err(), "singular", "a singular system was solved: {:?}", r);
    Ok(())
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        facets: vec![
            Facet::new("compact", ndiag_any, 150_000, 5_000_000, "the matrix has rows below the top padding"),
            Facet::new("solve", solve, 60_000, 2_000_000, "the band does not fill the matrix"),
            Facet::new("unsolvable", unsolvable, 40_000, 1_000_000, "the solver gave up"),
        ],
        assumptions: vec!["systems to be solved without pivoting are diagonally dominant"],
    }
}
