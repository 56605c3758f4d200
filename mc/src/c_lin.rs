//! C19, C20: linear algebra, through the hooks.
use crate::util::*;
use cyphus_diffeq::verif_hooks as h;
use ndarray::prelude::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Dense,
    DenseC,
    Hess(usize),
    HessC(usize),
    Band(usize, usize),
    BandC(usize, usize),
}
impl Kind {
    fn complex(self) -> bool {
        matches!(self, Kind::DenseC | Kind::HessC(_) | Kind::BandC(_, _))
    }
    fn holds(self, i: usize, j: usize) -> bool {
        match self {
            Kind::Dense | Kind::DenseC => true,
            Kind::Hess(l) | Kind::HessC(l) => i <= j + l,
            Kind::Band(l, u) | Kind::BandC(l, u) => i <= j + l && j <= i + u,
        }
    }
}
const JUNK: f64 = 7.0e3;

type C = (f64, f64);
fn mul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
/// Factorise and solve with the code under test; None when reported singular.
fn solve(kind: Kind, n: usize, m: &[C], rhs: &[Vec<C>]) -> Option<Vec<Vec<C>>> {
    let mut ip = Array1::<i32>::zeros(n);
    let part = |f: &dyn Fn(&C) -> f64| -> Array2<f64> {
        match kind {
            Kind::Band(l, u) | Kind::BandC(l, u) => {
                let mut a = Array2::from_elem((2 * l + u + 1, n), JUNK);
                for i in 0..n {
                    for j in 0..n {
                        if kind.holds(i, j) {
                            a[[l + u + i - j, j]] = f(&m[i * n + j]);
                        }
                    }
                }
                a
            }
            _ => Array2::from_shape_fn((n, n), |(i, j)| f(&m[i * n + j])),
        }
    };
    let mut ar = part(&|x| x.0);
    let mut ai = part(&|x| x.1);
    let ier = match kind {
        Kind::Dense => h::dec(&mut ar, &mut ip),
        Kind::DenseC => h::decc(&mut ar, &mut ai, &mut ip),
        Kind::Hess(l) => h::dech(&mut ar, l, &mut ip),
        Kind::HessC(l) => h::dechc(&mut ar, &mut ai, l, &mut ip),
        Kind::Band(l, u) => h::decb(&mut ar, l, u, &mut ip),
        Kind::BandC(l, u) => h::decbc(&mut ar, &mut ai, l, u, &mut ip),
    };
    if ier != 0 {
        return None;
    }
    Some(
        rhs.iter()
            .map(|b| {
                let mut br: Array1<f64> = b.iter().map(|x| x.0).collect();
                let mut bi: Array1<f64> = b.iter().map(|x| x.1).collect();
                match kind {
                    Kind::Dense => h::sol(&ar, &mut br, &ip),
                    Kind::DenseC => h::solc(&ar, &ai, &mut br, &mut bi, &ip),
                    Kind::Hess(l) => h::solh(&ar, l, &mut br, &ip),
                    Kind::HessC(l) => h::solhc(&ar, &ai, l, &mut br, &mut bi, &ip),
                    Kind::Band(l, u) => h::solb(&ar, l, u, &mut br, &ip),
                    Kind::BandC(l, u) => h::solbc(&ar, &ai, l, u, &mut br, &mut bi, &ip),
                }
                (0..n).map(|i| (br[i], if kind.complex() { bi[i] } else { 0.0 })).collect()
            })
            .collect(),
    )
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Truth {
    Regular,
    /// a pivot column vanishes and floating-point elimination sees it exactly
    Singular,
    /// singular or so close to it that rounding decides
    Open,
}
/// Gaussian elimination with partial pivoting, noting whether every operation was exact.
fn truth(n: usize, m: &[C]) -> Truth {
    let mut a: Vec<C> = m.to_vec();
    let mut exact = true;
    let mut size = a.iter().map(|x| x.0.abs() + x.1.abs()).fold(0.0, f64::max);
    let start = size;
    // products and sums of short dyadic numbers are exact: keep count of the bits
    let fits = |x: f64| x == 0.0 || (x * 2f64.powi(18)).fract() == 0.0 && x.abs() < 2f64.powi(18);
    for k in 0..n {
        let p = (k..n).fold(k, |p, i| if a[i * n + k].0.abs() + a[i * n + k].1.abs() > a[p * n + k].0.abs() + a[p * n + k].1.abs() { i } else { p });
        for j in 0..n {
            a.swap(k * n + j, p * n + j);
        }
        let d = a[k * n + k];
        let s = d.0.abs() + d.1.abs();
        if s == 0.0 && exact {
            return Truth::Singular;
        }
        if s <= 1e-10 * size.max(start) {
            return Truth::Open;
        }
        let den = d.0 * d.0 + d.1 * d.1;
        let inv = (d.0 / den, -d.1 / den);
        exact &= fits(inv.0) && fits(inv.1) && fits(d.0) && fits(d.1);
        for i in k + 1..n {
            let f = mul(a[i * n + k], inv);
            exact &= fits(f.0) && fits(f.1);
            for j in k + 1..n {
                let g = mul(f, a[k * n + j]);
                let r = &mut a[i * n + j];
                *r = (r.0 - g.0, r.1 - g.1);
                exact &= fits(r.0) && fits(r.1) && fits(g.0) && fits(g.1);
                size = size.max(r.0.abs() + r.1.abs());
            }
        }
    }
    Truth::Regular
}
fn judge(kind: Kind, n: usize, m: &[C], cx: &mut Cx) -> CaseResult {
    let rhs: Vec<Vec<C>> = if kind.complex() {
        vec![(0..n).map(|i| (1.0 + i as f64, 0.5 - 0.75 * i as f64)).collect(), (0..n).map(|i| (if i % 2 == 0 { -1.0 } else { 2.0 }, 3.0)).collect()]
    } else {
        vec![(0..n).map(|i| (1.0 + i as f64, 0.0)).collect(), (0..n).map(|i| (if i % 2 == 0 { -1.0 } else { 2.0 }, 0.0)).collect()]
    };
    let t = truth(n, m);
    let r = solve(kind, n, m, &rhs);
    cx.transitions += 1;
    cx.traces += 1;
    cx.outcome(format!("{:?} n={} {:?}", kind, n, t));
    match (&r, t) {
        (None, Truth::Regular) => return Err(format!("{:?} matrix {:?}: reported singular", kind, m)),
        (Some(_), Truth::Singular) => return Err(format!("{:?} matrix {:?}: not reported singular", kind, m)),
        (_, Truth::Open) => cx.ambiguous += 1,
        _ => {}
    }
    if let (Some(xs), true) = (&r, t != Truth::Open) {
        let am = (0..n).map(|i| (0..n).map(|j| m[i * n + j].0.abs() + m[i * n + j].1.abs()).sum::<f64>()).fold(0.0, f64::max);
        for (x, b) in xs.iter().zip(&rhs) {
            let xm = x.iter().map(|v| v.0.abs() + v.1.abs()).fold(0.0, f64::max);
            let bm = b.iter().map(|v| v.0.abs() + v.1.abs()).fold(0.0, f64::max);
            let tol = 32.0 * n as f64 * 2f64.powi(n.min(10) as i32) * f64::EPSILON * (am * xm + bm);
            for i in 0..n {
                let mut s = (-b[i].0, -b[i].1);
                for j in 0..n {
                    let p = mul(m[i * n + j], x[j]);
                    s = (s.0 + p.0, s.1 + p.1);
                }
                let r = s.0.abs().max(s.1.abs());
                cx.metric("residual / allowed", r / tol);
                if !(r <= tol) {
                    return Err(format!("{:?} matrix {:?} right-hand side {:?}: solution {:?} leaves a residual of {:e}", kind, m, b, x, r));
                }
            }
        }
    }
    Ok(())
}

const T: f64 = 6.938893903907228e-18; // 2^-57
fn real_alphabets() -> Vec<Vec<C>> {
    [
        vec![0.0, 1.0], vec![1.0, -3.0], vec![2.0, -0.25], vec![0.0, 1.0, -2.0], vec![T, 1.0, -3.0], vec![0.0, 1.0, -2.0, 5.0],
        vec![0.0, 1.0, -2.0, 0.5, T], vec![0.0, 1.0, -1.0, 2.0, -3.0, 0.5], vec![0.0, 1.0, -1.0, 2.0, -3.0, 0.5, T, 1e6],
    ]
    .iter()
    .map(|v| v.iter().map(|x| (*x, 0.0)).collect())
    .collect()
}
fn complex_alphabets() -> Vec<Vec<C>> {
    vec![
        vec![(0.0, 0.0), (0.0, 1.0)],
        vec![(1.0, 0.0), (0.0, -2.0)],
        vec![(1.0, 1.0), (2.0, -0.5)],
        vec![(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)],
        vec![(0.0, 0.0), (1.0, -2.0), (-1.0, 0.5)],
        vec![(0.0, 0.0), (1.0, 0.0), (0.0, -1.0), (2.0, 1.0)],
        vec![(T, 0.0), (1.0, 0.0), (0.0, T), (-1.0, 3.0)],
        vec![(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (3.0, -2.0), (0.0, -0.5), (T, T), (-2.0, 0.0)],
    ]
}
/// Every matrix of a kind over every alphabet whose count stays within the limit.
fn all_matrices(kind: Kind, n: usize, limit: f64, v: &mut Vec<Family>) {
    let cells: Vec<usize> = (0..n * n).filter(|c| kind.holds(c / n, c % n)).collect();
    let alphabets = if kind.complex() { complex_alphabets() } else { real_alphabets() };
    for (q, al) in alphabets.into_iter().enumerate() {
        let count = (al.len() as f64).powi(cells.len() as i32);
        if count > limit {
            continue;
        }
        let cells = cells.clone();
        let code = match kind {
            Kind::Dense => 0,
            Kind::DenseC => 1,
            Kind::Hess(l) => 2 + 10 * l,
            Kind::HessC(l) => 3 + 10 * l,
            Kind::Band(l, u) => 4 + 10 * l + 100 * u,
            Kind::BandC(l, u) => 5 + 10 * l + 100 * u,
        } as u64
            * 4096;
        v.push(family(format!("{:?}-n{}-a{}", kind, n, q), count as u64, move |i, cx| {
            let mut k = i;
            let mut m = vec![(0.0, 0.0); n * n];
            for c in &cells {
                m[*c] = al[pick(&mut k, al.len())];
            }
            cx.state(hash_f64s(code + q as u64 * 64 + n as u64, &[i as f64]));
            cx.sample = Some(format!("{:?} {:?}", kind, m));
            judge(kind, n, &m, cx)
        }));
    }
}
/// Every row order of matrices whose elimination needs that order, larger dimensions.
fn row_orders(kind: Kind, n: usize, v: &mut Vec<Family>) {
    let f: u64 = (1..=n as u64).product();
    v.push(family(format!("orders-{:?}-n{}", kind, n), f * 4, move |i, cx| {
        let mut k = i;
        let style = pick(&mut k, 4);
        let mut left: Vec<usize> = (0..n).collect();
        let perm: Vec<usize> = (0..n).map(|q| left.remove(pick(&mut k, n - q))).collect();
        let mut m = vec![(0.0, 0.0); n * n];
        for r in 0..n {
            for c in 0..n {
                let (a, b) = (r as f64, c as f64);
                let x = match style {
                    0 => if r == c { 1.0 } else { 0.0 },
                    1 => if r == c { 4.0 } else if r < c { 1.0 + a - b } else { 0.25 * (a - b) },
                    2 => if r == c { 1e-3 } else { 1.0 / (1.0 + a + b) },
                    _ => if r <= c { 2.0 - b } else { T * (1.0 + a) },
                };
                let y = if kind.complex() { if (r + 2 * c) % 3 == 0 { -x } else { 0.5 * x * (a - b) } } else { 0.0 };
                m[perm[r] * n + c] = (x, y);
            }
        }
        cx.state(hash_f64s(n as u64, &[i as f64, 0.5]));
        judge(kind, n, &m, cx)
    }));
}
/// Larger dimensions: in every column the pivot at every place that the structure allows
/// (once among comparable numbers, once among tiny ones), and every column vanishing.
fn large(kind: Kind, n: usize, v: &mut Vec<Family>) {
    let mut cases = vec![];
    for k in 0..n {
        cases.push((2, k, 0));
        for d in 0..n - k {
            if kind.holds(k + d, k) {
                cases.push((0, k, d));
                cases.push((1, k, d));
            }
        }
    }
    v.push(family(format!("large-{:?}-n{}", kind, n), cases.len() as u64, move |i, cx| {
        let (style, k, d) = cases[i as usize];
        let mut m = vec![(0.0, 0.0); n * n];
        for r in 0..n {
            for c in 0..n {
                if !kind.holds(r, c) {
                    continue;
                }
                let g = ((r * 7 + c * 13) % 11) as f64 - 5.5;
                let x = match style {
                    2 => if c == k { 0.0 } else if r == c || r == c + 1 { 1.0 } else { 0.0 },
                    _ if c == k => if r == k + d { 1.0 } else if style == 1 { T * g } else { g / 64.0 },
                    _ => if r == c { 8.0 } else { g / 8.0 / n as f64 },
                };
                let y = if !kind.complex() { 0.0 } else if (r + c) % 2 == 0 { 0.5 * x } else { -2.0 * x };
                m[r * n + c] = if kind.complex() && style == 2 { (0.0, x) } else { (x, y) };
            }
        }
        cx.state(hash_f64s(n as u64, &[i as f64, 0.25, style as f64]));
        judge(kind, n, &m, cx)
    }));
}
pub fn c19(tier: Tier) -> (Meta, Vec<Family>) {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for n in 1..=5 {
        let limit = if q || n == 5 { 3e6 } else { 4.4e7 };
        all_matrices(Kind::Dense, n, limit, &mut v);
        all_matrices(Kind::DenseC, n, limit, &mut v);
    }
    for n in 4..=if q { 7 } else { 8 } {
        row_orders(Kind::Dense, n, &mut v);
        row_orders(Kind::DenseC, n, &mut v);
    }
    for n in 8..=if q { 24 } else { 48 } {
        large(Kind::Dense, n, &mut v);
        large(Kind::DenseC, n, &mut v);
    }
    (
        Meta {
            id: "C19",
            rule: "a case is one matrix, factorised and solved for two right-hand sides".into(),
            assumptions: vec![
                "singular matrices are judged where floating-point elimination is exact (short dyadic multipliers); others are counted as ambiguous".into(),
            ],
        },
        v,
    )
}
/// The Hessenberg reduction: rebuild the matrix from what it leaves.
fn reduction(n: usize, m: &[f64], cx: &mut Cx) -> CaseResult {
    let mut a = Array2::from_shape_fn((n, n), |(i, j)| m[i * n + j]);
    let mut inter = Array1::<i32>::zeros(n);
    h::elmhes(&mut a, &mut inter);
    cx.transitions += 1;
    cx.traces += 1;
    let mut b = vec![vec![0.0; n]; n];
    let mut size = m.iter().fold(0.0f64, |s, x| s.max(x.abs()));
    for i in 0..n {
        for j in 0..n {
            if i <= j + 1 {
                b[i][j] = a[[i, j]];
                size = size.max(b[i][j].abs());
            }
        }
    }
    let same_poly = {
        // coefficients of the characteristic polynomials (Faddeev-LeVerrier)
        let poly = |x: &Vec<Vec<f64>>| -> Vec<f64> {
            let mut mm = vec![vec![0.0; n]; n];
            let mut c = 1.0;
            let mut out = vec![];
            for k in 1..=n {
                let mut t = vec![vec![0.0; n]; n];
                for i in 0..n {
                    for j in 0..n {
                        t[i][j] = (0..n).map(|l| x[i][l] * mm[l][j]).sum::<f64>() + if i == j { c } else { 0.0 };
                    }
                }
                mm = t;
                let tr: f64 = (0..n).map(|i| (0..n).map(|l| x[i][l] * mm[l][i]).sum::<f64>()).sum();
                c = -tr / k as f64;
                out.push(c);
            }
            out
        };
        let full: Vec<Vec<f64>> = (0..n).map(|i| m[i * n..(i + 1) * n].to_vec()).collect();
        let (p, q) = (poly(&full), poly(&b));
        (0..n).all(|k| (p[k] - q[k]).abs() <= 1e-10 * (1.0 + n as f64 * size).powi(k as i32 + 1))
    };
    if !same_poly {
        return Err(format!("matrix {:?}: the Hessenberg matrix {:?} has another characteristic polynomial", m, b));
    }
    // undo the recorded eliminations and interchanges
    for k in (1..n.saturating_sub(1)).rev() {
        for i in (k + 1..n).rev() {
            let y = a[[i, k - 1]];
            for r in b.iter_mut() {
                r[k] -= y * r[i];
            }
            for j in 0..n {
                b[i][j] += y * b[k][j];
            }
        }
        let ii = inter[k];
        if ii < k as i32 || ii >= n as i32 {
            return Err(format!("matrix {:?}: interchange {:?}", m, inter));
        }
        let ii = ii as usize;
        b.swap(ii, k);
        for r in b.iter_mut() {
            r.swap(ii, k);
        }
    }
    for i in 0..n {
        for j in 0..n {
            if !((b[i][j] - m[i * n + j]).abs() <= 1e-11 * size) {
                return Err(format!("matrix {:?}: the recorded similarity leads back to {:?}", m, b));
            }
        }
    }
    Ok(())
}
pub fn c20(tier: Tier) -> (Meta, Vec<Family>) {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let limit = if q { 3e5 } else { 3e6 };
    for n in 1..=5 {
        for l in 0..n {
            all_matrices(Kind::Hess(l), n, limit, &mut v);
            all_matrices(Kind::HessC(l), n, limit, &mut v);
            for u in 0..n {
                all_matrices(Kind::Band(l, u), n, limit, &mut v);
                all_matrices(Kind::BandC(l, u), n, limit, &mut v);
            }
        }
    }
    // narrow bands in larger dimensions
    for n in 6..=if q { 6 } else { 8 } {
        for l in 0..3 {
            for u in 0..3 {
                all_matrices(Kind::Band(l, u), n, limit, &mut v);
                all_matrices(Kind::BandC(l, u), n, limit, &mut v);
            }
        }
    }
    for n in if q { vec![7, 10, 17] } else { (7..=24).collect() } {
        for l in [0, 1, 2, 5, n - 1] {
            large(Kind::Hess(l), n, &mut v);
            large(Kind::HessC(l), n, &mut v);
            for u in [0, 1, 2, 5, n - 1] {
                large(Kind::Band(l, u), n, &mut v);
                large(Kind::BandC(l, u), n, &mut v);
            }
        }
    }
    for n in 1..=5usize {
        for (k, al) in real_alphabets().into_iter().enumerate() {
            let count = (al.len() as f64).powi((n * n) as i32);
            if count > 10.0 * limit {
                continue;
            }
            v.push(family(format!("reduction-n{}-a{}", n, k), count as u64, move |i, cx| {
                let mut j = i;
                let m: Vec<f64> = (0..n * n).map(|_| al[pick(&mut j, al.len())].0).collect();
                cx.state(hash_f64s(1000 + k as u64 * 64 + n as u64, &[i as f64]));
                cx.outcome(format!("reduction n={}", n));
                reduction(n, &m, cx)
            }));
        }
    }
    (
        Meta {
            id: "C20",
            rule: "a case is one matrix with one pair of bandwidths, factorised and solved for two right-hand sides, or one matrix reduced to Hessenberg form".into(),
            assumptions: vec![
                "singular matrices are judged where floating-point elimination is exact; others are counted as ambiguous".into(),
                "the storage outside the band holds arbitrary finite values".into(),
            ],
        },
        v,
    )
}
