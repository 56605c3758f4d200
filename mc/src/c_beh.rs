//! C10, C23, C24, C25: behaviour of whole integrations.
use crate::bounds::bound;
use crate::core::*;
use crate::grid::*;
use crate::problems as pb;
use crate::util::*;
use std::sync::Arc;

/// Compare a measured quantity with the calibrated bound of its class.
fn within_bound(cx: &mut Cx, key: String, v: f64, margin: f64) -> CaseResult {
    cx.metric(format!("cal {}", key), v);
    if std::env::var("MC_CAL").is_ok() {
        return Ok(());
    }
    match bound(&key) {
        None => panic!("no calibrated bound for {}", key),
        Some(b) if v <= margin * b => Ok(()),
        Some(b) => Err(format!("{} is {:e}, more than {} times the {:e} of the calibration", key, v, margin, b)),
    }
}
fn note(cx: &mut Cx, alg: Alg, desc: &str, t: &Trace) {
    for (x, u) in t.ts.iter().zip(&t.us) {
        let mut v = vec![*x];
        v.extend(u);
        cx.state(hash_f64s(alg as u64, &v));
    }
    cx.transitions += t.obs.len() as u64 - 1;
    cx.traces += 1;
    cx.sample = Some(format!("{} -> {}", desc, t.brief()));
}

// ---------------------------------------------------------------- C10
/// Largest error over the record in units of the requested tolerance, and in absolute terms.
fn global_error(s: &Spec, t: &Trace, rt: f64, at: f64) -> (f64, f64) {
    let ex = s.exact.as_ref().unwrap();
    let scale = t.ts.iter().map(|x| maxabs(&ex(*x))).fold(0.0, f64::max);
    let (mut units, mut abs) = (0.0f64, 0.0f64);
    for (x, u) in t.ts.iter().zip(&t.us) {
        let e = ex(*x);
        for i in 0..s.n {
            let d = (u[i] - e[i]).abs();
            // rounding in the state and in time, accumulated
            let d0 = (d - 2e-12 * scale).max(0.0);
            let r = d0 / (at + rt * maxabs(&e));
            units = if r > units || r.is_nan() { r } else { units };
            abs = if d > abs || d.is_nan() { d } else { abs };
        }
    }
    (units, abs)
}
fn tag(alg: Alg, var: &str) -> &'static str {
    match (alg, var) {
        (Alg::Dp5, "fac") | (Alg::Dp5, "safe") => "tuned",
        (Alg::Radau, "newt3") | (Alg::Radau, "fnewt") | (Alg::Radau, "safe") | (Alg::Radau, "noext") => "tuned",
        _ => "std",
    }
}
pub fn c10(tier: Tier) -> (Meta, Vec<Family>) {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for alg in [Alg::Dp5, Alg::Radau] {
        let mut g = std_grid(alg, tier);
        g.probs = pb::smooth();
        g.probs.extend(vec![pb::lin(-20.0, 1.0), pb::ho(0.5, 20.0), pb::zero(), pb::constant(3.0), pb::poly(3), pb::poly(6)]);
        if alg == Alg::Dp5 {
            // (Radau5 on stiff problems: C25; its estimate of a huge first step is doubly damped)
            g.probs.push(pb::prothero(200.0, 1.0));
        }
        g.tols = vec![(1.0, 1.0)];
        g.shifts = if q { vec![0.0, -3.7] } else { vec![0.0, -3.7, 37.0] };
        g.dtstarts = if q { vec![None, Some(1e-3), Some(0.3), Some(50.0)] } else { vec![None, Some(1e-5), Some(1e-3), Some(0.03), Some(0.1), Some(0.3), Some(0.7), Some(50.0)] };
        let ladder: Vec<f64> = vec![1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10];
        let ratios = vec![1.0, 1e-3];
        let nr = ratios.len();
        v.push(family(format!("ladder-{:?}", alg), g.count() * nr as u64, move |i, cx| {
            let mut i = i;
            let at = ratios[pick(&mut i, nr)];
            let c = g.case(i);
            for rt in &ladder {
                let o = Opt { reltol: Some(*rt), abstol: Some(at * rt), ..c.opt.clone() };
                let t = Run::new(&c.spec, &o).go(alg);
                let d = format!("{} tol {:e}/{:e}", c.desc, rt, at * rt);
                note(cx, alg, &d, &t);
                if t.code() != Code::Success {
                    return Err(format!("{}: {}", d, t.brief()));
                }
                let (e, _) = global_error(&c.spec, &t, *rt, at * rt);
                let name = c.spec.name.split(|x| x == '~' || x == '+').next().unwrap().to_string();
                within_bound(cx, format!("error {:?} {} {} {:e}", alg, name, tag(alg, c.var), rt), e, 3.0).map_err(|m| format!("{}: {}", d, m))?;
            }
            Ok(())
        }));
    }
    (
        Meta {
            id: "C10",
            rule: "a case is one problem, direction, option set and dtstart run over the whole ladder of tolerances".into(),
            assumptions: vec![
                "the bound on the error of each problem, tolerance and option class is three times the largest error measured over the whole family when the check was written".into(),
                "errors within 2e-12 of the size of the solution are not judged".into(),
            ],
        },
        v,
    )
}

// ---------------------------------------------------------------- C23
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sym {
    Mirror,
    Negate,
    Scale(i32),
    Time(i32),
    Shift(f64),
    NegateMirror,
    Rotate(usize),
    Reverse,
    Copies(usize),
}
fn mapped(s: &Spec, n: usize, to: impl Fn(&[f64]) -> Vec<f64> + Send + Sync + 'static, from: impl Fn(&[f64]) -> Vec<f64> + Send + Sync + 'static, jac: impl Fn(&[f64], usize) -> Vec<f64> + Send + Sync + 'static) -> Spec {
    // `to` maps the old state to the new one (linearly), `from` back
    let mut r = s.clone();
    let (f, j) = (s.f.clone(), s.jac.clone());
    let m = s.n;
    r.n = n;
    r.u0 = to(&s.u0);
    let from = Arc::new(from);
    let from2 = from.clone();
    r.f = Arc::new(move |d, u, t| {
        let x = from(u);
        let mut y = vec![0.0; m];
        f(&mut y, &x, t);
        d.copy_from_slice(&to(&y));
    });
    r.jac = Arc::new(move |d, u, t| {
        let x = from2(u);
        let mut y = vec![0.0; m * m];
        j(&mut y, &x, t);
        d.copy_from_slice(&jac(&y, m));
    });
    r
}
fn transform(s: &Spec, o: &Opt, y: Sym) -> (Spec, Opt) {
    let mut opt = o.clone();
    let p2 = |k: i32| 2f64.powi(k);
    let sp = match y {
        Sym::Mirror => s.mirrored(),
        Sym::Shift(c) => s.shifted(c),
        Sym::Negate => mapped(s, s.n, |x| x.iter().map(|a| -a).collect(), |x| x.iter().map(|a| -a).collect(), |j, _| j.to_vec()),
        Sym::NegateMirror => return transform(&s.mirrored(), o, Sym::Negate),
        Sym::Scale(k) => {
            opt.abstol = opt.abstol.map(|a| a * p2(k));
            mapped(s, s.n, move |x| x.iter().map(|a| a * p2(k)).collect(), move |x| x.iter().map(|a| a * p2(-k)).collect(), |j, _| j.to_vec())
        }
        Sym::Time(k) => {
            let c = p2(k);
            let mut r = s.clone();
            let (f, j) = (s.f.clone(), s.jac.clone());
            r.f = Arc::new(move |d, u, t| {
                f(d, u, t / c);
                d.iter_mut().for_each(|x| *x /= c);
            });
            r.jac = Arc::new(move |d, u, t| {
                j(d, u, t / c);
                d.iter_mut().for_each(|x| *x /= c);
            });
            r.t0 *= c;
            r.tf *= c;
            opt.dtstart = opt.dtstart.map(|x| x * c);
            opt.dtmax = opt.dtmax.map(|x| x * c);
            r
        }
        Sym::Rotate(_) | Sym::Reverse => {
            let n = s.n;
            let p: Vec<usize> = match y {
                Sym::Rotate(k) => (0..n).map(|i| (i + k) % n).collect(),
                _ => (0..n).rev().collect(),
            };
            let (a, b, c) = (p.clone(), p.clone(), p);
            mapped(
                s,
                n,
                move |x| a.iter().map(|k| x[*k]).collect(),
                move |x| {
                    let mut r = vec![0.0; n];
                    b.iter().enumerate().for_each(|(i, k)| r[*k] = x[i]);
                    r
                },
                move |j, n| {
                    let mut r = vec![0.0; n * n];
                    for i in 0..n {
                        for k in 0..n {
                            r[i * n + k] = j[c[i] * n + c[k]];
                        }
                    }
                    r
                },
            )
        }
        Sym::Copies(m) => {
            let n = s.n;
            // the copies evolve independently
            let mut r = s.clone();
            let (f, j) = (s.f.clone(), s.jac.clone());
            r.n = n * m;
            r.u0 = (0..m).flat_map(|_| s.u0.clone()).collect();
            r.f = Arc::new(move |d, u, t| {
                for q in 0..m {
                    f(&mut d[q * n..(q + 1) * n], &u[q * n..(q + 1) * n], t);
                }
            });
            r.jac = Arc::new(move |d, u, t| {
                d.fill(0.0);
                let mut y = vec![0.0; n * n];
                for q in 0..m {
                    j(&mut y, &u[q * n..(q + 1) * n], t);
                    for a in 0..n {
                        for b in 0..n {
                            d[(q * n + a) * n * m + q * n + b] = y[a * n + b];
                        }
                    }
                }
            });
            r
        }
    };
    (sp, opt)
}
/// What the transformed run should have recorded at an entry.
fn image(y: Sym, t: f64, u: &[f64]) -> (f64, Vec<f64>) {
    let neg = |u: &[f64]| u.iter().map(|x| -x).collect::<Vec<_>>();
    let n = u.len();
    match y {
        Sym::Mirror => (-t, u.to_vec()),
        Sym::Shift(c) => (t + c, u.to_vec()),
        Sym::Negate => (t, neg(u)),
        Sym::NegateMirror => (-t, neg(u)),
        Sym::Scale(k) => (t, u.iter().map(|x| x * 2f64.powi(k)).collect()),
        Sym::Time(k) => (t * 2f64.powi(k), u.to_vec()),
        Sym::Rotate(k) => (t, (0..n).map(|i| u[(i + k) % n]).collect()),
        Sym::Reverse => (t, u.iter().rev().cloned().collect()),
        Sym::Copies(m) => (t, (0..m).flat_map(|_| u.to_vec()).collect()),
    }
}
fn sym_case(alg: Alg, c: &Case, y: Sym, tol: f64, cx: &mut Cx) -> CaseResult {
    let a = Run::new(&c.spec, &c.opt).go(alg);
    let (s2, o2) = transform(&c.spec, &c.opt, y);
    let b = Run::new(&s2, &o2).go(alg);
    let d = format!("{} {:?}", c.desc, y);
    note(cx, alg, &d, &a);
    note(cx, alg, &d, &b);
    cx.outcome(format!("{:?} {:?}", alg, y));
    if a.ts.len() != b.ts.len() || a.code() != b.code() || a.last().st.steps != b.last().st.steps {
        return Err(format!("{}: {} but transformed {}", d, a.brief(), b.brief()));
    }
    let span = (c.spec.tf - c.spec.t0).abs();
    let mut worst = 0.0f64;
    for k in 0..a.ts.len() {
        let (t, u) = image(y, a.ts[k], &a.us[k]);
        let ts = match y {
            Sym::Time(q) => span * 2f64.powi(q),
            _ => span,
        };
        let dt = (b.ts[k] - t).abs() / ts;
        let us = maxabs(&u) + match y {
            Sym::Scale(q) => 1e-3 * 2f64.powi(q) * maxabs(&c.spec.u0),
            _ => 1e-3 * maxabs(&c.spec.u0),
        };
        let du = (0..u.len()).map(|i| (b.us[k][i] - u[i]).abs()).fold(0.0, f64::max) / us.max(1e-300);
        let w = dt.max(if us == 0.0 && du == 0.0 { 0.0 } else { du });
        worst = if w > worst || w.is_nan() { w } else { worst };
        if !(w <= tol) {
            return Err(format!("{}: entry {} is t={:e} u={:?}, the transformed run of t={:e} u={:?} expects t={:e} u={:?}", d, k, b.ts[k], b.us[k], a.ts[k], a.us[k], t, u));
        }
    }
    cx.metric(format!("deviation {:?} {:?}", alg, y), worst);
    Ok(())
}
pub fn c23(tier: Tier) -> (Meta, Vec<Family>) {
    let mut v = vec![];
    for alg in [Alg::Dp5, Alg::Radau] {
        let mut g = std_grid(alg, tier);
        g.mirror = vec![false];
        g.dtmaxs = vec![None, Some(0.05)];
        g.probs.push(pb::sliding());
        g.probs.push(pb::blowup());
        for p in g.probs.iter_mut() {
            p.exact = None;
        }
        for x in g.vars.iter_mut() {
            x.1.max_steps = Some(1500);
        }
        let full = g.clone();
        v.push(family(format!("mirror-{:?}", alg), full.count(), move |i, cx| sym_case(alg, &full.case(i), Sym::Mirror, 1e-9, cx)));
        // the difference increments have an absolute scale and a sign: exact Jacobians only
        let mut e = g.clone();
        e.vars.retain(|x| x.1.jac);
        // no difference of exact zero and the absolute start values
        let syms = vec![Sym::Negate, Sym::NegateMirror, Sym::Scale(7), Sym::Scale(-9), Sym::Scale(40), Sym::Scale(-70)];
        let e1 = e.clone();
        let ns = syms.len();
        v.push(family(format!("state-{:?}", alg), e1.count() * ns as u64, move |i, cx| {
            let mut i = i;
            let y = syms[pick(&mut i, ns)];
            sym_case(alg, &e1.case(i), y, 1e-9, cx)
        }));
        let mut e2 = g.clone();
        e2.dtstarts = vec![Some(1e-2), Some(0.3)];
        let syms = vec![Sym::Time(3), Sym::Time(-8), Sym::Time(45), Sym::Time(-60)];
        let ns = syms.len();
        v.push(family(format!("time-{:?}", alg), e2.count() * ns as u64, move |i, cx| {
            let mut i = i;
            let y = syms[pick(&mut i, ns)];
            let mut c = e2.case(i);
            if !c.opt.jac && matches!(alg, Alg::Radau) {
                c.opt.jac = true;
            }
            sym_case(alg, &c, y, 1e-9, cx)
        }));
        // permutations and copies change the order of sums: not where the error estimate is rounding
        let mut e3 = e.clone();
        e3.probs = vec![pb::ho(1.0, 6.0), pb::ho(20.0, 1.0), pb::lotka(), pb::brusselator(), pb::kinetics(), pb::vdp(0.1, 2.0), pb::logistic(), pb::cycle(3, 2.0), pb::pivot3(), pb::mixed5().span(0.0, 0.02)];
        if alg == Alg::Radau {
            // on linear problems the speed of the Newton iteration is rounding
            e3.probs.retain(|p| !p.linear);
        }
        e3.shifts = vec![0.0];
        e3.dtstarts = vec![Some(1e-2), Some(0.3)];
        // a shift of time changes the rounding of times: the same problems
        let mut e4 = e3.clone();
        e4.probs.push(pb::forced());
        let syms = vec![Sym::Shift(1.0), Sym::Shift(-7.0), Sym::Shift(64.0)];
        let ns = syms.len();
        v.push(family(format!("shift-{:?}", alg), e4.count() * ns as u64, move |i, cx| {
            let mut i = i;
            let y = syms[pick(&mut i, ns)];
            sym_case(alg, &e4.case(i), y, 1e-5, cx)
        }));
        let syms = vec![Sym::Reverse, Sym::Rotate(1), Sym::Copies(2), Sym::Copies(3), Sym::Copies(5)];
        let ns = syms.len();
        v.push(family(format!("components-{:?}", alg), e3.count() * ns as u64, move |i, cx| {
            let mut i = i;
            let y = syms[pick(&mut i, ns)];
            sym_case(alg, &e3.case(i), y, 1e-5, cx)
        }));
    }
    (
        Meta {
            id: "C23",
            rule: "a case is a pair of integrations: a problem with options and its image under one transformation".into(),
            assumptions: vec![
                "state scaling and negation are judged with an analytic Jacobian, time scaling with a given dtstart, since difference increments and the automatic first step have absolute scales".into(),
            ],
        },
        v,
    )
}

// ---------------------------------------------------------------- C24
fn conserved(alg: Alg, s: &Spec, o: &Opt, d: &str, cx: &mut Cx) -> CaseResult {
    let t = Run::new(s, o).go(alg);
    note(cx, alg, d, &t);
    cx.outcome(format!("{:?} {:?}", alg, t.code()));
    let mut size = maxabs(&s.u0);
    // rounding in the solution of the linear systems is relative to the stiffness
    let j = s.evalj(&s.u0, s.t0);
    let norm = (0..s.n).map(|i| (0..s.n).map(|k| j[i * s.n + k].abs()).sum::<f64>()).fold(0.0, f64::max);
    let tol = match alg {
        Alg::Dp5 => 10.0,
        Alg::Radau => 10.0 + 3.0 * norm * (s.tf - s.t0).abs(),
    };
    for k in 1..t.ts.len() {
        size = size.max(maxabs(&t.us[k]));
        for w in &s.invariants {
            let a: f64 = (0..s.n).map(|i| w[i] * (t.us[k][i] - s.u0[i])).sum();
            let scale = size * w.iter().map(|x| x.abs()).sum::<f64>();
            let r = a.abs() / (f64::EPSILON * scale * (k as f64).sqrt());
            cx.metric(format!("drift / allowed drift {:?}", alg), r / tol);
            if !(r <= tol) {
                return Err(format!("{}: after {} steps the invariant {:?} has drifted by {:e} (state of size {:e})", d, k, w, a, size));
            }
        }
    }
    Ok(())
}
pub fn c24(tier: Tier) -> (Meta, Vec<Family>) {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for alg in [Alg::Dp5, Alg::Radau] {
        let mut g = std_grid(alg, tier);
        g.probs.retain(|p| !p.invariants.is_empty());
        g.probs.extend(vec![pb::cycle(2, 30.0), pb::cycle(8, 3.0)]);
        g.vars.retain(|x| x.1.jac);
        v.push(family(format!("grid-{:?}", alg), g.count(), move |i, cx| {
            let c = g.case(i);
            conserved(alg, &c.spec, &c.opt, &c.desc, cx)
        }));
        // every exchange matrix between three compartments
        let rates: Vec<Vec<f64>> = if alg == Alg::Dp5 { vec![vec![0.0, 1.0, 5.0]] } else { vec![vec![0.0, 1.0, 5.0], vec![0.0, 1.0, 1e4]] };
        let opts: Vec<Opt> = vec![
            Opt::tol(1e-3, 1e-6),
            Opt { dtstart: Some(0.3), ..Opt::tol(1e-6, 1e-8) },
            Opt { dtstart: Some(0.3), max_newt: Some(4), use_ext_col: Some(false), safe: Some(0.7), ..Opt::tol(1e-4, 1e-4) },
        ];
        let inits = vec![vec![1.0, 0.0, 0.0], vec![-0.5, 2.0, 0.25]];
        let n = prod(&[rates.len(), opts.len(), inits.len(), 729]);
        v.push(family(format!("exchange-{:?}", alg), n, move |i, cx| {
            let mut i = i;
            let r = &rates[pick(&mut i, rates.len())];
            let o = &opts[pick(&mut i, opts.len())];
            let u0 = &inits[pick(&mut i, inits.len())];
            let mut m = vec![vec![0.0; 3]; 3];
            for a in 0..3 {
                for b in 0..3 {
                    if a != b {
                        let x = r[pick(&mut i, 3)];
                        m[a][b] += x;
                        m[b][b] -= x;
                    }
                }
            }
            let mut s = pb::linsys(&format!("exchange{:?}", m), m, u0, 1.0);
            s.invariants.push(vec![1.0; 3]);
            let d = format!("{:?} {} {:?}", alg, s.name, o);
            conserved(alg, &s, o, &d, cx)
        }));
        // every set of reactions among four species that conserve two totals
        let nb = if q { 6 } else { 8 };
        let rates = vec![1.0, 40.0];
        v.push(family(format!("reactions-{:?}", alg), (1 << nb) * 4, move |i, cx| {
            let mut i = i;
            let k = rates[pick(&mut i, 2)];
            let rt = [1e-3, 1e-6][pick(&mut i, 2)];
            let set = i;
            // (reactants, products, rate): A+B<->C, C<->D, A+B<->D, A+C<->A+D
            type R = (&'static [usize], [f64; 4]);
            let all: [R; 8] = [
                (&[0, 1], [-1.0, -1.0, 1.0, 0.0]),
                (&[2], [1.0, 1.0, -1.0, 0.0]),
                (&[2], [0.0, 0.0, -1.0, 1.0]),
                (&[3, 3], [0.0, 0.0, 1.0, -1.0]),
                (&[0, 1], [-1.0, -1.0, 0.0, 1.0]),
                (&[3], [1.0, 1.0, 0.0, -1.0]),
                (&[0, 2], [0.0, 0.0, -1.0, 1.0]),
                (&[1, 3], [0.0, 0.0, 1.0, -1.0]),
            ];
            let rs: Vec<R> = (0..8).filter(|b| set >> b & 1 == 1).map(|b| all[b]).collect();
            let rs2 = rs.clone();
            let s = Spec {
                name: format!("reactions{:b}k{}", set, k),
                n: 4,
                f: Arc::new(move |d, u, _| {
                    d.fill(0.0);
                    for (a, st) in &rs {
                        let r = k * a.iter().map(|x| u[*x]).product::<f64>();
                        for i in 0..4 {
                            d[i] += st[i] * r;
                        }
                    }
                }),
                jac: Arc::new(move |j, u, _| {
                    j.fill(0.0);
                    for (a, st) in &rs2 {
                        for q in 0..a.len() {
                            let r = k * (0..a.len()).filter(|x| *x != q).map(|x| u[a[x]]).product::<f64>();
                            for i in 0..4 {
                                j[i * 4 + a[q]] += st[i] * r;
                            }
                        }
                    }
                }),
                exact: None,
                t0: 0.0,
                tf: 1.0,
                u0: vec![1.0, 0.7, 0.3, 0.1],
                linear: false,
                invariants: vec![vec![1.0, 0.0, 1.0, 1.0], vec![0.0, 1.0, 1.0, 1.0], vec![1.0, -1.0, 0.0, 0.0]],
            };
            let o = Opt { dtstart: Some(0.1), ..Opt::tol(rt, rt * 1e-2) };
            let d = format!("{:?} {} tol {:e}", alg, s.name, rt);
            conserved(alg, &s, &o, &d, cx)
        }));
    }
    (
        Meta {
            id: "C24",
            rule: "a case is one integration of a system with linear invariants".into(),
            assumptions: vec!["rounding is allowed to grow with the square root of the number of steps, times a constant measured per method".into()],
        },
        v,
    )
}

// ---------------------------------------------------------------- C25
pub fn c25(tier: Tier) -> (Meta, Vec<Family>) {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    // a fast mode attached to a slow one, with the exact solution on the slow manifold
    fn pair(k: f64) -> Spec {
        let mut s = pb::linsys("pair", vec![vec![-1.0, 0.0], vec![k - 1.0, -k]], &[1.0, 1.0], 2.0);
        s.exact = Some(Arc::new(|t: f64| vec![(-t).exp(), (-t).exp()]));
        s
    }
    // rotated stiff directions, n = 3
    fn triple(k: f64) -> Spec {
        // u' = -k (v.w) v + drift, w = u - g(t), v a unit vector with dyadic entries
        let mut s = pb::linsys("triple", vec![vec![0.0; 3]; 3], &[1.0, 1.0, 0.0], 2.0);
        let v = [0.5f64, -0.5, 0.5f64.sqrt()];
        s.f = Arc::new(move |d, u, t| {
            let w = [u[0] - t.cos(), u[1] - (-t).exp(), u[2] - t.sin()];
            let p = v[0] * w[0] + v[1] * w[1] + v[2] * w[2];
            let g = [-t.sin(), -(-t).exp(), t.cos()];
            for i in 0..3 {
                d[i] = -k * p * v[i] + g[i] - 0.5 * w[i];
            }
        });
        s.jac = Arc::new(move |j, _, _| {
            for a in 0..3 {
                for b in 0..3 {
                    j[a * 3 + b] = -k * v[a] * v[b] - if a == b { 0.5 } else { 0.0 };
                }
            }
        });
        s.exact = Some(Arc::new(|t: f64| vec![t.cos(), (-t).exp(), t.sin()]));
        s
    }
    let kinds = vec!["pr", "pr3", "pair", "triple", "vdp", "cycle", "decay"];
    let mk = |kind: &str, k: f64| -> Spec {
        let mut s = match kind {
            "pr" => pb::prothero(k, 2.0),
            "pr3" => pb::prothero3(k, 1.0),
            "pair" => pair(k),
            "triple" => triple(k),
            "vdp" => pb::vdp(1.0 / k, 2.0),
            "cycle" => pb::cycle(4, k),
            _ => pb::lin(-k, 1.0),
        };
        s.name = format!("{}{:e}", kind, k);
        s
    };
    let es: Vec<f64> = (0..if q { 37 } else { 181 }).map(|e| 10f64.powf(e as f64 * if q { 0.25 } else { 0.05 })).collect();
    let tols: Vec<(f64, f64)> = vec![(1e-3, 1e-6), (1e-4, 1e-7), (1e-6, 1e-8), (1e-8, 1e-10)];
    let vars = radau_vars();
    let starts = vec![None, Some(1e-4)];
    let n = prod(&[kinds.len(), es.len(), tols.len(), vars.len(), starts.len(), 2]);
    v.push(family("stiffness", n, move |i, cx| {
        let mut i = i;
        let kind = kinds[pick(&mut i, kinds.len())];
        let k = es[pick(&mut i, es.len())];
        let (rt, at) = tols[pick(&mut i, tols.len())];
        let (vn, v) = &vars[pick(&mut i, vars.len())];
        let ds = starts[pick(&mut i, starts.len())];
        let m = pick(&mut i, 2) == 1;
        let base = mk(kind, k);
        let s = if m { base.mirrored() } else { base };
        let o = Opt { reltol: Some(rt), abstol: Some(at), dtstart: ds, max_steps: Some(3000), ..v.clone() };
        let t = Run::new(&s, &o).go(Alg::Radau);
        let d = format!("{} {} tol {:e} dtstart {:?}", s.name, vn, rt, ds);
        note(cx, Alg::Radau, &d, &t);
        cx.outcome(format!("{:?}", t.code()));
        if t.code() != Code::Success {
            return Err(format!("{}: {}", d, t.brief()));
        }
        // effort: the same bound for every stiffness
        let st = t.last().st;
        let key = |w: &str| format!("{} {} {} {:e}", w, kind, vn, rt);
        let mut r = within_bound(cx, key("steps"), st.steps as f64, 1.3);
        r = r.and(within_bound(cx, key("fevals"), st.fevals as f64, 1.3));
        r = r.and(within_bound(cx, key("jacobians"), st.jevals as f64, 1.5));
        r = r.and(within_bound(cx, key("decompositions"), st.dec as f64, 1.3));
        // (the decay has a transient layer that a given first step may skip)
        if s.exact.is_some() && kind != "decay" {
            let (e, _) = global_error(&s, &t, rt, at);
            r = r.and(within_bound(cx, key("error"), e, 3.0));
        }
        r.map_err(|e| format!("{}: {} ({})", d, e, t.brief()))
    }));
    // long spans: the step grows with time
    let spans: Vec<f64> = (0..12).map(|e| 10f64.powi(e)).collect();
    let vars = radau_vars();
    let n = prod(&[spans.len(), vars.len(), 2]);
    v.push(family("spans", n, move |i, cx| {
        let mut i = i;
        let tf = spans[pick(&mut i, spans.len())];
        let (vn, v) = &vars[pick(&mut i, vars.len())];
        let m = pick(&mut i, 2) == 1;
        let base = pb::robertson(tf);
        let s = if m { base.mirrored() } else { base };
        let o = Opt { reltol: Some(1e-4), abstol: Some(1e-8), dtstart: Some(1e-4), max_steps: Some(3000), ..v.clone() };
        let t = Run::new(&s, &o).go(Alg::Radau);
        let d = format!("{} up to {:e} {}", s.name, tf, vn);
        note(cx, Alg::Radau, &d, &t);
        cx.outcome(format!("robertson {:?}", t.code()));
        if t.code() != Code::Success {
            return Err(format!("{}: {}", d, t.brief()));
        }
        let st = t.last().st;
        let dec = tf.log10() as i32;
        let mut r = within_bound(cx, format!("robertson steps {} {}", vn, dec), st.steps as f64, 1.3);
        r = r.and(within_bound(cx, format!("robertson fevals {} {}", vn, dec), st.fevals as f64, 1.3));
        r = r.and(within_bound(cx, format!("robertson decompositions {} {}", vn, dec), st.dec as f64, 1.3));
        r.map_err(|e| format!("{}: {} ({})", d, e, t.brief()))
    }));
    (
        Meta {
            id: "C25",
            rule: "a case is one Radau5 integration at one stiffness".into(),
            assumptions: vec![
                "the bound on the effort of a problem family, tolerance and option set is 1.3 times the largest measured over all stiffness values when the check was written, 3 times for the error".into(),
            ],
        },
        v,
    )
}
