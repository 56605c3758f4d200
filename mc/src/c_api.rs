//! C11, C14, C16, C17, C27: limits, driving modes, independence and options.
use crate::core::*;
use crate::grid::*;
use std::sync::Arc;
use crate::problems as pb;
use crate::util::*;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use std::cell::Cell;

fn note(tr: &Trace, cx: &mut Cx) {
    for o in &tr.obs {
        let mut v = vec![o.t, o.dt];
        v.extend(&o.u);
        cx.state(hash_f64s(o.st.fevals as u64, &v));
    }
    cx.transitions += tr.obs.len() as u64 - 1;
    cx.traces += 1;
}

// ---------- C11 ----------

pub fn c11(tier: Tier) -> (Meta, Vec<Family>) {
    let mut v = vec![];
    for alg in [Alg::Dp5, Alg::Radau] {
        let lim = if tier == Tier::Quick { 60 } else { 300 };
        let options = Grid { probs: vec![pb::vdp(5.0, 2.0)], dtmaxs: vec![None], dtstarts: vec![Some(0.3)], ..options_grid(alg, tier) };
        for (name, g) in [("limits", small_grid(alg, tier)), ("options", options)] {
        v.push(family(format!("{}-{:?}", name, alg), g.count(), move |i, cx| {
            let c = g.case(i);
            let full = Run::new(&c.spec, &c.opt).go(alg);
            note(&full, cx);
            cx.sample = Some(format!("{} -> {}", c.desc, full.brief()));
            let n = full.last().st.steps;
            if full.code() != Code::Success {
                cx.outcome("unlimited run does not succeed");
                return Ok(());
            }
            // every limit up to `lim`, and every limit around the end
            let ms: Vec<usize> = (1..=n + 2).filter(|m| *m <= lim || *m + 4 >= n).collect();
            for m in ms {
                let o = Opt { max_steps: Some(m), ..c.opt.clone() };
                let tr = Run::new(&c.spec, &o).go(alg);
                note(&tr, cx);
                let e = |s: String| Err(format!("{} with max_steps={} (needs {}): {}", c.desc, m, n, s));
                if let Some(b) = tr.obs.iter().find(|b| b.st.steps > m) {
                    return e(format!("the step counter reached {}", b.st.steps));
                }
                if m >= n {
                    if tr.code() != Code::Success || tr.ts.len() != full.ts.len() {
                        return e(format!("{:?} with {} entries instead of {}", tr.code(), tr.ts.len(), full.ts.len()));
                    }
                } else if tr.code() != Code::MaxIters {
                    return e(format!("ended with {:?}", tr.code()));
                }
                if tr.ts.len() > full.ts.len() || (0..tr.ts.len()).any(|k| tr.ts[k] != full.ts[k] || !same(&tr.us[k], &full.us[k])) {
                    return e("the recorded solution is not a prefix of the unlimited one".into());
                }
                if m < n && alg == Alg::Dp5 && tr.ts.len() != m + 1 {
                    return e(format!("stopped after {} accepted steps", tr.ts.len() - 1));
                }
                cx.outcome(if m >= n { "enough" } else { "limited" });
            }
            Ok(())
        }));
        }
        // limits met while attempts are being rejected
        let opts = crate::c_radau::cell_opts();
        for (ci, ce) in crate::c_radau::rcells(tier).into_iter().take(1).enumerate() {
            let opts = opts.clone();
            v.push(family(format!("cells{}-{:?}", ci, alg), ce.count() * opts.len() as u64, move |i, cx| {
                let mut i = i;
                let opt = Opt { max_steps: Some(400), ..opts[pick(&mut i, opts.len())].clone() };
                let s = ce.spec(i);
                let full = Run::new(&s, &opt).go(alg);
                note(&full, cx);
                let n = full.last().st.steps;
                for m in 1..=n.min(24) {
                    let o = Opt { max_steps: Some(m), ..opt.clone() };
                    let tr = Run::new(&s, &o).go(alg);
                    note(&tr, cx);
                    let want = if m >= n && full.code() == Code::Success { Code::Success } else { Code::MaxIters };
                    let end = full.code() != Code::Success && full.code() != Code::MaxIters && tr.code() == full.code() && m >= n;
                    if !(tr.code() == want || end) || tr.last().st.steps > m {
                        return Err(format!("{:?} {} with max_steps={} (needs {}): {:?} after {} steps", alg, s.name, m, n, tr.code(), tr.last().st.steps));
                    }
                    if tr.ts.len() > full.ts.len() || (0..tr.ts.len()).any(|k| tr.ts[k] != full.ts[k] || !same(&tr.us[k], &full.us[k])) {
                        return Err(format!("{:?} {} with max_steps={}: not a prefix of the unlimited solution", alg, s.name, m));
                    }
                }
                cx.outcome(format!("{:?}", full.code()));
                Ok(())
            }));
        }
    }
    (
        Meta {
            id: "C11",
            rule: "a case is one integration repeated with every limit from 1 to two more than it needs (long ones: the first and last limits)".into(),
            assumptions: vec!["max_steps >= 1".into()],
        },
        v,
    )
}

// ---------- C27 ----------

/// As long as steps stay clear of the nearer of two final times, the final time must not matter.
fn until_end(alg: Alg, s: &Spec, opt: &Opt, fault: Option<&Fault>, c: f64, cx: &mut Cx) -> CaseResult {
    let mut far = s.clone();
    far.tf = s.t0 + c * (s.tf - s.t0);
    let go = |s: &Spec, calls: usize| {
        let r = Run::new(s, opt).step_calls(calls);
        match fault {
            Some(f) => r.fault(f).go(alg),
            None => r.go(alg),
        }
    };
    let a = go(s, 1_000_000);
    let b = go(&far, a.obs.len() + 1);
    note(&a, cx);
    note(&b, cx);
    // how far past the step a method may look for the final time
    let m = match alg {
        Alg::Dp5 => 1.02,
        Alg::Radau => 1.02 * opt.quot2.unwrap_or(1.2).max(1.0) / opt.quot1.unwrap_or(1.0).min(1.0),
    };
    let d = s.dir();
    let mut k = 0;
    let clear = |k: usize| (b.obs[k].t + m * b.obs[k].dt - s.tf) * d < 0.0;
    while k + 1 < b.obs.len() && clear(k) {
        let (x, y) = (a.obs.get(k + 1), &b.obs[k + 1]);
        let ok = x.map_or(false, |x| {
            x.t == y.t && x.tprev == y.tprev && x.dtprev == y.dtprev && same(&x.u, &y.u) && x.nsol == y.nsol && x.code == y.code && (x.st == y.st || !clear(k + 1))
        });
        if !ok {
            return Err(format!(
                "until {:e} and until {:e} differ in step {} from t={:e} with dt={:e}: {:?} and {:?}",
                s.tf, far.tf, k + 1, b.obs[k].t, b.obs[k].dt, x, y
            ));
        }
        k += 1;
    }
    cx.outcome(format!("{:?} {}", alg, if k == 0 { "nothing clear of the end" } else if k + 2 >= a.obs.len() { "all but the last" } else { "all but a few" }));
    Ok(())
}
pub fn c27(tier: Tier) -> (Meta, Vec<Family>) {
    let mut v = vec![];
    let far = if tier == Tier::Quick { vec![1.001, 1.3, 20.0] } else { vec![1.001, 1.3, 20.0, 1e6] };
    for alg in [Alg::Dp5, Alg::Radau] {
        let small = Grid { dtmaxs: vec![None, Some(0.05)], ..small_grid(alg, tier) };
        for (name, g) in [("grid", small), ("options", options_grid(alg, Tier::Quick)), ("wide", wide_grid(alg, Tier::Quick))] {
        let fr = far.clone();
        v.push(family(format!("{}-{:?}", name, alg), g.count() * fr.len() as u64, move |i, cx| {
            let mut i = i;
            let m = fr[pick(&mut i, fr.len())];
            let c = g.case(i);
            cx.sample = Some(format!("{} times {}", c.desc, m));
            until_end(alg, &c.spec, &c.opt, None, m, cx).map_err(|e| format!("{}: {}", c.desc, e))
        }));
        }
        let opts = crate::c_radau::cell_opts();
        for (ci, ce) in crate::c_radau::rcells(tier).into_iter().enumerate() {
            let (opts, fr) = (opts.clone(), far.clone());
            v.push(family(format!("cells{}-{:?}", ci, alg), ce.count() * (opts.len() * fr.len()) as u64, move |i, cx| {
                let mut i = i;
                let m = fr[pick(&mut i, fr.len())];
                let opt = opts[pick(&mut i, opts.len())].clone();
                let s = ce.spec(i);
                until_end(alg, &s, &opt, None, m, cx).map_err(|e| format!("{:?} {}: {}", alg, s.name, e))
            }));
        }
        // bad answers at every pair of calls
        let w = if tier == Tier::Quick { 30 } else { 60 };
        let bad = [f64::NAN, 0.0, 1e6, -1e30];
        let probs = [pb::lotka(), pb::vdp(0.1, 2.0), pb::logistic(), pb::relax()];
        let dims = [probs.len(), w, w, bad.len(), far.len()];
        let fr = far.clone();
        v.push(family(format!("bad-{:?}", alg), prod(&dims), move |i, cx| {
            let mut i = i;
            let p = &probs[pick(&mut i, dims[0])];
            let (x, y, z) = (pick(&mut i, w), pick(&mut i, w), bad[pick(&mut i, bad.len())]);
            let m = fr[pick(&mut i, fr.len())];
            if x > y {
                return Ok(());
            }
            let opt = Opt { jac: true, max_steps: Some(500), ..Opt::tol(1e-3, 1e-6) };
            let f = |k: Kind, c: usize, _t: f64, _u: &[f64], out: &mut [f64]| {
                if k == Kind::F && (c == x || c == y) {
                    out.fill(z);
                }
            };
            until_end(alg, p, &opt, Some(&f), m, cx).map_err(|e| format!("{:?} {} with answer {} at calls {} and {}: {}", alg, p.name, z, x, y, e))
        }));
    }
    (
        Meta {
            id: "C27",
            rule: "a case is a pair of integrations of one problem with the same options to two final times, compared step by step as long as the next step stays clear of the nearer one".into(),
            assumptions: vec!["clear means that 1.02 times the step (Radau5: times quot2/quot1) does not reach the final time".into()],
        },
        v,
    )
}

// ---------- C14 ----------

struct Short {
    name: &'static str,
    spec: Spec,
    opt: Opt,
    /// answers become NaN from this evaluation on
    nan_from: usize,
}
fn shorts() -> Vec<Short> {
    let s = |name, spec, opt| Short { name, spec, opt, nan_from: usize::MAX };
    let o = || Opt { dtstart: Some(0.2), ..Opt::tol(1e-3, 1e-5) };
    vec![
        s("success", pb::ho(1.0, 1.5), o()),
        s("backwards", pb::logistic().mirrored(), Opt { dtstart: Some(0.7), ..o() }),
        s("rejections", pb::bump().span(0.9, 1.02), Opt { dtstart: Some(0.1), ..o() }),
        s("limit", pb::lotka(), Opt { max_steps: Some(5), ..o() }),
        s("empty", pb::ho(1.0, 0.0).span(0.5, 0.5), o()),
        s("one step", pb::constant(1.0).span(0.0, 0.1), o()),
        Short { nan_from: 26, ..s("undefined", pb::ho(1.0, 1.5), o()) },
        s("blowup", pb::blowup().span(0.0, 1.5), Opt { max_steps: Some(4000), ..Opt::tol(1e-2, 1e-2) }),
    ]
}
/// Many steps, forced by dtmax.
fn longs() -> Vec<Short> {
    let s = |name, n: f64| Short { name, spec: pb::ho(1.0, 1.5), opt: Opt { dtmax: Some(1.5 / n), ..Opt::tol(1e-3, 1e-5) }, nan_from: usize::MAX };
    vec![s("1200 steps", 1200.0), s("12000 steps", 12000.0), s("70000 steps", 70000.0)]
}
#[derive(Clone, PartialEq, Debug)]
struct Snap {
    t: u64,
    dt: u64,
    u: Vec<u64>,
    st: St,
    code: Code,
    ts: usize,
}
fn snap<A: OdeAlgorithm>(it: &OdeIntegrator<(), A>) -> Snap {
    let o = observe(it, None, 0);
    Snap { t: o.t.to_bits(), dt: o.dt.to_bits(), u: o.u.iter().map(|x| x.to_bits()).collect(), st: o.st, code: o.code, ts: o.nsol }
}
/// Uniform access to both iterators.
trait Drive<'a, A: OdeAlgorithm> {
    fn it(&mut self) -> &mut OdeIntegrator<'a, (), A>;
    fn nxt(&mut self) -> Option<(f64, Array1<f64>)>;
}
impl<'a, A: OdeAlgorithm> Drive<'a, A> for OdeIntegratorIterator<'a, (), A> {
    fn it(&mut self) -> &mut OdeIntegrator<'a, (), A> {
        &mut self.integrator
    }
    fn nxt(&mut self) -> Option<(f64, Array1<f64>)> {
        self.next()
    }
}
impl<'a, A: OdeAlgorithm> Drive<'a, A> for OdeIntegratorMutIterator<'a, (), A> {
    fn it(&mut self) -> &mut OdeIntegrator<'a, (), A> {
        self.integrator
    }
    fn nxt(&mut self) -> Option<(f64, Array1<f64>)> {
        self.next()
    }
}
fn with<A: OdeAlgorithm + Copy2, R>(s: &Short, alg: A, run: impl for<'x> FnOnce(OdeIntegrator<'x, (), A>) -> R) -> R {
    let n = Cell::new(0usize);
    let dudt = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| {
        let uu: Vec<f64> = u.iter().cloned().collect();
        let mut out = vec![0.0; uu.len()];
        (s.spec.f)(&mut out, &uu, t);
        for k in 0..uu.len() {
            du[k] = if n.get() >= s.nan_from { f64::NAN } else { out[k] };
        }
        n.set(n.get() + 1);
        if n.get() > 2_000_000 {
            panic!("more than 2000000 right-hand-side evaluations");
        }
    };
    let dfdu = |mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| {
        let uu: Vec<f64> = u.iter().cloned().collect();
        let m = s.spec.evalj(&uu, t);
        for a in 0..uu.len() {
            for b in 0..uu.len() {
                df[[a, b]] = m[a * uu.len() + b];
            }
        }
    };
    let b = OdeIntegratorBuilder::default(&dudt, Array1::from(s.spec.u0.clone()), (s.spec.t0, s.spec.tf), alg, ()).dfdu(&dfdu);
    run(s.opt.apply(b).build())
}
pub trait Copy2 {}
impl Copy2 for DormandPrince5 {}
impl Copy2 for Radau5 {}

/// Snapshots after each step call of a plain step loop, and how many were accepted.
fn plain<A: OdeAlgorithm + Copy2>(s: &Short, alg: A) -> (Vec<Snap>, Vec<f64>, Vec<Vec<f64>>) {
    with(s, alg, |mut it| {
        let mut v = vec![snap(&it)];
        while v.len() < 100_000 && it.sol.retcode == OdeRetCode::Continue {
            it.step();
            v.push(snap(&it));
        }
        (v, it.sol.ts.clone(), it.sol.us.iter().map(|u| u.to_vec()).collect())
    })
}
fn exercise<'a, A: OdeAlgorithm + 'a>(d: &mut dyn Drive<'a, A>, refs: &(Vec<Snap>, Vec<f64>, Vec<Vec<f64>>), ops: &[usize]) -> CaseResult {
    let (r, ts, us) = refs;
    let last = r.len() - 1;
    let mut k = 0;
    // the given operations, then the rest by `next`, then every operation once more
    let mut todo: Vec<usize> = ops.to_vec();
    todo.extend(vec![1; r.len()]);
    todo.extend(&[0, 1, 2, 1, 0, 2, 2]);
    for (j, op) in todo.iter().enumerate() {
        let w = |s: String| Err(format!("operation {} ({}): {}", j, ["step", "next", "integrate"][*op], s));
        match op {
            0 => {
                let x = d.it().step();
                let want_more = k < last && r[k + 1].code == Code::Continue;
                k = (k + 1).min(last);
                let want = if want_more { Some(r[k].st.steps) } else { None };
                if x != want {
                    return w(format!("returned {:?}, expected {:?}", x, want));
                }
            }
            1 => {
                let x = d.nxt();
                let yields = k < last && r[k + 1].ts > r[k].ts;
                k = (k + 1).min(last);
                match x {
                    None if yields => return w(format!("yielded nothing for the accepted step to t={:e}", ts[r[k].ts - 1])),
                    Some((t, u)) => {
                        if !yields {
                            return w(format!("yielded t={:e} although nothing was accepted", t));
                        }
                        let i = r[k].ts - 1;
                        if t.to_bits() != ts[i].to_bits() || !same(&u.to_vec(), &us[i]) {
                            return w(format!("yielded t={:e} u={:?}, expected t={:e} u={:?}", t, u.to_vec(), ts[i], us[i]));
                        }
                    }
                    None => {}
                }
            }
            _ => {
                d.it().integrate();
                k = last;
            }
        }
        let g = snap(d.it());
        if g != r[k] {
            return w(format!("left {:?}, the step loop gives {:?}", g, r[k]));
        }
    }
    let it = d.it();
    let sts: Vec<f64> = it.sol.ts.clone();
    let sus: Vec<Vec<f64>> = it.sol.us.iter().map(|u| u.to_vec()).collect();
    if !same(&sts, ts) || sus.len() != us.len() || (0..us.len()).any(|i| !same(&sus[i], &us[i])) {
        return Err("the solutions differ".into());
    }
    // the solution's own iterators
    let mut n = 0;
    for (t, u) in (&mut it.sol).into_iter() {
        if n >= ts.len() || *t != ts[n] || !same(&u.to_vec(), &us[n]) {
            return Err(format!("entry {} of the borrowed solution iterator is wrong", n));
        }
        n += 1;
    }
    if n != ts.len() {
        return Err(format!("the borrowed solution iterator yields {} of {} entries", n, ts.len()));
    }
    let sol = std::mem::replace(&mut it.sol, OdeSolution::new());
    let mut n = 0;
    for (t, u) in sol.into_iter() {
        if n >= ts.len() || t != ts[n] || !same(&u.to_vec(), &us[n]) {
            return Err(format!("entry {} of the solution iterator is wrong", n));
        }
        n += 1;
    }
    if n != ts.len() {
        return Err(format!("the solution iterator yields {} of {} entries", n, ts.len()));
    }
    Ok(())
}
fn modes<A: OdeAlgorithm + Copy2>(s: &Short, mk: fn() -> A, mutable: bool, ops: &[usize], cx: &mut Cx) -> CaseResult {
    let refs = plain(s, mk());
    for x in &refs.0 {
        cx.state(hash_f64s(x.ts as u64, &[f64::from_bits(x.t), f64::from_bits(x.dt), ops.len() as f64]));
    }
    cx.transitions += (refs.0.len() + ops.len()) as u64;
    cx.traces += 1;
    cx.outcome(format!("{} {:?}", s.name, refs.0.last().unwrap().code));
    cx.sample = Some(format!("{} operations {:?}, {} steps", s.name, ops, refs.0.len() - 1));
    with(s, mk(), |it| {
        if mutable {
            // the borrowing iterator keeps the integrator borrowed for its whole life
            let b: &mut OdeIntegrator<(), A> = Box::leak(Box::new(it));
            let p = b as *mut OdeIntegrator<(), A>;
            let r = {
                let mut d = unsafe { &mut *p }.into_iter();
                exercise(&mut d, &refs, ops)
            };
            drop(unsafe { Box::from_raw(p) });
            r
        } else {
            let mut d = it.into_iter();
            exercise(&mut d, &refs, ops)
        }
    })
}
pub fn c14(tier: Tier) -> (Meta, Vec<Family>) {
    let l: u32 = if tier == Tier::Quick { 8 } else { 10 };
    let ns = shorts().len();
    let total = 3u64.pow(l);
    let k: u32 = if tier == Tier::Quick { 3 } else { 5 };
    let nl = longs().len();
    let long = family("long", 3u64.pow(k) * nl as u64 * 4, move |i, cx| {
        let mut i = i;
        let s = &longs()[pick(&mut i, nl)];
        let radau = pick(&mut i, 2) == 1;
        let mutable = pick(&mut i, 2) == 1;
        let ops: Vec<usize> = (0..k).map(|_| pick(&mut i, 3)).collect();
        let r = if radau { modes(s, || Radau5, mutable, &ops, cx) } else { modes(s, || DormandPrince5, mutable, &ops, cx) };
        r.map_err(|e| format!("{} {} ({} iterator) {:?}: {}", if radau { "Radau5" } else { "DormandPrince5" }, s.name, if mutable { "borrowing" } else { "consuming" }, ops, e))
    });
    let v = vec![long, family("operations", total * ns as u64 * 4, move |i, cx| {
        let mut i = i;
        let s = &shorts()[pick(&mut i, ns)];
        let radau = pick(&mut i, 2) == 1;
        let mutable = pick(&mut i, 2) == 1;
        let ops: Vec<usize> = (0..l).map(|_| pick(&mut i, 3)).collect();
        let r = if radau { modes(s, || Radau5, mutable, &ops, cx) } else { modes(s, || DormandPrince5, mutable, &ops, cx) };
        r.map_err(|e| format!("{} {} ({} iterator) {:?}: {}", if radau { "Radau5" } else { "DormandPrince5" }, s.name, if mutable { "borrowing" } else { "consuming" }, ops, e))
    })];
    (
        Meta {
            id: "C14",
            rule: format!("a case is one sequence of {} operations out of step / next / integrate on one integration, completed by next calls and operations after the end", l),
            assumptions: vec!["no callback (see C15)".into()],
        },
        v,
    )
}

// ---------- C16 ----------

struct Conf {
    spec: Spec,
    opt: Opt,
    alg: Alg,
}
/// The first two iteration matrices, for the steps h and h / 2, are singular.
fn twice_singular(h: f64) -> Spec {
    let mut s = pb::ho(1.0, 2.0);
    let (j, t0) = (s.jac.clone(), s.t0);
    s.name = "singular".into();
    s.jac = Arc::new(move |d, u, t| {
        if t == t0 {
            d.copy_from_slice(&[crate::rref::U1 / h, 0.0, 0.0, crate::rref::U1 / (0.5 * h)]);
        } else {
            j(d, u, t)
        }
    });
    s
}
fn confs() -> Vec<Conf> {
    let o = || Opt { dtstart: Some(0.3), ..Opt::tol(1e-4, 1e-6) };
    vec![
        Conf { spec: pb::ho(1.0, 2.0), opt: o(), alg: Alg::Dp5 },
        Conf { spec: pb::logistic().mirrored(), opt: Opt { dtstart: Some(1.0), ..o() }, alg: Alg::Dp5 },
        Conf { spec: pb::ho(2.0, 2.0), opt: o(), alg: Alg::Radau },
        Conf { spec: pb::kinetics(), opt: Opt { jac: false, dtstart: Some(0.8), ..o() }, alg: Alg::Radau },
        Conf { spec: pb::bump().span(0.9, 1.1), opt: o(), alg: Alg::Radau },
        Conf { spec: pb::cycle(3, 2.0), opt: Opt { max_stiff: Some(1), ..o() }, alg: Alg::Dp5 },
        Conf { spec: twice_singular(1.0 / 16.0), opt: Opt { dtstart: Some(1.0 / 16.0), ..o() }, alg: Alg::Radau },
    ]
}
trait Obj {
    fn step(&mut self) -> bool;
    fn look(&self) -> Snap;
}
impl<'a, A: OdeAlgorithm> Obj for OdeIntegrator<'a, (), A> {
    fn step(&mut self) -> bool {
        OdeIntegrator::step(self).is_some()
    }
    fn look(&self) -> Snap {
        snap(self)
    }
}
type Rhs<'a> = Box<dyn Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &()) + 'a>;
type Jac<'a> = Box<dyn Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &()) + 'a>;
fn rhs(c: &Conf) -> Rhs<'_> {
    Box::new(move |mut du, u, t, _| {
        let uu: Vec<f64> = u.iter().cloned().collect();
        let v = c.spec.eval(&uu, t);
        for k in 0..v.len() {
            du[k] = v[k];
        }
    })
}
fn jac(c: &Conf) -> Jac<'_> {
    Box::new(move |mut df, u, t, _| {
        let uu: Vec<f64> = u.iter().cloned().collect();
        let n = uu.len();
        let m = c.spec.evalj(&uu, t);
        for a in 0..n {
            for b in 0..n {
                df[[a, b]] = m[a * n + b];
            }
        }
    })
}
fn object<'a>(c: &'a Conf, f: &'a Rhs<'a>, j: &'a Jac<'a>) -> Box<dyn Obj + 'a> {
    macro_rules! mk {
        ($alg:expr) => {{
            let mut b = OdeIntegratorBuilder::default(f.as_ref(), Array1::from(c.spec.u0.clone()), (c.spec.t0, c.spec.tf), $alg, ());
            if c.opt.jac {
                b = b.dfdu(j.as_ref());
            }
            Box::new(c.opt.apply(b).build())
        }};
    }
    match c.alg {
        Alg::Dp5 => mk!(DormandPrince5),
        Alg::Radau => mk!(Radau5),
    }
}
fn alone(c: &Conf) -> Vec<Snap> {
    let (f, j) = (rhs(c), jac(c));
    let mut o = object(c, &f, &j);
    let mut v = vec![o.look()];
    while o.step() {
        v.push(o.look());
    }
    v.push(o.look());
    v
}
/// Run several integrators with the given schedule (then round robin), comparing every
/// intermediate state with the solo runs.
fn schedule(cs: &[&Conf], sched: &[usize], cx: &mut Cx) -> CaseResult {
    let solo: Vec<Vec<Snap>> = cs.iter().map(|c| alone(c)).collect();
    let fs: Vec<Rhs> = cs.iter().map(|c| rhs(c)).collect();
    let js: Vec<Jac> = cs.iter().map(|c| jac(c)).collect();
    let mut os: Vec<Box<dyn Obj + '_>> = (0..cs.len()).map(|k| object(cs[k], &fs[k], &js[k])).collect();
    let mut at = vec![0; cs.len()];
    let total: usize = solo.iter().map(|s| s.len()).sum();
    for j in 0..sched.len() + cs.len() * total {
        let k = if j < sched.len() { sched[j] } else { j % cs.len() };
        os[k].step();
        at[k] = (at[k] + 1).min(solo[k].len() - 1);
        for q in 0..cs.len() {
            let g = os[q].look();
            if g != solo[q][at[q]] {
                return Err(format!("after {} interleaved steps integrator {} ({}) is at {:?}, alone it is at {:?}", j + 1, q, cs[q].spec.name, g, solo[q][at[q]]));
            }
            cx.state(hash_f64s(q as u64, &[f64::from_bits(g.t), at[0] as f64, at[1] as f64, cs[0].spec.tf, cs[1].spec.tf]));
        }
        cx.transitions += 1;
        if (0..cs.len()).all(|k| at[k] + 1 == solo[k].len()) {
            break;
        }
    }
    cx.traces += 1;
    Ok(())
}
pub fn c16(tier: Tier) -> (Meta, Vec<Family>) {
    let q = tier == Tier::Quick;
    let nc = confs().len();
    let l2: u32 = if q { 10 } else { 14 };
    let l3: u32 = if q { 6 } else { 9 };
    let mut v = vec![];
    v.push(family("pairs", (nc * nc) as u64 * 2u64.pow(l2), move |i, cx| {
        let mut i = i;
        let c = confs();
        let (a, b) = (pick(&mut i, nc), pick(&mut i, nc));
        let s: Vec<usize> = (0..l2).map(|_| pick(&mut i, 2)).collect();
        cx.outcome(format!("{} with {}", a, b));
        cx.sample = Some(format!("{} and {} scheduled {:?}", c[a].spec.name, c[b].spec.name, s));
        schedule(&[&c[a], &c[b]], &s, cx).map_err(|e| format!("schedule {:?}: {}", s, e))
    }));
    v.push(family("triples", (nc * nc * nc) as u64 * 3u64.pow(l3), move |i, cx| {
        let mut i = i;
        let c = confs();
        let k: Vec<usize> = (0..3).map(|_| pick(&mut i, nc)).collect();
        let s: Vec<usize> = (0..l3).map(|_| pick(&mut i, 3)).collect();
        schedule(&[&c[k[0]], &c[k[1]], &c[k[2]]], &s, cx).map_err(|e| format!("integrators {:?} schedule {:?}: {}", k, s, e))
    }));
    // an integration inside a chosen evaluation of another (once and from there on)
    let calls = if q { 60 } else { 200 };
    v.push(family("nested", (nc * nc * calls * 2) as u64, move |i, cx| {
        let mut i = i;
        let c = confs();
        let (a, b) = (pick(&mut i, nc), pick(&mut i, nc));
        let at = pick(&mut i, calls);
        let persist = pick(&mut i, 2) == 1;
        let inner = alone(&c[b]);
        let outer = alone(&c[a]);
        let n = Cell::new(0usize);
        let bad = Cell::new(None);
        let cc = &c[a];
        let f: Rhs = Box::new(|mut du, u, t, _| {
            let k = n.get();
            n.set(k + 1);
            if k == at || persist && k > at && k % 7 == 0 {
                if alone(&c[b]) != inner {
                    bad.set(Some(k));
                }
            }
            let uu: Vec<f64> = u.iter().cloned().collect();
            let v = cc.spec.eval(&uu, t);
            for k in 0..v.len() {
                du[k] = v[k];
            }
        });
        let j = jac(cc);
        let mut o = object(cc, &f, &j);
        let mut k = 0;
        loop {
            if o.look() != outer[k] {
                return Err(format!("{} with {} integrated inside evaluation {}: differs after {} steps", cc.spec.name, c[b].spec.name, at, k));
            }
            cx.transitions += 1;
            cx.state(hash_f64s((a * 8 + b) as u64, &[f64::from_bits(outer[k].t), at as f64]));
            if k + 1 == outer.len() {
                break;
            }
            o.step();
            k += 1;
        }
        cx.traces += 1;
        drop(o);
        if let Some(k) = bad.get() {
            return Err(format!("{} integrated inside evaluation {} of {} differs from its solo run", c[b].spec.name, k, cc.spec.name));
        }
        cx.outcome(format!("nested {} in {}", b, a));
        Ok(())
    }));
    // repetition, in this thread and in parallel ones
    for alg in [Alg::Dp5, Alg::Radau] {
        let g = small_grid(alg, tier);
        v.push(family(format!("repeat-{:?}", alg), g.count(), move |i, cx| {
            let c = g.case(i);
            let a = Run::new(&c.spec, &c.opt).go(alg);
            note(&a, cx);
            let again = |w: &str, b: &Trace| -> CaseResult {
                let eq = same(&a.ts, &b.ts) && a.us.len() == b.us.len() && (0..a.us.len()).all(|k| same(&a.us[k], &b.us[k])) && a.last().st == b.last().st && a.code() == b.code();
                if eq { Ok(()) } else { Err(format!("{}: {} gives {} instead of {}", c.desc, w, b.brief(), a.brief())) }
            };
            again("a repetition", &Run::new(&c.spec, &c.opt).go(alg))?;
            let (spec, opt) = (c.spec.clone(), c.opt.clone());
            let r = std::thread::scope(|sc| {
                let h: Vec<_> = (0..2).map(|_| sc.spawn(|| Run::new(&spec, &opt).go(alg))).collect();
                h.into_iter().map(|h| h.join().map_err(|_| ())).collect::<Vec<_>>()
            });
            for x in r {
                match x {
                    Ok(b) => again("a parallel run", &b)?,
                    Err(_) => return Err(format!("{}: panic in a parallel run", c.desc)),
                }
            }
            cx.outcome("repeated");
            Ok(())
        }));
    }
    (
        Meta {
            id: "C16",
            rule: "a case is one schedule of the steps of two or three integrators, one position of a nested integration, or one repetition".into(),
            assumptions: vec!["step calls are atomic in the enumerated schedules; operating-system thread schedules are not enumerated (parallel repetitions only)".into()],
        },
        v,
    )
}

// ---------- C17 ----------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Val {
    F(f64),
    N(usize),
    B(bool),
}
struct Setter {
    name: &'static str,
    vals: [Val; NV],
}
/// values tried per option
const NV: usize = 5;
fn setters() -> Vec<Setter> {
    use Val::*;
    let f = |name, v: [f64; NV]| Setter { name, vals: v.map(F) };
    let n = |name, v: [usize; NV]| Setter { name, vals: v.map(N) };
    let b = |name, v: bool| Setter { name, vals: [B(v), B(!v), B(v), B(!v), B(v)] };
    vec![
        f("reltol", [1e-5, 2e-2, 1e-13, 1.0, 1e-3]), f("abstol", [1e-9, 3e-4, 0.0, 5.0, 1e-20]), b("dense", true), f("dtstart", [0.125, 2e-3, 1e-12, 40.0, -0.25]),
        f("dtmax", [0.3, 7.0, 1e-9, 1e9, 1e-3]), n("max_steps", [17, 4000, 1, 10_000_000, 100_001]), n("max_newt_iter", [5, 9, 1, 70, 2]), n("max_stiff", [3, 50, 0, 1, 5000]),
        b("modern_pred", false), f("safe", [0.8, 0.95, 0.01, 0.999, 0.9]), f("facr", [0.3, 4.0, 1e-3, 1.0, 50.0]), f("facl", [0.7, 6.0, 1e-3, 1.0, 50.0]),
        f("quot1", [0.9, 1.1, 0.2, 3.0, 1.0]), f("quot2", [1.5, 1.9, 0.4, 1.0, 30.0]), f("beta", [0.0, 0.08, 0.2, 0.01, 0.04]), f("fnewt", [1e-3, 2e-2, 1e-12, 0.9, 3e-5]),
        b("use_ext_col", false), b("hess", true),
    ]
}
fn set<'a, A: OdeAlgorithm>(b: OdeIntegratorBuilder<'a, (), A>, name: &str, v: Val) -> OdeIntegratorBuilder<'a, (), A> {
    let f = || if let Val::F(x) = v { x } else { unreachable!() };
    let n = || if let Val::N(x) = v { x } else { unreachable!() };
    let t = || if let Val::B(x) = v { x } else { unreachable!() };
    match name {
        "reltol" => b.reltol(f()),
        "abstol" => b.abstol(f()),
        "dense" => b.dense(t()),
        "dtstart" => b.dtstart(f()),
        "dtmax" => b.dtmax(f()),
        "max_steps" => b.max_steps(n()),
        "max_newt_iter" => b.max_newt_iter(n()),
        "max_stiff" => b.max_stiff(n()),
        "modern_pred" => b.modern_pred(t()),
        "safe" => b.safe(f()),
        "facr" => b.facr(f()),
        "facl" => b.facl(f()),
        "quot1" => b.quot1(f()),
        "quot2" => b.quot2(f()),
        "beta" => b.beta(f()),
        "fnewt" => b.fnewt(f()),
        "use_ext_col" => b.use_ext_col(t()),
        "hess" => b.hess(t()),
        _ => unreachable!(),
    }
}
fn get(o: &OdeIntegratorOpts, name: &str) -> Val {
    use Val::*;
    match name {
        "reltol" => F(o.reltol),
        "abstol" => F(o.abstol),
        "dense" => B(o.dense),
        "dtstart" => F(o.dtstart),
        "dtmax" => F(o.dtmax),
        "max_steps" => N(o.max_steps),
        "max_newt_iter" => N(o.max_newt_iter),
        "max_stiff" => N(o.max_stiff),
        "modern_pred" => B(o.modern_pred),
        "safe" => F(o.safe),
        "facr" => F(o.facr),
        "facl" => F(o.facl),
        "quot1" => F(o.quot1),
        "quot2" => F(o.quot2),
        "beta" => F(o.beta),
        "fnewt" => F(o.fnewt),
        "use_ext_col" => B(o.use_ext_col),
        "hess" => B(o.hess),
        _ => unreachable!(),
    }
}
/// Defaults of the two methods (those of the codes they are translated from).
fn default_of(alg: Alg, name: &str) -> Val {
    use Val::*;
    let r = alg == Alg::Radau;
    match name {
        "reltol" => F(1e-3),
        "abstol" => F(1e-7),
        "dense" => B(false),
        "dtstart" => F(1e-6),
        "dtmax" => F(f64::INFINITY),
        "max_steps" => N(100000),
        "max_newt_iter" => N(7),
        "max_stiff" => N(1000),
        "modern_pred" => B(true),
        "safe" => F(0.9),
        "facr" => F(if r { 0.125 } else { 10.0 }),
        "facl" => F(if r { 5.0 } else { 0.2 }),
        "quot1" => F(if r { 1.0 } else { 0.0 }),
        "quot2" => F(if r { 1.2 } else { 0.0 }),
        "beta" => F(if r { 0.0 } else { 0.04 }),
        "fnewt" => F(0.0),
        "use_ext_col" => B(true),
        "hess" => B(false),
        _ => unreachable!(),
    }
}
fn eqv(a: Val, b: Val) -> bool {
    match (a, b) {
        (Val::F(x), Val::F(y)) => x == y || (x - y).abs() <= 1e-13 * y.abs(),
        _ => a == b,
    }
}
fn options<A: OdeAlgorithm>(alg: Alg, mk: A, calls: &[(usize, usize)], cx: &mut Cx) -> CaseResult {
    let ss = setters();
    let dudt = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, _t: f64, _p: &()| du[0] = -u[0];
    let mut b = OdeIntegratorBuilder::default(&dudt, array![1.0], (0.0, 1.0), mk, ());
    let mut want: Vec<Val> = ss.iter().map(|s| default_of(alg, s.name)).collect();
    for (s, v) in calls {
        b = set(b, ss[*s].name, ss[*s].vals[*v]);
        want[*s] = ss[*s].vals[*v];
        cx.transitions += 1;
        for (k, s) in ss.iter().enumerate() {
            let g = get(&b.opts, s.name);
            if !eqv(g, want[k]) {
                return Err(format!("in the builder {} is {:?}, expected {:?}", s.name, g, want[k]));
            }
        }
    }
    let it = b.build();
    let f = |n: &str| match want[ss.iter().position(|s| s.name == n).unwrap()] {
        Val::F(x) => x,
        _ => unreachable!(),
    };
    let (rt, at, fnewt, dtstart, dtmax) = (f("reltol"), f("abstol"), f("fnewt"), f("dtstart"), f("dtmax"));
    if alg == Alg::Radau {
        let r2 = 0.1 * rt.powf(2.0 / 3.0);
        let i = |n: &str| ss.iter().position(|s| s.name == n).unwrap();
        want[i("reltol")] = Val::F(r2);
        want[i("abstol")] = Val::F(r2 * at / rt);
        if fnewt <= 0.0 {
            want[i("fnewt")] = Val::F((10.0 * f64::EPSILON / r2).max(0.03f64.min(r2.sqrt())));
        }
    }
    for (k, s) in ss.iter().enumerate() {
        let g = get(&it.opts, s.name);
        if !eqv(g, want[k]) {
            return Err(format!("in the integrator {} is {:?}, expected {:?}", s.name, g, want[k]));
        }
    }
    let h = dtstart.abs().min(dtmax);
    if (it.dt - h).abs() > 1e-13 * h {
        return Err(format!("the integrator starts with dt={:e}, expected {:e}", it.dt, h));
    }
    let theta = if alg == Alg::Radau { 0.001 } else { 0.0 };
    if it.opts.theta != theta {
        return Err(format!("theta is {}", it.opts.theta));
    }
    cx.traces += 1;
    let x: Vec<f64> = calls.iter().map(|(a, b)| (a * NV + b) as f64).collect();
    cx.state(hash_f64s(alg as u64, &x));
    Ok(())
}
pub fn c17(tier: Tier) -> (Meta, Vec<Family>) {
    let mut v = vec![];
    let n = setters().len() * NV;
    for l in 0..=3u32 {
        v.push(family(format!("setters{}", l), (n as u64).pow(l) * 2, move |i, cx| {
            let mut i = i;
            let alg = [Alg::Dp5, Alg::Radau][pick(&mut i, 2)];
            let calls: Vec<(usize, usize)> = (0..l).map(|_| { let x = pick(&mut i, n); (x / NV, x % NV) }).collect();
            let d = format!("{:?} {:?}", alg, calls.iter().map(|c| (setters()[c.0].name, setters()[c.0].vals[c.1])).collect::<Vec<_>>());
            cx.sample = Some(d.clone());
            cx.outcome(format!("{} calls", calls.len()));
            let r = match alg {
                Alg::Dp5 => options(alg, DormandPrince5, &calls, cx),
                Alg::Radau => options(alg, Radau5, &calls, cx),
            };
            r.map_err(|e| format!("{}: {}", d, e))
        }));
    }
    // every subset of the options that do not concern a method
    for alg in [Alg::Dp5, Alg::Radau] {
        let probs: Vec<Spec> = if tier == Tier::Quick {
            vec![pb::ho(1.0, 2.0), pb::vdp(0.1, 2.0), pb::kinetics().mirrored(), pb::relax()]
        } else {
            pb::all()
        };
        let np = probs.len();
        let ni: u32 = if alg == Alg::Dp5 { 10 } else { 5 };
        v.push(family(format!("irrelevant-{:?}", alg), np as u64 * 2u64.pow(ni), move |i, cx| {
            let mut i = i;
            let s = &probs[pick(&mut i, np)];
            let base = Opt { dtstart: Some(0.1), jac: alg == Alg::Radau, ..Opt::tol(1e-4, 1e-7) };
            let a = Run::new(s, &base).go(alg);
            let mut o = base.clone();
            let bits: Vec<bool> = (0..ni).map(|_| pick(&mut i, 2) == 1).collect();
            if bits[0] { o.dense = Some(true); }
            if bits[1] { o.max_stiff = Some(1); }
            if bits[2] { o.hess = Some(true); }
            if alg == Alg::Radau {
                if bits[3] { o.beta = Some(0.1); }
                if bits[4] { o.max_stiff = Some(0); }
            } else {
                if bits[3] { o.max_newt = Some(3); }
                if bits[4] { o.modern_pred = Some(false); }
                if bits[5] { o.quot1 = Some(0.5); }
                if bits[6] { o.quot2 = Some(5.0); }
                if bits[7] { o.fnewt = Some(0.5); }
                if bits[8] { o.use_ext_col = Some(false); }
                if bits[9] { o.jac = true; }
            }
            let b = Run::new(s, &o).go(alg);
            note(&b, cx);
            cx.sample = Some(format!("{:?} {} {:?}", alg, s.name, o));
            let ok = a.ts.len() == b.ts.len() && a.code() == b.code() && (0..a.ts.len()).all(|k| near(a.ts[k], b.ts[k]) && a.us[k].iter().zip(&b.us[k]).all(|(x, y)| near(*x, *y)));
            cx.outcome("same trajectory");
            if !ok {
                return Err(format!("{:?} {}: {:?} changes the solution from {} to {}", alg, s.name, o, a.brief(), b.brief()));
            }
            Ok(())
        }));
    }
    (
        Meta {
            id: "C17",
            rule: "a case is one sequence of up to three setter calls with its effect on every option before and after build, or one subset of irrelevant options with its trajectory".into(),
            assumptions: vec!["five values per option, on both sides of the defaults".into()],
        },
        v,
    )
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-8 * (a.abs() + b.abs()) + 1e-14
}
