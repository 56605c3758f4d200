//! C01, C02, C12, C13, C18, C26, C28: monitors over every execution of the bounded
//! environments (option grids, piecewise-constant right-hand sides, answers replaced at
//! every call index, right-hand sides that stop being defined, extreme time spans).
use crate::c_radau::{cell_opts, parse, rcells};
use crate::core::*;
use crate::dp5;
use crate::grid::*;
use crate::problems as pb;
use crate::util::*;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
pub enum Env {
    /// smooth, pure right-hand side
    Smooth,
    /// pure, bounded, discontinuous
    Bounded,
    /// anything may be answered
    Hostile,
}
pub type Mon = fn(&Spec, &Opt, Alg, Env, &Trace, &mut Cx) -> CaseResult;

fn states(tr: &Trace, cx: &mut Cx) {
    for o in &tr.obs {
        let mut v = vec![o.t, o.dt];
        v.extend(&o.u);
        cx.state(hash_f64s(o.st.fevals as u64, &v));
    }
    cx.transitions += tr.obs.len() as u64 - 1;
    cx.traces += 1;
}
fn judge(mon: Mon, s: &Spec, o: &Opt, alg: Alg, env: Env, tr: &Trace, desc: &str, cx: &mut Cx) -> CaseResult {
    states(tr, cx);
    cx.outcome(format!("{:?} {:?}", alg, tr.code()));
    cx.sample = Some(format!("{} -> {}", desc, tr.brief()));
    mon(s, o, alg, env, tr, cx).map_err(|e| format!("{}: {}", desc, e))
}

// ---------- faults by call index ----------

const KINDS: [&str; 10] = ["NaN", "NaN first component", "NaN last component", "inf", "-inf", "1e300", "spike", "negated", "zero", "-1e9"];
fn spoil(kind: usize, out: &mut [f64]) {
    let n = out.len();
    match kind {
        0 => out.fill(f64::NAN),
        1 => out[0] = f64::NAN,
        2 => out[n - 1] = f64::NAN,
        3 => out.fill(f64::INFINITY),
        4 => out.fill(f64::NEG_INFINITY),
        5 => out.fill(1e300),
        6 => out.iter_mut().for_each(|x| *x += 1e4),
        7 => out.iter_mut().for_each(|x| *x = -*x),
        8 => out.fill(0.0),
        _ => out[n - 1] = -1e9,
    }
}
struct Base {
    alg: Alg,
    spec: Spec,
    opt: Opt,
    nf: usize,
    nj: usize,
}
fn bases(tier: Tier) -> Vec<Base> {
    let mut v = vec![];
    let q = tier == Tier::Quick;
    for alg in [Alg::Dp5, Alg::Radau] {
        let mut ps = vec![pb::ho(1.0, 2.0), pb::logistic().span(0.0, 2.0), pb::kinetics().mirrored().span(0.0, -0.6), pb::bump().span(0.9, 1.1)];
        if !q {
            ps.extend(vec![pb::vdp(0.1, 2.0), pb::lotka().shifted(5.0), pb::cycle(3, 2.0).mirrored(), pb::tlin()]);
        }
        if alg == Alg::Radau {
            ps.push(pb::prothero3(1e4, 1.0));
        }
        for spec in ps {
            let mut os = vec![Opt { dtstart: Some(0.05), max_steps: Some(300), ..Opt::tol(1e-3, 1e-6) }];
            if alg == Alg::Radau {
                os.push(Opt { jac: false, ..os[0].clone() });
                os.push(Opt { max_newt: Some(3), use_ext_col: Some(false), dtstart: Some(0.5), ..os[0].clone() });
            } else {
                os.push(Opt { dtstart: Some(1.0), max_stiff: Some(1), ..os[0].clone() });
                os.push(Opt { beta: Some(0.0), dtmax: Some(0.2), ..os[0].clone() });
            }
            for opt in os {
                let tr = Run::new(&spec, &opt).step_calls(5000).go(alg);
                let nf = tr.calls.iter().filter(|c| c.kind == Kind::F).count().min(600);
                let nj = tr.calls.iter().filter(|c| c.kind == Kind::J).count().min(600);
                v.push(Base { alg, spec: spec.clone(), opt, nf, nj });
            }
        }
    }
    v
}
/// Offsets of the bases in a concatenated enumeration.
fn locate(sizes: &[u64], i: u64) -> (usize, u64) {
    let mut i = i;
    for (k, s) in sizes.iter().enumerate() {
        if i < *s {
            return (k, i);
        }
        i -= s;
    }
    unreachable!()
}
fn fault_families(mon: Mon, tier: Tier) -> Vec<Family> {
    let q = tier == Tier::Quick;
    let b = Arc::new(bases(tier));
    let mut v = vec![];
    // one call / all calls from an index / every second, every third call from an index
    let modes = 4;
    let sizes: Vec<u64> = b.iter().map(|x| (x.nf * KINDS.len() * modes) as u64).collect();
    let bb = b.clone();
    v.push(family("fault", sizes.iter().sum(), move |i, cx| {
        let (k, mut i) = locate(&sizes, i);
        let x = &bb[k];
        let at = pick(&mut i, x.nf);
        let kind = pick(&mut i, KINDS.len());
        let mode = pick(&mut i, modes);
        let f = |k: Kind, c: usize, _: f64, _: &[f64], out: &mut [f64]| {
            let hit = match mode {
                0 => c == at,
                1 => c >= at,
                2 => c >= at && (c - at) % 2 == 0,
                _ => c >= at && (c - at) % 3 == 0,
            };
            if k == Kind::F && hit {
                spoil(kind, out);
            }
        };
        let desc = format!("{:?} {} {:?}, answer {} at call {} mode {}", x.alg, x.spec.name, x.opt, KINDS[kind], at, mode);
        let tr = Run::new(&x.spec, &x.opt).fault(&f).go(x.alg);
        judge(mon, &x.spec, &x.opt, x.alg, Env::Hostile, &tr, &desc, cx)
    }));
    // two calls
    let pk: Vec<usize> = if q { vec![0, 5, 6, 8] } else { vec![0, 3, 4, 5, 6, 7, 8, 9] };
    let win = if q { 14 } else { 30 };
    let sel: Vec<usize> = (0..b.len()).filter(|k| !q || k % 3 == 0).collect();
    let sizes: Vec<u64> = sel.iter().map(|&k| (b[k].nf * win * pk.len() * pk.len()) as u64).collect();
    let bb = b.clone();
    v.push(family("fault2", sizes.iter().sum(), move |i, cx| {
        let (k, mut i) = locate(&sizes, i);
        let x = &bb[sel[k]];
        let at = pick(&mut i, x.nf);
        let at2 = at + 1 + pick(&mut i, win);
        let k1 = pk[pick(&mut i, pk.len())];
        let k2 = pk[pick(&mut i, pk.len())];
        let f = |k: Kind, c: usize, _: f64, _: &[f64], out: &mut [f64]| {
            if k == Kind::F && c == at {
                spoil(k1, out);
            }
            if k == Kind::F && c == at2 {
                spoil(k2, out);
            }
        };
        let desc = format!("{:?} {} {:?}, answers {} at call {} and {} at call {}", x.alg, x.spec.name, x.opt, KINDS[k1], at, KINDS[k2], at2);
        let tr = Run::new(&x.spec, &x.opt).fault(&f).go(x.alg);
        judge(mon, &x.spec, &x.opt, x.alg, Env::Hostile, &tr, &desc, cx)
    }));
    // Jacobian
    let sizes: Vec<u64> = b.iter().map(|x| (x.nj * KINDS.len() * 2) as u64).collect();
    let bb = b.clone();
    v.push(family("fault-jacobian", sizes.iter().sum(), move |i, cx| {
        let (k, mut i) = locate(&sizes, i);
        let x = &bb[k];
        let at = pick(&mut i, x.nj);
        let kind = pick(&mut i, KINDS.len());
        let mode = pick(&mut i, 2);
        let f = |k: Kind, c: usize, _: f64, _: &[f64], out: &mut [f64]| {
            if k == Kind::J && (c == at || mode == 1 && c > at) {
                spoil(kind, out);
            }
        };
        let desc = format!("{:?} {} {:?}, Jacobian {} at call {} mode {}", x.alg, x.spec.name, x.opt, KINDS[kind], at, mode);
        let tr = Run::new(&x.spec, &x.opt).fault(&f).go(x.alg);
        judge(mon, &x.spec, &x.opt, x.alg, Env::Hostile, &tr, &desc, cx)
    }));
    // right-hand sides undefined beyond a time or a value
    let cuts = if q { 40 } else { 400 };
    let bb = b;
    v.push(family("undefined", bb.len() as u64 * cuts as u64 * 3 * 4, move |i, cx| {
        let mut i = i;
        let x = &bb[pick(&mut i, bb.len())];
        let c = pick(&mut i, cuts);
        let kind = [0, 3, 5, 2][pick(&mut i, 4)];
        let mode = pick(&mut i, 3);
        let frac = (c as f64 + 0.5) / cuts as f64;
        let tc = x.spec.t0 + frac * (x.spec.tf - x.spec.t0);
        let uc = x.spec.u0[0] + (frac - 0.5) * 2.0;
        let up = uc > x.spec.u0[0];
        let f = |k: Kind, _: usize, t: f64, u: &[f64], out: &mut [f64]| {
            let hit = match mode {
                0 => (t - tc) * x.spec.dir() > 0.0,
                1 => (u[0] > uc) == up,
                _ => (t - tc) * x.spec.dir() > 0.0 && (t - tc).abs() < 0.01,
            };
            if k == Kind::F && hit {
                spoil(kind, out);
            }
        };
        let desc = format!("{:?} {} {:?}, {} beyond {} (mode {})", x.alg, x.spec.name, x.opt, KINDS[kind], if mode == 1 { uc } else { tc }, mode);
        let tr = Run::new(&x.spec, &x.opt).fault(&f).go(x.alg);
        judge(mon, &x.spec, &x.opt, x.alg, Env::Hostile, &tr, &desc, cx)
    }));
    v
}

/// Extreme start times, spans, first steps, tolerances.
fn scale_family(mon: Mon, tier: Tier) -> Family {
    let t0s = vec![0.0, 1.0, -1.0, 1e8, -3e15, 1e-300];
    let spans = vec![0.0, 1e-300, 1e-18, 1e-9, 1.0, 1e3];
    let starts = vec![None, Some(1e-20), Some(0.5), Some(1e10), Some(0.0), Some(-0.5)];
    let tols = vec![(1e-3, 1e-6), (1e-3, 0.0), (0.0, 1e-6), (0.0, 0.0), (1e-14, 1e-14), (1.0, 1e3)];
    let algs = [Alg::Dp5, Alg::Radau];
    let probs = || vec![pb::constant(1.0), pb::zero(), pb::logistic(), pb::blowup(), pb::sliding(), pb::ho(1.0, 1.0)];
    let maxs = if tier == Tier::Quick { vec![400] } else { vec![400, 20000] };
    let c = prod(&[t0s.len(), spans.len(), 2, starts.len(), tols.len(), 2, probs().len(), maxs.len(), 2]);
    family("scales", c, move |i, cx| {
        let mut i = i;
        let t0 = t0s[pick(&mut i, t0s.len())];
        let sp = spans[pick(&mut i, spans.len())];
        let dir = [1.0, -1.0][pick(&mut i, 2)];
        let ds = starts[pick(&mut i, starts.len())];
        let (rt, at) = tols[pick(&mut i, tols.len())];
        let alg = algs[pick(&mut i, 2)];
        let mut ps = probs();
        let p = pick(&mut i, ps.len());
        let s = ps.swap_remove(p);
        let mut o = Opt::tol(rt, at);
        o.max_steps = Some(maxs[pick(&mut i, maxs.len())]);
        o.jac = pick(&mut i, 2) == 0;
        o.dtstart = ds;
        let tf = t0 + dir * sp;
        let s = s.span(t0, tf);
        let tr = Run::new(&s, &o).step_calls(50_000).go(alg);
        let desc = format!("{:?} {} from {:e} to {:e} {:?}", alg, s.name, t0, tf, o);
        // short of these extremes the integration has to succeed
        let start = match ds {
            None => sp <= 1.0,
            Some(h) => h >= 0.5 || h > 0.0 && t0 == 0.0,
        };
        let easy = ![3, 4].contains(&p) && (rt, at) == (1e-3, 1e-6) && sp <= 1.0 && (t0 == 0.0 || t0.abs() == 1.0 && sp == 1.0);
        let env = if easy && start { Env::Smooth } else { Env::Hostile };
        judge(mon, &s, &o, alg, env, &tr, &desc, cx)
    })
}

/// Times of few representable values: a retried step may be rounded onto the final time.
fn brink_family(mon: Mon, tier: Tier) -> Family {
    let t0s = [2f64.powi(52), -(2f64.powi(52)), 2f64.powi(40)];
    let spans: Vec<f64> = if tier == Tier::Quick { vec![1.0, 3.0, 12.0, 25.0, 35.0, 36.0, 40.0, 70.0] } else { (1..90).map(|x| x as f64).collect() };
    let amps = if tier == Tier::Quick { 140 } else { 480 };
    let step = if tier == Tier::Quick { 1.03f64 } else { 1.03 };
    let safes = [None, Some(0.99), Some(0.9999)];
    let starts = [2.0, 0.3, 0.1];
    let c = prod(&[t0s.len(), spans.len(), 2, amps, safes.len(), 2, 3, starts.len()]);
    family("brink", c, move |i, cx| {
        let mut i = i;
        let t0 = t0s[pick(&mut i, t0s.len())];
        let ulp = t0.abs() * f64::EPSILON;
        let sp = spans[pick(&mut i, spans.len())] * ulp;
        let dir = [1.0, -1.0][pick(&mut i, 2)];
        let amp = (if tier == Tier::Quick { 3e-2 } else { 1e-6 }) * step.powi(pick(&mut i, amps) as i32) / sp;
        let safe = safes[pick(&mut i, safes.len())];
        let alg = [Alg::Dp5, Alg::Radau][pick(&mut i, 2)];
        let shape = pick(&mut i, 3);
        let start = starts[pick(&mut i, starts.len())] * sp;
        let mut s = pb::zero();
        s.name = format!("pulse{} {:e}", shape, amp);
        s.f = Arc::new(move |d, _, t| {
            let x = (t - t0).abs() / sp;
            d[0] = amp * match shape {
                0 => x.powi(6),
                1 => if x > 0.6 { 1.0 } else { 0.0 },
                _ => (9.0 * x).cos(),
            }
        });
        let s = s.span(t0, t0 + dir * sp);
        let o = Opt { dtstart: Some(start), safe, max_steps: Some(300), ..Opt::tol(1e-3, 1e-3) };
        let tr = Run::new(&s, &o).step_calls(1000).go(alg);
        let desc = format!("{:?} {} from {:e} over {:e} {:?}", alg, s.name, t0, dir * sp, o);
        judge(mon, &s, &o, alg, Env::Hostile, &tr, &desc, cx)
    })
}

pub fn environments(mon: Mon, tier: Tier, hostile: bool) -> Vec<Family> {
    let mut v = vec![];
    for alg in [Alg::Dp5, Alg::Radau] {
        // 70000 steps: more than fit into sixteen bits
        let far = Grid { probs: vec![pb::logistic()], mirror: vec![false], dtmaxs: vec![Some(1.0 / 70000.0)], ..long_grid(alg, tier) };
        for (name, g) in [("grid", std_grid(alg, tier)), ("long", long_grid(alg, tier)), ("tiny", tiny_grid(alg, tier)), ("wide", wide_grid(alg, tier)), ("tight", tight_grid(alg, tier)), ("options", options_grid(alg, tier)), ("far", far)] {
            v.push(family(format!("{}-{:?}", name, alg), g.count(), move |i, cx| {
                let c = g.case(i);
                let tr = Run::new(&c.spec, &c.opt).args().go(alg);
                judge(mon, &c.spec, &c.opt, alg, Env::Smooth, &tr, &c.desc, cx)
            }));
        }
        for (ci, ce) in rcells(tier).into_iter().enumerate() {
            let opts = if alg == Alg::Radau {
                cell_opts()
            } else {
                vec![Opt { dtstart: Some(0.3), ..Opt::tol(1e-3, 1e-3) }, Opt { dtstart: Some(0.05), dtmax: Some(0.11), ..Opt::tol(1e-2, 1e-2) }]
            };
            v.push(family(format!("cells{}-{:?}", ci, alg), ce.count() * opts.len() as u64 * 2, move |i, cx| {
                let mut i = i;
                let opt = &opts[pick(&mut i, opts.len())];
                let back = pick(&mut i, 2) == 1;
                let mut s = ce.spec(i);
                if back {
                    s = s.mirrored();
                }
                let tr = Run::new(&s, opt).args().go(alg);
                let env = if s.name.contains("NaN") { Env::Hostile } else { Env::Bounded };
                judge(mon, &s, opt, alg, env, &tr, &format!("{:?} {} {:?}", alg, s.name, opt), cx)
            }));
        }
    }
    if hostile {
        v.extend(fault_families(mon, tier));
        v.push(scale_family(mon, tier));
        v.push(brink_family(mon, tier));
    }
    v
}

// ---------- monitors ----------

fn slack(tr: &Trace, s: &Spec) -> f64 {
    let _ = tr;
    8.0 * f64::EPSILON * s.t0.abs().max(s.tf.abs())
}

fn c01(s: &Spec, _: &Opt, _: Alg, env: Env, tr: &Trace, cx: &mut Cx) -> CaseResult {
    if tr.cut {
        return Err(format!("still running after {} steps", tr.obs.len() - 1));
    }
    let l = tr.last();
    if l.code == Code::Continue {
        return Err("no final return code".into());
    }
    let at_end = (l.t - s.tf).abs() <= slack(tr, s);
    if l.code == Code::Success && !at_end || l.code != Code::Success && l.t == s.tf {
        return Err(format!("ended with {:?} at t={:e}, final time {:e}", l.code, l.t, s.tf));
    }
    // Robertson's equation has no solution from states with u[1] < 0, which a coarse absolute
    // tolerance allows: it blows up
    let blown = s.name.starts_with("robertson") && l.u.iter().any(|x| x.abs() > 100.0);
    if env == Env::Smooth && l.code != Code::Success && !blown {
        return Err(format!("did not succeed: {:?}", l.code));
    }
    if s.t0 == s.tf && tr.ts.len() != 1 {
        return Err("recorded steps over an empty time span".into());
    }
    for k in 1..tr.obs.len() {
        let (a, b) = (&tr.obs[k - 1], &tr.obs[k]);
        if a.code != Code::Continue && (b.nsol != a.nsol || b.code != a.code) {
            return Err(format!("a step after the end changed the solution ({:?} -> {:?})", a.code, b.code));
        }
        if b.nsol == a.nsol {
            if b.t != a.t || !same(&b.u, &a.u) {
                return Err(format!("step {} accepted nothing but moved from t={:e} u={:?} to t={:e} u={:?}", k, a.t, a.u, b.t, b.u));
            }
            if a.code == Code::Continue && b.code == Code::Continue {
                return Err(format!("step {} neither advanced nor ended the integration", k));
            }
        }
    }
    if l.code != Code::Success && (l.t != *tr.ts.last().unwrap() || !same(&l.u, tr.us.last().unwrap())) {
        return Err(format!("after the failure the integrator is not at its last accepted state (t={:e})", l.t));
    }
    if let Some(k) = tr.us.iter().position(|u| u.iter().any(|x| !x.is_finite())) {
        return Err(format!("accepted state {} is {:?}", k, tr.us[k]));
    }
    if tr.ts.iter().any(|x| !x.is_finite()) {
        return Err("recorded a time that is not finite".into());
    }
    let _ = cx;
    Ok(())
}

fn c02(s: &Spec, _: &Opt, _: Alg, _: Env, tr: &Trace, cx: &mut Cx) -> CaseResult {
    if tr.ts.first() != Some(&s.t0) {
        return Err(format!("the first recorded time is {:?}", tr.ts.first()));
    }
    let d = s.dir();
    for w in tr.ts.windows(2) {
        if !((w[1] - w[0]) * d > 0.0) {
            return Err(format!("recorded time {:e} follows {:e}", w[1], w[0]));
        }
    }
    for t in &tr.ts {
        if !((t - s.tf) * d <= slack(tr, s)) {
            return Err(format!("recorded time {:e} lies beyond the final time {:e}", t, s.tf));
        }
    }
    let l = *tr.ts.last().unwrap();
    if tr.code() == Code::Success && !((l - s.tf).abs() <= slack(tr, s)) {
        return Err(format!("succeeded with last recorded time {:e} instead of {:e}", l, s.tf));
    }
    if tr.tdir != d && s.t0 != s.tf {
        return Err(format!("direction {}", tr.tdir));
    }
    cx.metric("max steps", tr.ts.len() as f64);
    Ok(())
}

fn c13(s: &Spec, _: &Opt, _: Alg, _: Env, tr: &Trace, _: &mut Cx) -> CaseResult {
    if tr.ts.len() != tr.us.len() {
        return Err(format!("{} times but {} states", tr.ts.len(), tr.us.len()));
    }
    let o = &tr.obs[0];
    if o.nsol != 1 || tr.ts[0] != s.t0 || !same(&tr.us[0], &s.u0) || o.t != s.t0 || !same(&o.u, &s.u0) {
        return Err(format!("initial condition recorded as t={:e} u={:?}", tr.ts[0], tr.us[0]));
    }
    for k in 1..tr.obs.len() {
        let (a, b) = (&tr.obs[k - 1], &tr.obs[k]);
        if b.nsol == a.nsol {
            if a.t != b.t || !same(&a.u, &b.u) {
                return Err(format!("step {} appended nothing but moved from t={:e} to t={:e}", k, a.t, b.t));
            }
            continue;
        }
        if b.nsol != a.nsol + 1 {
            return Err(format!("step {} appended {} entries", k, b.nsol - a.nsol));
        }
        if tr.ts[b.nsol - 1] != b.t || !same(&tr.us[b.nsol - 1], &b.u) {
            return Err(format!("step {} recorded t={:e} u={:?} but the integrator is at t={:e} u={:?}", k, tr.ts[b.nsol - 1], tr.us[b.nsol - 1], b.t, b.u));
        }
        if b.tprev != a.t || !same(&b.uprev, &a.u) {
            return Err(format!("step {}: previous t={:e} u={:?} but the step started at t={:e} u={:?}", k, b.tprev, b.uprev, a.t, a.u));
        }
        let e = 4.0 * f64::EPSILON * (a.t.abs() + b.t.abs()) + 1e-13 * b.dtprev.abs();
        if !((b.t - b.tprev - b.dtprev).abs() <= e) {
            return Err(format!("step {} from {:e} to {:e} has dtprev={:e}", k, b.tprev, b.t, b.dtprev));
        }
    }
    // the record is not rewritten later
    if let Some(k) = (1..tr.obs.len()).find(|&k| tr.obs[k].nsol > tr.obs[k - 1].nsol && !same(&tr.us[tr.obs[k].nsol - 1], &tr.obs[k].u)) {
        return Err(format!("entry of step {} changed afterwards", k));
    }
    Ok(())
}

fn c18(s: &Spec, o: &Opt, alg: Alg, env: Env, tr: &Trace, cx: &mut Cx) -> CaseResult {
    let d = s.dir();
    let e = slack(tr, s);
    let in_span = |t: f64| (t - s.t0) * d >= -e && (t - s.tf) * d <= e;
    if let Some(c) = tr.calls.iter().find(|c| !in_span(c.t)) {
        return Err(format!("{:?} evaluated at t={:e} outside the time span", c.kind, c.t));
    }
    if let Some(c) = tr.calls[..tr.obs[0].ncalls].iter().find(|c| c.t != s.t0) {
        return Err(format!("{:?} evaluated at t={:e} before the first step", c.kind, c.t));
    }
    let stretch = if alg == Alg::Dp5 { 1.01 } else { 1f64.max(1.0 / o.quot1.unwrap_or(1.0)).max(1.0001) };
    for k in 1..tr.obs.len() {
        let (a, b) = (&tr.obs[k - 1], &tr.obs[k]);
        let acc = b.nsol > a.nsol;
        // no attempt of this step is longer than the one it starts with
        let far = (stretch * a.dt.abs()).min((s.tf - a.t).abs());
        let te = 4.0 * f64::EPSILON * (a.t.abs() + b.t.abs());
        for c in &tr.calls[a.ncalls..b.ncalls] {
            let x = (c.t - a.t) * d;
            if !(x >= -te && x <= far * (1.0 + 1e-12) + te) {
                return Err(format!("step {} from t={:e} with dt={:e}: {:?} evaluated at t={:e}", k, a.t, a.dt, c.kind, c.t));
            }
            if c.kind == Kind::J {
                let here = c.t == a.t && same(&c.u, &a.u);
                let there = acc && c.t == b.t && same(&c.u, &b.u);
                if !here && !there {
                    return Err(format!("step {} from t={:e} u={:?}: Jacobian evaluated at t={:e} u={:?}", k, a.t, a.u, c.t, c.u));
                }
            }
        }
        // the accepted attempt: its evaluations lie inside the step
        if acc && alg == Alg::Dp5 {
            let fc = tr.fcalls(k);
            if fc.len() % 6 == 0 && !fc.is_empty() {
                for c in &fc[fc.len() - 6..] {
                    if !((c.t - b.t) * d <= te) {
                        return Err(format!("accepted step {} ends at t={:e} but was evaluated at t={:e}", k, b.t, c.t));
                    }
                }
            }
        }
        if acc && alg == Alg::Radau && o.jac {
            if let Some(v) = parse(tr, k) {
                if let Some(q) = v.last().filter(|q| q.hrel < 1e-6) {
                    for c in &tr.calls[q.from..=q.to] {
                        if c.kind == Kind::F && !((c.t - b.t) * d <= te) {
                            return Err(format!("accepted step {} ends at t={:e} but was evaluated at t={:e}", k, b.t, c.t));
                        }
                    }
                }
            }
        }
        // the slope for the next step is taken at the new point
        if acc && alg == Alg::Radau && o.jac && b.code == Code::Continue {
            if let Some(c) = tr.fcalls(k).last() {
                if (c.t - b.t).abs() > te || !c.u.is_empty() && !close(&c.u, &b.u) {
                    return Err(format!("step {}: the slope at the new point was evaluated at t={:e} u={:?}, the new point is t={:e} u={:?}", k, c.t, c.u, b.t, b.u));
                }
            }
        }
        // refreshed derivative and final stage are taken at the new point
        if acc && env == Env::Smooth && alg == Alg::Dp5 {
            if let Some(c) = tr.fcalls(k).last() {
                if !c.u.is_empty() && ((c.t - b.t).abs() > te || !close(&c.u, &b.u)) {
                    return Err(format!("step {}: the derivative at the new point was evaluated at t={:e} u={:?}, the new point is t={:e} u={:?}", k, c.t, c.u, b.t, b.u));
                }
            }
        }
    }
    if env != Env::Hostile {
        if let Some(i) = tr.calls.iter().position(|c| !c.finite_arg) {
            return Err(format!("evaluation {} at a state that is not finite (t={:e})", i, tr.calls[i].t));
        }
    }
    cx.metric("evaluations", tr.calls.len() as f64);
    Ok(())
}
fn close(a: &[f64], b: &[f64]) -> bool {
    a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-12 * (x.abs() + y.abs()))
}

fn c12(s: &Spec, o: &Opt, alg: Alg, _: Env, tr: &Trace, cx: &mut Cx) -> CaseResult {
    let mut rejects = 0;
    let mut rejects_known = true;
    let (mut seen, mut nf) = (0, 0);
    for (k, b) in tr.obs.iter().enumerate() {
        nf += tr.calls[seen..b.ncalls].iter().filter(|c| c.kind == Kind::F).count();
        seen = b.ncalls;
        let nj = b.ncalls - nf;
        let extra = if o.jac || alg == Alg::Dp5 { 0 } else { (s.n + 1) * b.st.jevals };
        if b.st.fevals + extra != nf {
            return Err(format!("after step {}: {} evaluations were made, function_evals={} and jacobian_evals={}", k, nf, b.st.fevals, b.st.jevals));
        }
        if (o.jac || alg == Alg::Dp5) && b.st.jevals != nj {
            return Err(format!("after step {}: {} Jacobian evaluations, jacobian_evals={}", k, nj, b.st.jevals));
        }
        if b.st.accepts != b.nsol - 1 {
            return Err(format!("after step {}: accepts={} with {} recorded steps", k, b.st.accepts, b.nsol - 1));
        }
        if k == 0 {
            continue;
        }
        let a = &tr.obs[k - 1];
        let acc = b.nsol > a.nsol;
        if alg == Alg::Dp5 {
            if b.st.steps != b.st.accepts {
                return Err(format!("after step {}: steps={} accepts={}", k, b.st.steps, b.st.accepts));
            }
            match dp5::attempts(tr, k) {
                Some(v) => {
                    if a.st.accepts >= 1 {
                        rejects += v.len() - acc as usize;
                    }
                }
                None => rejects_known = false,
            }
            if rejects_known && b.st.rejects != rejects {
                return Err(format!("after step {}: rejects={}, {} attempts were rejected after the first accepted step", k, b.st.rejects, rejects));
            }
        } else if o.jac {
            if let Some(v) = parse(tr, k) {
                // groups that are not separable by their step are merged; a lower bound on attempts
                let newt: usize = v.iter().map(|x| x.iters).sum();
                if b.st.solves - a.st.solves != newt {
                    return Err(format!("step {}: linear_solves grew by {}, {} Newton iterations were evaluated", k, b.st.solves - a.st.solves, newt));
                }
                if b.st.steps < a.st.steps + v.len() || b.st.dec < a.st.dec {
                    return Err(format!("step {}: steps grew by {} over {} attempts", k, b.st.steps - a.st.steps, v.len()));
                }
            }
        }
        cx.metric("rejects", b.st.rejects as f64);
    }
    Ok(())
}

fn c26(s: &Spec, o: &Opt, alg: Alg, env: Env, tr: &Trace, cx: &mut Cx) -> CaseResult {
    let span = (s.tf - s.t0).abs();
    let dtmax = o.dtmax.unwrap_or(f64::INFINITY);
    let stretch = if alg == Alg::Dp5 { 1.01 } else { 1.0001 };
    for k in 1..tr.obs.len() {
        let a = &tr.obs[k - 1];
        let hs: Vec<(f64, f64)> = if alg == Alg::Dp5 {
            match dp5::attempts(tr, k) {
                Some(v) => v.iter().map(|x| (x.h, x.hrel)).collect(),
                None => return Ok(()),
            }
        } else if o.jac {
            match parse(tr, k) {
                Some(v) => v.iter().map(|x| (x.h, x.hrel)).collect(),
                None => return Ok(()),
            }
        } else {
            // the evaluations of a difference Jacobian are mixed in: use the farthest one
            let te = tr.fcalls(k).iter().map(|c| c.t).fold(a.t, |m, x| if (x - m) * tr.tdir > 0.0 { x } else { m });
            vec![(te - a.t, 4.0 * f64::EPSILON * (a.t.abs() + te.abs()) / (te - a.t).abs())]
        };
        for (j, (h, hrel)) in hs.iter().enumerate() {
            let tol = 1e-9 + 4.0 * hrel;
            if !(tol < 0.1) {
                continue;
            }
            if !(h * s.dir() > 0.0) {
                return Err(format!("step {} attempt {} has h={:e}", k, j, h));
            }
            // (a spoilt first Jacobian may be singular: that attempt makes no evaluation)
            if k == 1 && j == 0 && !(alg == Alg::Radau && env == Env::Hostile) {
                let h0 = o.dtstart.unwrap_or(1e-6).abs().min(dtmax);
                let want = if h0 * stretch > span { span } else { h0 };
                let either = (h0 * stretch - span).abs() <= 1e-9 * span;
                let ok = (h.abs() - want).abs() <= tol * want || either && ((h.abs() - span).abs() <= tol * span || (h.abs() - h0).abs() <= tol * h0);
                if !ok {
                    return Err(format!("the first attempted step is {:e}, expected {:e} (dtstart={:?} dtmax={:?} span={:e})", h, want, o.dtstart, o.dtmax, span));
                }
                cx.outcome(if want == span { "first: span" } else if h0 == dtmax { "first: dtmax" } else { "first: dtstart" });
            }
            let to_end = (a.t + h - s.tf).abs() <= 8.0 * f64::EPSILON * (a.t.abs() + s.tf.abs());
            let lim = if to_end { dtmax * if alg == Alg::Dp5 { 1.01 } else { 1f64.max(1.0 / tr.opts.quot1).max(1.0001) } } else { dtmax };
            if !(h.abs() <= lim * (1.0 + tol)) {
                return Err(format!("step {} attempt {} from t={:e} has h={:e} although dtmax={:e}", k, j, a.t, h, dtmax));
            }
        }
    }
    Ok(())
}

/// What the calls of one step call were made for.
#[derive(Default, Debug)]
struct Cost {
    attempts: usize,
    /// most Newton iterations in one attempt
    iters: usize,
    /// Jacobians beyond one after each attempt that was not accepted
    excess: usize,
    unresolved: bool,
}
fn near(x: f64, t: f64, h: f64, c: f64) -> bool {
    (x - (t + c * h)).abs() <= 1e-9 * h.abs() + 8.0 * f64::EPSILON * (t.abs() + x.abs())
}
fn resolved(t: f64, h: f64) -> bool {
    h.is_finite() && h.abs() > 1e6 * f64::EPSILON * t.abs()
}
/// Account for every evaluation of one DormandPrince5 step call.
fn dp5_cost(t: f64, calls: &[Call]) -> Result<Cost, String> {
    let mut c = Cost::default();
    if calls.len() % 6 != 0 || calls.iter().any(|x| x.kind == Kind::J) {
        return Err(format!("{} evaluations, which is no multiple of six", calls.len()));
    }
    let mut before = f64::NAN;
    for g in calls.chunks(6) {
        let h = g[5].t - t;
        c.attempts += 1;
        if !resolved(t, h) {
            c.unresolved = true;
            continue;
        }
        for (x, node) in g.iter().zip([0.2, 0.3, 0.8, 8.0 / 9.0, 1.0, 1.0]) {
            if !near(x.t, t, h, node) {
                return Err(format!("an attempt with h={:e} evaluated at t={:e}", h, x.t));
            }
        }
        if h == before {
            return Err(format!("two attempts with h={:e}", h));
        }
        before = h;
    }
    Ok(c)
}
/// Account for every evaluation of one Radau5 step call.
fn radau_cost(a: &Obs, b: &Obs, n: usize, jac: bool, calls: &[Call]) -> Result<Cost, String> {
    let acc = b.nsol > a.nsol;
    let nodes = [(4.0 - 6f64.sqrt()) / 10.0, (4.0 + 6f64.sqrt()) / 10.0, 1.0];
    let triple = |i: usize| -> Option<f64> {
        let g = calls.get(i..i + 3)?;
        let h = g[2].t - a.t;
        (h != 0.0 && g.iter().zip(nodes).all(|(x, c)| x.kind == Kind::F && near(x.t, a.t, h, c))).then_some(h)
    };
    let mut c = Cost::default();
    let mut i = 0;
    // evaluations between two attempts: slopes and Jacobians, here and at the new point
    let rest = |i: &mut usize| {
        let (mut f, mut j, mut fnew, mut jnew) = (0, 0, 0, 0);
        while *i < calls.len() && triple(*i).is_none() {
            let x = &calls[*i];
            match (x.kind, x.t == a.t) {
                (Kind::F, true) => f += 1,
                (Kind::J, true) => j += 1,
                (Kind::F, false) => fnew += 1,
                (Kind::J, false) => jnew += 1,
            }
            if x.t != a.t && !(acc && x.t == b.t) {
                return Err(format!("{:?} evaluated at t={:e}, which is neither the start nor the end nor a stage", x.kind, x.t));
            }
            *i += 1;
        }
        Ok((f, j, fnew, jnew))
    };
    // (filter, Jacobians) out of the evaluations at the start of the step
    let split = |f: usize, j: usize, filter: usize| -> Result<(usize, usize), String> {
        if jac {
            if f > filter {
                return Err(format!("{} evaluations at the start of the step, at most {} needed", f, filter));
            }
            Ok((f, j))
        } else {
            if f % (n + 1) > filter {
                return Err(format!("{} evaluations at the start of the step, which are no whole number of Jacobians", f));
            }
            Ok((f % (n + 1), f / (n + 1)))
        }
    };
    let (f, j, fnew, jnew) = rest(&mut i)?;
    if fnew + jnew > 0 {
        return Err("evaluation at the new point before the first attempt".into());
    }
    c.excess += split(f, j, 0)?.1;
    while i < calls.len() {
        let h = triple(i).unwrap();
        let mut iters = 0;
        while triple(i) == Some(h) {
            iters += 1;
            i += 3;
        }
        c.attempts += 1;
        c.iters = c.iters.max(iters);
        if !resolved(a.t, h) {
            c.unresolved = true;
        }
        let (f, j, fnew, jnew) = rest(&mut i)?;
        let fin = acc && i == calls.len();
        let (_, js) = split(f, j, 1)?;
        let allowed = if fin { 0 } else { 1 };
        c.excess += js.saturating_sub(allowed);
        if fin && js > 0 {
            return Err(format!("{} Jacobians at the start of the step after the accepted attempt", js));
        }
        let (slopes, jacs) = if jac {
            (fnew, jnew)
        } else {
            (fnew % (n + 1), fnew / (n + 1) + jnew)
        };
        let most = if fin && b.code != Code::Success { 1 } else { 0 };
        if slopes > most || jacs > most {
            return Err(format!("{} slopes and {} Jacobians at the new point, at most {} of each needed", slopes, jacs, most));
        }
    }
    Ok(c)
}
fn c28(s: &Spec, o: &Opt, alg: Alg, _: Env, tr: &Trace, cx: &mut Cx) -> CaseResult {
    let nf = tr.fcalls(0).len();
    let nj = tr.obs[0].ncalls - nf;
    let (ef, ej) = match (alg, o.jac) {
        (Alg::Dp5, _) => (1, 0),
        (Alg::Radau, true) => (1, 1),
        (Alg::Radau, false) => (s.n + 2, 0),
    };
    if nf > ef || nj > ej {
        return Err(format!("{} evaluations and {} Jacobians before the first step", nf, nj));
    }
    let mut excess = 0;
    let mut most = 0;
    for k in 1..tr.obs.len() {
        let (a, b) = (&tr.obs[k - 1], &tr.obs[k]);
        let calls = &tr.calls[a.ncalls..b.ncalls];
        let c = if alg == Alg::Dp5 { dp5_cost(a.t, calls) } else { radau_cost(a, b, s.n, o.jac, calls) };
        let c = match c {
            Ok(c) => c,
            Err(e) => {
                // steps near the resolution of time cannot be told apart
                if calls.iter().any(|x| !resolved(a.t, x.t - a.t) && x.t != a.t) {
                    cx.outcome("unresolved step");
                    continue;
                }
                return Err(format!("step {} from t={:e} to t={:e}: {}", k, a.t, b.t, e));
            }
        };
        if c.unresolved {
            cx.outcome("unresolved step");
            continue;
        }
        if alg == Alg::Radau && c.iters > tr.opts.max_newt {
            return Err(format!("step {} from t={:e}: {} Newton iterations in one attempt", k, a.t, c.iters));
        }
        excess += c.excess;
        most = most.max(c.attempts);
    }
    // one more Jacobian after each singular matrix, of which there are at most five
    if excess > 5 {
        return Err(format!("{} Jacobians beyond one per failed attempt", excess));
    }
    cx.outcome(format!("at most {} attempts in a step", [0, 1, 2, 3, 5, 10, 20, 1000000].iter().find(|&&x| most <= x).unwrap()));
    cx.metric("attempts in a step", most as f64);
    Ok(())
}

fn meta(id: &'static str, what: &str) -> Meta {
    Meta {
        id,
        rule: format!("a case is one integration of the real code in one environment: {}", what),
        assumptions: vec![
            "the right-hand side writes every component and does not panic".into(),
            "executions within the stated grids, tables and fault positions".into(),
        ],
    }
}
const ALLENV: &str = "every point of the option grid of both methods, every table of piecewise-constant right-hand sides, every call index answered wrongly in ten ways (once, from there on, every second, every third call, pairs), every Jacobian answered wrongly, right-hand sides undefined beyond every cut, extreme spans and tolerances";

pub fn build(id: &'static str, tier: Tier) -> (Meta, Vec<Family>) {
    match id {
        "C01" => (meta(id, ALLENV), environments(c01, tier, true)),
        "C02" => (meta(id, ALLENV), environments(c02, tier, true)),
        "C13" => (meta(id, ALLENV), environments(c13, tier, true)),
        "C18" => (meta(id, ALLENV), environments(c18, tier, true)),
        "C28" => (meta(id, ALLENV), environments(c28, tier, true)),
        "C12" => {
            let mut f = environments(c12, tier, true);
            f.extend(crate::c_radau::model_families("C12", tier).into_iter().map(|mut x| {
                x.name = format!("model-{}", x.name);
                x
            }));
            (meta(id, ALLENV), f)
        }
        _ => {
            let mut f = environments(c26, tier, true);
            f.push(spans(tier));
            (meta(id, ALLENV), f)
        }
    }
}
/// Every combination of dtstart, dtmax and span of comparable size.
fn spans(tier: Tier) -> Family {
    let m: usize = if tier == Tier::Quick { 24 } else { 80 };
    let c = prod(&[m, m, m, 2, 2, 2]);
    family("spans", c, move |i, cx| {
        let mut i = i;
        let size = |k: usize| 0.01 * (1.0 + k as f64) * 7.0 / m as f64 * 24.0 / 7.0;
        let ds = size(pick(&mut i, m));
        let dm = size(pick(&mut i, m));
        let sp = size(pick(&mut i, m));
        let back = pick(&mut i, 2) == 1;
        let alg = [Alg::Dp5, Alg::Radau][pick(&mut i, 2)];
        let t0 = [0.0, 0.75][pick(&mut i, 2)];
        let s = pb::lin(-1.0, 1.0).span(t0, if back { t0 - sp } else { t0 + sp });
        let o = Opt { dtstart: Some(ds), dtmax: Some(dm), ..Opt::tol(1e-3, 1e-5) };
        let tr = Run::new(&s, &o).go(alg);
        judge(c26, &s, &o, alg, Env::Smooth, &tr, &format!("{:?} span {} {:?}", alg, sp, o), cx)
    })
}
