//! C15: callbacks.
use crate::c_radau::collocate;
use crate::core::*;
use crate::dp5;
use crate::grid::*;
use crate::problems as pb;
use crate::util::*;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use std::cell::{Cell, RefCell};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    None,
    Scale,
    Kick,
    Clear,
    Param,
    ShortStep,
    LongStep,
    Fail,
    Stop,
}
const ACTS: [Act; 9] = [Act::None, Act::Scale, Act::Kick, Act::Clear, Act::Param, Act::ShortStep, Act::LongStep, Act::Fail, Act::Stop];

/// What the callback saw and what it left.
#[derive(Clone)]
struct Seen {
    t: f64,
    u: Vec<f64>,
    tprev: f64,
    uprev: Vec<f64>,
    rec_n: usize,
    rec_t: f64,
    rec_u: Vec<f64>,
    accepts: usize,
    code: Code,
    left_u: Vec<f64>,
    left_dt: f64,
    left_p: f64,
    left_code: Code,
}
struct Res {
    seen: Vec<Seen>,
    ts: Vec<f64>,
    us: Vec<Vec<f64>>,
    code: Code,
    /// times of the evaluations of each step call
    evals: Vec<Vec<f64>>,
    accepted: Vec<bool>,
    more: Vec<bool>,
    fevals: usize,
    ncalls: usize,
    reltol: f64,
    abstol: f64,
    fnewt: f64,
    quot1: f64,
}
fn run<A: OdeAlgorithm>(s: &Spec, opt: &Opt, alg: A, acts: &[Act], limit: usize) -> Res {
    let seen: RefCell<Vec<Seen>> = RefCell::new(vec![]);
    let evals: RefCell<Vec<f64>> = RefCell::new(vec![]);
    let calls = Cell::new(0usize);
    let dudt = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, p: &f64| {
        calls.set(calls.get() + 1);
        if calls.get() > 300_000 {
            panic!("more than 300000 right-hand-side evaluations");
        }
        evals.borrow_mut().push(t);
        let uu: Vec<f64> = u.iter().cloned().collect();
        let v = s.eval(&uu, t);
        for k in 0..v.len() {
            du[k] = p * v[k];
        }
    };
    let dfdu = |mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, p: &f64| {
        let uu: Vec<f64> = u.iter().cloned().collect();
        let n = uu.len();
        let m = s.evalj(&uu, t);
        for a in 0..n {
            for b in 0..n {
                df[[a, b]] = p * m[a * n + b];
            }
        }
    };
    let cb = |it: &mut OdeIntegrator<f64, A>| {
        let k = seen.borrow().len();
        let (t, u) = (it.t, it.u.to_vec());
        let (tprev, uprev) = (it.tprev, it.uprev.to_vec());
        let rec_n = it.sol.ts.len();
        let rec_t = *it.sol.ts.last().unwrap();
        let rec_u = it.sol.us.last().unwrap().to_vec();
        let accepts = it.stats.accepts;
        let now = code(&it.sol.retcode);
        match acts.get(k).cloned().unwrap_or(Act::None) {
            Act::None => {}
            Act::Scale => it.u.iter_mut().for_each(|x| *x *= 0.5),
            Act::Kick => it.u[0] += 0.3,
            Act::Clear => it.u.fill(0.0),
            Act::Param => it.params *= -1.5,
            Act::ShortStep => it.dt *= 0.25,
            Act::LongStep => it.dt *= 3.0,
            Act::Fail => it.sol.retcode = OdeRetCode::Failure,
            Act::Stop => it.sol.retcode = OdeRetCode::Success,
        }
        seen.borrow_mut().push(Seen {
            t, u, tprev, uprev, rec_n, rec_t, rec_u, accepts, code: now,
            left_u: it.u.to_vec(),
            left_dt: it.dt,
            left_p: it.params,
            left_code: code(&it.sol.retcode),
        });
    };
    let mut b = OdeIntegratorBuilder::default(&dudt, Array1::from(s.u0.clone()), (s.t0, s.tf), alg, 1.0f64).callback(&cb);
    if opt.jac {
        b = b.dfdu(&dfdu);
    }
    let mut it = opt.apply(b).build();
    evals.borrow_mut().clear();
    let mut ev = vec![];
    let mut accepted = vec![];
    let mut more = vec![];
    for _ in 0..limit {
        if it.sol.retcode != OdeRetCode::Continue {
            break;
        }
        let n = it.sol.ts.len();
        more.push(it.step().is_some());
        accepted.push(it.sol.ts.len() > n);
        ev.push(evals.replace(vec![]));
    }
    // once more after the end
    if it.sol.retcode != OdeRetCode::Continue {
        let n = seen.borrow().len();
        it.step();
        it.integrate();
        if seen.borrow().len() != n {
            panic!("the callback ran after the end of the integration");
        }
    }
    let r = (
        it.sol.ts.clone(),
        it.sol.us.iter().map(|u| u.to_vec()).collect::<Vec<_>>(),
        code(&it.sol.retcode),
        it.stats.function_evals,
        it.stats.jacobian_evals,
        it.opts.reltol,
        it.opts.abstol,
        it.opts.fnewt,
        it.opts.quot1,
    );
    drop(it);
    let seen = seen.into_inner();
    let extra = if opt.jac { 0 } else { (s.n + 1) * r.4 };
    Res { seen, ts: r.0, us: r.1, code: r.2, evals: ev, accepted, more, fevals: r.3 + extra, ncalls: calls.get(), reltol: r.5, abstol: r.6, fnewt: r.7, quot1: r.8 }
}
fn scaled(s: &Spec, p: f64) -> Spec {
    let mut r = s.clone();
    let (f, j) = (s.f.clone(), s.jac.clone());
    r.f = Arc::new(move |d, u, t| {
        f(d, u, t);
        d.iter_mut().for_each(|x| *x *= p);
    });
    r.jac = Arc::new(move |d, u, t| {
        j(d, u, t);
        d.iter_mut().for_each(|x| *x *= p);
    });
    r
}

fn check(s: &Spec, alg: Alg, r: &Res, acts: &[Act], opt: &Opt, cx: &mut Cx) -> CaseResult {
    let na = r.accepted.iter().filter(|x| **x).count();
    if r.seen.len() != na {
        return Err(format!("{} steps were accepted but the callback ran {} times", na, r.seen.len()));
    }
    if r.ts.len() != na + 1 {
        return Err(format!("{} steps accepted, {} entries recorded", na, r.ts.len()));
    }
    if alg == Alg::Dp5 && r.fevals != r.ncalls {
        return Err(format!("{} evaluations counted, {} made", r.fevals, r.ncalls));
    }
    let d = s.dir();
    // what each step starts from
    let (mut u, mut t, mut p, mut dt) = (s.u0.clone(), s.t0, 1.0, None);
    let mut q = 0;
    for k in 0..r.accepted.len() {
        // first attempt: the step size left by the callback, cut at the final time
        if let Some(h) = dt {
            let h: f64 = h;
            let ends: Vec<f64> = r.evals[k].iter().map(|x| (x - t) * d).collect();
            let far = ends.iter().cloned().fold(0.0, f64::max);
            let rest = (s.tf - t).abs();
            let full = h * d;
            let (a, b) = match alg {
                Alg::Dp5 => (1.01, 1.01),
                Alg::Radau => (1.0001f64.min(1.0 / r.quot1), 1.0001f64.max(1.0 / r.quot1)),
            };
            let tol = 1e-9 * full.abs() + 8.0 * f64::EPSILON * (t.abs() + s.tf.abs());
            let cut = full * b >= rest - tol;
            let keep = full * a <= rest + tol;
            let ok = cut && (far - rest).abs() <= tol || keep && (far - full).abs() <= tol;
            // with singular matrices or too small a step there may be no evaluation
            if !ok && r.evals[k].len() > 1 {
                return Err(format!("step {} after action {:?} reaches t+{:e}, expected {:e} (remaining {:e})", k + 1, acts.get(q.max(1) - 1), far, full, rest));
            }
        }
        if !r.accepted[k] {
            break;
        }
        let c = &r.seen[q];
        q += 1;
        if c.rec_n != q + 1 || c.rec_t != c.t || !same(&c.rec_u, &c.u) || c.accepts != q {
            return Err(format!("callback {}: integrator at t={:e} u={:?}, record of {} entries ends with t={:e} u={:?}", q, c.t, c.u, c.rec_n, c.rec_t, c.rec_u));
        }
        if c.tprev != t || !same(&c.uprev, &u) {
            return Err(format!("callback {}: previous state t={:e} u={:?}, the step started from t={:e} u={:?}", q, c.tprev, c.uprev, t, u));
        }
        if r.ts[q] != c.t || !same(&r.us[q], &c.u) {
            return Err(format!("the record of step {} was changed after the callback saw it", q));
        }
        // done at the final time, not before
        let off = (c.t - s.tf).abs();
        if c.code == Code::Success && off > 16.0 * f64::EPSILON * (t.abs() + s.tf.abs()) || c.code == Code::Continue && off == 0.0 {
            return Err(format!("callback {} saw {:?} at t={:e}, the final time is {:e} (after {:?})", q, c.code, c.t, s.tf, acts.get(q.max(2) - 2)));
        }
        // the step itself
        let sp = scaled(s, p);
        let h = c.t - t;
        match alg {
            Alg::Dp5 => {
                let x = dp5::step(&sp, t, &u, h, r.reltol, r.abstol);
                let ks = x.k.iter().map(|x| maxabs(x)).fold(0.0, f64::max);
                let sc = x.unoise.iter().cloned().fold(0.0, f64::max);
                let tol = 2e-11 * sc + 1e-9 * r.abstol + 16.0 * f64::EPSILON * (t.abs() + c.t.abs()) * ks;
                for i in 0..s.n {
                    if !((c.u[i] - x.unew[i]).abs() <= tol) {
                        return Err(format!("step {} from t={:e} u={:?} p={} (after {:?}) h={:e}: component {} is {:e}, Dormand-Prince gives {:e}", q, t, u, p, acts.get(q.max(2) - 2), h, i, c.u[i], x.unew[i]));
                    }
                }
                // not where the step is so short that time itself is rounded
                if h.abs() >= 1e-6 * (t.abs() + c.t.abs()) && !(x.err <= 1.0 + x.enoise + 1e-6) {
                    return Err(format!("step {} from t={:e} u={:?} p={} (after {:?}) with error {:e} was accepted", q, t, u, p, acts.get(q.max(2) - 2), x.err));
                }
            }
            Alg::Radau if h.abs() < 1e-6 * (t.abs() + c.t.abs()) => cx.ambiguous += 1,
            Alg::Radau => match collocate(&sp, t, &u, h, &c.u) {
                None => cx.ambiguous += 1,
                Some(z) => {
                    let rel = ((0..s.n).map(|i| ((c.u[i] - u[i] - z[2][i]) / (r.abstol + r.reltol * u[i].abs())).powi(2)).sum::<f64>() / s.n as f64).sqrt();
                    let us = maxabs(&u).max(maxabs(&c.u));
                    let round = 1e-10 * us / (r.abstol + r.reltol * u.iter().fold(f64::INFINITY, |m, x| m.min(x.abs())));
                    cx.metric(format!("deviation from collocation / fnewt{}", if acts.get(q.max(2) - 2) == Some(&Act::Param) && q > 1 { " after a parameter change" } else { "" }), (rel - round).max(0.0) / r.fnewt);
                    if !(rel <= K * r.fnewt + round) {
                        return Err(format!("step {} from t={:e} u={:?} p={} (after {:?}) h={:e} leads to {:?}, {:e} tolerance units from the collocation solution", q, t, u, p, acts.get(q.max(2) - 2), h, c.u, rel));
                    }
                }
            },
        }
        // what the callback left
        let stop = c.left_code != Code::Continue;
        if stop != !r.more[k] {
            return Err(format!("callback {} left {:?} but step returned more={}", q, c.left_code, r.more[k]));
        }
        if stop && (k + 1 != r.accepted.len() || r.code != c.left_code) {
            return Err(format!("callback {} left {:?}; the integration ended with {:?} after {} step calls", q, c.left_code, r.code, r.accepted.len()));
        }
        t = c.t;
        u = c.left_u.clone();
        p = c.left_p;
        dt = if stop { None } else { Some(c.left_dt) };
    }
    let _ = opt;
    Ok(())
}
const K: f64 = 1000.0;

fn same_solution(a: (&[f64], &[Vec<f64>]), b: (&[f64], &[Vec<f64>])) -> bool {
    let near = |x: f64, y: f64, s: f64| (x - y).abs() <= 1e-8 * s + 1e-14;
    a.0.len() == b.0.len()
        && (0..a.0.len()).all(|k| {
            let s = maxabs(&a.1[k]);
            near(a.0[k], b.0[k], a.0[k].abs().max(1e-3)) && (0..a.1[k].len()).all(|i| near(a.1[k][i], b.1[k][i], s))
        })
}

pub fn c15(tier: Tier) -> (Meta, Vec<Family>) {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for alg in [Alg::Dp5, Alg::Radau] {
        let probs = vec![pb::ho(1.0, 2.0), pb::logistic().mirrored(), pb::kinetics().span(0.0, 1.0), pb::tlin().shifted(0.5), pb::lin(-3.0, 1.0), pb::vdp(0.2, 1.0)];
        let mut opts = vec![Opt { dtstart: Some(0.1), max_steps: Some(3000), ..Opt::tol(1e-3, 1e-5) }];
        opts.push(Opt { dtstart: Some(0.4), reltol: Some(1e-5), jac: false, ..opts[0].clone() });
        if alg == Alg::Radau {
            opts.push(Opt { use_ext_col: Some(false), quot1: Some(0.9), quot2: Some(3.0), ..opts[0].clone() });
        }
        let l: u32 = if q { 4 } else { 5 };
        let c = prod(&[probs.len(), opts.len()]) * (ACTS.len() as u64).pow(l);
        v.push(family(format!("actions-{:?}", alg), c, move |i, cx| {
            let mut i = i;
            let s = &probs[pick(&mut i, probs.len())];
            let o = &opts[pick(&mut i, opts.len())];
            let acts: Vec<Act> = (0..l).map(|_| ACTS[pick(&mut i, ACTS.len())]).collect();
            let r = match alg {
                Alg::Dp5 => run(s, o, DormandPrince5, &acts, 4000),
                Alg::Radau => run(s, o, Radau5, &acts, 4000),
            };
            for c in &r.seen {
                let mut x = vec![c.t, c.left_dt, c.left_p];
                x.extend(&c.left_u);
                cx.state(hash_f64s(alg as u64, &x));
            }
            cx.transitions += r.accepted.len() as u64;
            cx.traces += 1;
            cx.outcome(format!("{:?} {:?}", alg, r.code));
            let d = format!("{:?} {} {:?} actions {:?}", alg, s.name, o, acts);
            cx.sample = Some(format!("{} -> {} steps {:?}", d, r.ts.len() - 1, r.code));
            check(s, alg, &r, &acts, o, cx).map_err(|e| format!("{}: {}", d, e))
        }));
        // every combination of options with every pair of actions
        let vars = options_grid(alg, tier).vars;
        let probs = [pb::ho(1.0, 2.0).mirrored(), pb::lotka().span(0.0, 2.0)];
        let c = prod(&[vars.len(), 2, 2, ACTS.len(), ACTS.len()]);
        v.push(family(format!("options-{:?}", alg), c, move |i, cx| {
            let mut i = i;
            let (name, var) = &vars[pick(&mut i, vars.len())];
            let s = &probs[pick(&mut i, 2)];
            let dtmax = [None, Some(0.2)][pick(&mut i, 2)];
            let acts = [ACTS[pick(&mut i, ACTS.len())], ACTS[pick(&mut i, ACTS.len())]];
            let o = Opt { reltol: Some(1e-4), abstol: Some(1e-5), dtstart: Some(0.1), dtmax, max_steps: Some(3000), ..var.clone() };
            let r = match alg {
                Alg::Dp5 => run(s, &o, DormandPrince5, &acts, 4000),
                Alg::Radau => run(s, &o, Radau5, &acts, 4000),
            };
            cx.transitions += r.accepted.len() as u64;
            cx.traces += 1;
            for c in &r.seen {
                cx.state(hash_f64s(alg as u64, &[c.t, c.left_dt, c.left_p, c.left_u[0]]));
            }
            cx.outcome(format!("{:?} {:?}", alg, r.code));
            check(s, alg, &r, &acts, &o, cx).map_err(|e| format!("{:?} {} {} dtmax={:?} actions {:?}: {}", alg, s.name, name, dtmax, acts, e))
        }));
        // an action at every later step, near the end in particular
        let probs = vec![pb::ho(1.0, 2.0), pb::logistic().mirrored(), pb::lotka(), pb::bump().span(0.9, 1.1)];
        let np = probs.len();
        let c = prod(&[np, 60, ACTS.len(), ACTS.len()]);
        v.push(family(format!("late-{:?}", alg), c, move |i, cx| {
            let mut i = i;
            let s = &probs[pick(&mut i, np)];
            let k = pick(&mut i, 60);
            let (a, b) = (ACTS[pick(&mut i, ACTS.len())], ACTS[pick(&mut i, ACTS.len())]);
            let o = Opt { dtstart: Some(0.1), max_steps: Some(3000), ..Opt::tol(1e-4, 1e-6) };
            let mut acts = vec![Act::None; k];
            acts.push(a);
            acts.push(b);
            let r = match alg {
                Alg::Dp5 => run(s, &o, DormandPrince5, &acts, 4000),
                Alg::Radau => run(s, &o, Radau5, &acts, 4000),
            };
            cx.transitions += r.accepted.len() as u64;
            cx.traces += 1;
            for c in &r.seen {
                cx.state(hash_f64s(alg as u64, &[c.t, c.left_dt, c.left_p, c.left_u[0]]));
            }
            check(s, alg, &r, &acts, &o, cx).map_err(|e| format!("{:?} {} {:?} {:?} after {} steps: {}", alg, s.name, a, b, k, e))
        }));
        // a callback that changes nothing
        for (name, g) in [("idle", std_grid(alg, tier)), ("idle-options", options_grid(alg, tier)), ("idle-wide", wide_grid(alg, tier))] {
        v.push(family(format!("{}-{:?}", name, alg), g.count(), move |i, cx| {
            let c = g.case(i);
            let plain = Run::new(&c.spec, &c.opt).go(alg);
            let r = match alg {
                Alg::Dp5 => run(&c.spec, &c.opt, DormandPrince5, &[], 200_000),
                Alg::Radau => run(&c.spec, &c.opt, Radau5, &[], 200_000),
            };
            cx.transitions += r.accepted.len() as u64;
            cx.traces += 1;
            cx.sample = Some(format!("{} -> {} callbacks", c.desc, r.seen.len()));
            for (t, u) in r.ts.iter().zip(&r.us) {
                cx.state(hash_f64s(alg as u64, &[*t, u[0]]));
            }
            if r.code != plain.code() || r.seen.len() + 1 != plain.ts.len() || !same_solution((&plain.ts, &plain.us), (&r.ts, &r.us)) {
                return Err(format!("{}: with a callback that changes nothing {} steps and {:?}, without {}", c.desc, r.ts.len() - 1, r.code, plain.brief()));
            }
            cx.outcome(format!("idle {:?}", r.code));
            Ok(())
        }));
        }
        // right-hand sides that end the integration with a failure
        let cuts = 40;
        v.push(family(format!("failing-{:?}", alg), cuts * 3, move |i, cx| {
            let mut i = i;
            let c = pick(&mut i, cuts as usize);
            let base = [pb::ho(1.0, 2.0), pb::logistic(), pb::blowup()][pick(&mut i, 3)].clone();
            let tc = base.t0 + (c as f64 + 0.5) / cuts as f64 * (base.tf - base.t0);
            let mut s = base.clone();
            let f = base.f.clone();
            s.f = Arc::new(move |d, u, t| {
                f(d, u, t);
                if t > tc {
                    d.fill(f64::NAN);
                }
            });
            let o = Opt { dtstart: Some(0.1), max_steps: Some(2000), ..Opt::tol(1e-3, 1e-5) };
            let r = match alg {
                Alg::Dp5 => run(&s, &o, DormandPrince5, &[], 4000),
                Alg::Radau => run(&s, &o, Radau5, &[], 4000),
            };
            cx.transitions += r.accepted.len() as u64;
            cx.traces += 1;
            cx.outcome(format!("failing {:?}", r.code));
            let na = r.accepted.iter().filter(|x| **x).count();
            if na != r.seen.len() || r.ts.len() != na + 1 {
                return Err(format!("{:?} {} undefined after {}: {} accepted steps, {} callbacks, {} entries", alg, base.name, tc, na, r.seen.len(), r.ts.len()));
            }
            Ok(())
        }));
    }
    (
        Meta {
            id: "C15",
            rule: "a case is one integration with one sequence of callback actions (none, scale, kick, clear the state, change the parameter, shorten, lengthen the step, stop as failure, as success)".into(),
            assumptions: vec!["callbacks leave time, final time, options and statistics alone".into()],
        },
        v,
    )
}
