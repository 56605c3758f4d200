//! C03, C05, C06: the DormandPrince5 step, its acceptance test and its controller.
use crate::core::*;
use crate::dp5;
use crate::grid::*;
use crate::util::*;

fn rule() -> String {
    "a case is one integration; families are complete cross products of problems, directions, time shifts, tolerances, step options (grid), all tables of a piecewise-constant right-hand side (cells), and all sequences of error classes chosen by the environment (errseq)".into()
}

fn states(tr: &Trace, cx: &mut Cx) {
    for o in &tr.obs {
        let mut v = vec![o.t, o.dt];
        v.extend(&o.u);
        cx.state(hash_f64s(o.st.rejects as u64, &v));
    }
    cx.transitions += tr.obs.len() as u64 - 1;
    cx.traces += 1;
    cx.outcome(format!("{:?}", tr.code()));
}

/// C03 on one trace. `near` tells that a point lies on a discontinuity.
fn mon_step(s: &Spec, tr: &Trace, near: Option<&dyn Fn(f64, f64) -> bool>, cx: &mut Cx) -> CaseResult {
    for k in tr.accepted() {
        let (a, b) = (&tr.obs[k - 1], &tr.obs[k]);
        let h = b.t - a.t;
        let r = dp5::step(s, a.t, &a.u, h, 1.0, 1.0);
        let ks = r.k.iter().map(|x| maxabs(x)).fold(0.0, f64::max);
        let sc = r.unoise.iter().cloned().fold(0.0, f64::max);
        let tol = 2e-11 * sc + 1e-9 * tr.opts.abstol + 16.0 * f64::EPSILON * (a.t.abs() + b.t.abs()) * ks;
        for c in 0..s.n {
            let d = (b.u[c] - r.unew[c]).abs();
            if !(d <= tol) {
                if let Some(near) = near {
                    let amb = (0..7).any(|i| {
                        let y: f64 = a.u[0] + h * (0..i.min(6)).map(|j| dp5::A[i][j] * r.k[j][0]).sum::<f64>();
                        near(a.t + dp5::C[i] * h, y)
                    });
                    if amb {
                        cx.ambiguous += 1;
                        cx.outcome("ambiguous step at a cell boundary");
                        return Ok(());
                    }
                }
                return Err(format!(
                    "step {} from t={:e} u={:?} with h={:e}: component {} is {:e}, Dormand-Prince gives {:e} (tolerance {:e})",
                    k, a.t, a.u, h, c, b.u[c], r.unew[c], tol
                ));
            }
            cx.metric("max step deviation / tolerance", d / tol);
        }
    }
    Ok(())
}

/// Rejected attempts leave time and state as they were: the accepted one starts there, and
/// if none is accepted they are still the same.
pub fn unchanged(a: &Obs, b: &Obs, attempts: usize) -> CaseResult {
    if b.nsol > a.nsol {
        if attempts > 1 && (b.tprev != a.t || !same(&b.uprev, &a.u)) {
            return Err(format!("after {} rejected attempts from t={:e} u={:?} the accepted one started from t={:e} u={:?}", attempts - 1, a.t, a.u, b.tprev, b.uprev));
        }
    } else if b.t != a.t || !same(&b.u, &a.u) {
        return Err(format!("no attempt from t={:e} u={:?} was accepted, but the integrator is at t={:e} u={:?}", a.t, a.u, b.t, b.u));
    }
    Ok(())
}

/// C05 / C06 on one trace.
fn mon_ctl(s: &Spec, tr: &Trace, accept: bool, ctl: bool, near: Option<&dyn Fn(f64, f64) -> bool>, cx: &mut Cx) -> CaseResult {
    let c = dp5::Ctl::of(&tr.opts);
    let (rt, at) = (tr.opts.reltol, tr.opts.abstol);
    // interval of the previous accepted error
    let mut old: Option<(f64, f64)> = Some((1e-4, 1e-4));
    let jump = |k: usize, a: &Obs, h: f64, r: &dp5::Step| -> bool {
        let _ = k;
        match near {
            None => false,
            Some(near) => (0..7).any(|i| {
                let y: f64 = a.u[0] + h * (0..i.min(6)).map(|j| dp5::A[i][j] * r.k[j][0]).sum::<f64>();
                near(a.t + dp5::C[i] * h, y)
            }),
        }
    };
    for k in 1..tr.obs.len() {
        let (a, b) = (&tr.obs[k - 1], &tr.obs[k]);
        let at_list = match dp5::attempts(tr, k) {
            Some(v) => v,
            None => {
                cx.outcome("irregular evaluation pattern");
                return Ok(());
            }
        };
        let na = at_list.len();
        if accept {
            unchanged(a, b, na)?;
        }
        let mut prev: Option<(f64, f64, f64)> = None; // h, err interval of the rejected attempt
        for q in at_list.iter() {
            let r = dp5::step(s, q.t, &a.u, q.h, rt, at);
            if jump(k, a, q.h, &r) {
                cx.ambiguous += 1;
                return Ok(());
            }
            let slack = 1e-9 + 40.0 * q.hrel;
            let (lo, hi) = if r.err.is_nan() {
                (f64::NAN, f64::NAN)
            } else {
                ((r.err * (1.0 - slack) - r.enoise).max(0.0), r.err * (1.0 + slack) + r.enoise)
            };
            if slack > 0.01 {
                // the step is not resolved by the evaluation times
                cx.outcome("unresolved attempt");
                return Ok(());
            }
            if accept {
                if hi <= 1.0 && !q.accepted {
                    return Err(format!("attempt at t={:e} with h={:e} has error norm {:e} <= 1 but was not accepted", q.t, q.h, r.err));
                }
                if !(lo <= 1.0) && q.accepted {
                    return Err(format!("attempt at t={:e} with h={:e} has error norm {:e} > 1 but was accepted", q.t, q.h, r.err));
                }
                if let Some((hp, _, _)) = prev {
                    if !(q.h.abs() < hp.abs() * (1.0 + q.hrel)) {
                        return Err(format!("rejected attempt at t={:e} with h={:e} retried with h={:e}", q.t, hp, q.h));
                    }
                }
                cx.outcome(if q.accepted { "accepted" } else if r.err.is_nan() { "rejected NaN" } else { "rejected" });
            }
            if ctl {
                let eps = 1e-7 + 4.0 * q.hrel;
                if let Some((hp, lo, hi)) = prev {
                    let (x, y) = (c.rejected(hp, hi), c.rejected(hp, lo));
                    let h = q.h.abs();
                    if !(h >= x * (1.0 - eps) - 1e-300 && h <= y * (1.0 + eps) + 1e-300) || (q.h > 0.0) != (tr.tdir > 0.0) {
                        return Err(format!("after the rejected step h={:e} (error in [{:e},{:e}]) at t={:e} the next step is {:e}, expected |h| in [{:e},{:e}]", hp, lo, hi, q.t, q.h, x, y));
                    }
                }
                if q.accepted {
                    if let Some((olo, ohi)) = old {
                        let x = c.accepted(q.h, hi, olo, na > 1);
                        let y = c.accepted(q.h, lo, ohi, na > 1);
                        let d = b.dt * tr.tdir;
                        if !(d >= x * (1.0 - eps) && d <= y * (1.0 + eps)) {
                            return Err(format!("after the accepted step h={:e} (error in [{:e},{:e}], previous [{:e},{:e}], {} attempts) to t={:e} the next step is {:e}, expected |dt| in [{:e},{:e}]", q.h, lo, hi, olo, ohi, na, b.t, b.dt, x, y));
                        }
                        cx.outcome(if y == x { "limited" } else if na > 1 { "after reject" } else { "free" });
                    }
                    old = Some((lo.max(1e-4), hi.max(1e-4)));
                }
            }
            prev = Some((q.h, lo, hi));
        }
    }
    Ok(())
}

fn cells(tier: Tier) -> Vec<Cells> {
    let mut v = vec![
        Cells { nt: 2, nu: 3, vals: vec![0.0, 1.0, -3.0, 20.0, f64::NAN], t0: 0.0, tf: 1.3, u0: 0.1, uw: 0.4 },
        Cells { nt: 2, nu: 3, vals: vec![0.5, -1.0, 7.0], t0: 2.0, tf: -1.0, u0: -0.3, uw: 1.0 },
    ];
    if tier == Tier::Thorough {
        v.push(Cells { nt: 3, nu: 3, vals: vec![0.0, 1.0, -4.0, 15.0], t0: -0.5, tf: 1.0, u0: 0.05, uw: 0.3 });
    }
    v
}

fn fams(tier: Tier, which: u8) -> Vec<Family> {
    let mut v = vec![];
    for (name, g) in [("grid", std_grid(Alg::Dp5, tier)), ("long", long_grid(Alg::Dp5, tier)), ("tiny", tiny_grid(Alg::Dp5, tier)), ("wide", wide_grid(Alg::Dp5, tier)), ("tight", tight_grid(Alg::Dp5, tier)), ("options", options_grid(Alg::Dp5, tier))] {
    v.push(family(name, g.count(), move |i, cx| {
        let c = g.case(i);
        let tr = Run::new(&c.spec, &c.opt).go(Alg::Dp5);
        states(&tr, cx);
        cx.sample = Some(format!("{} -> {}", c.desc, tr.brief()));
        match which {
            3 => mon_step(&c.spec, &tr, None, cx),
            5 => mon_ctl(&c.spec, &tr, true, false, None, cx),
            _ => mon_ctl(&c.spec, &tr, false, true, None, cx),
        }
        .map_err(|e| format!("{}: {}", c.desc, e))
    }));
    }
    for (ci, ce) in cells(tier).into_iter().enumerate() {
        let c2 = ce.clone();
        let opts: Vec<Opt> = vec![
            Opt { dtstart: Some(0.05), max_steps: Some(400), ..Opt::tol(1e-3, 1e-4) },
            Opt { dtstart: Some(0.4), max_steps: Some(400), beta: Some(0.0), dtmax: Some(0.11), ..Opt::tol(1e-2, 1e-5) },
        ];
        v.push(family(format!("cells{}", ci), ce.count() * opts.len() as u64, move |i, cx| {
            let mut i = i;
            let opt = &opts[pick(&mut i, opts.len())];
            let s = c2.spec(i);
            let tr = Run::new(&s, opt).go(Alg::Dp5);
            states(&tr, cx);
            cx.sample = Some(format!("{} -> {}", s.name, tr.brief()));
            let near = |t: f64, u: f64| c2.near(t, u);
            match which {
                3 => mon_step(&s, &tr, Some(&near), cx),
                5 => mon_ctl(&s, &tr, true, false, Some(&near), cx),
                _ => mon_ctl(&s, &tr, false, true, Some(&near), cx),
            }
            .map_err(|e| format!("{} {:?}: {}", s.name, opt, e))
        }));
    }
    v
}

// ---------- error-class adversary ----------

/// The model's plan for one sequence of error classes: what the environment answers
/// and what the integrator must look like after every step call.
struct Plan {
    /// (k2..k6 answer, k7 answer) per attempt
    ans: Vec<(Vec<f64>, Vec<f64>)>,
    k1: Vec<f64>,
    exp: Vec<Exp>,
    end: bool,
    /// the plan ends early: rounding decides the next step size
    open: bool,
}
struct Exp {
    t: f64,
    u: Vec<f64>,
    dt: f64,
    /// where rounding of the error estimate may put |dt|
    dts: (f64, f64),
    accepts: usize,
    rejects: usize,
    fevals: usize,
    code: Code,
}
const E7: f64 = 1.0 / 40.0;

fn plan(seq: &[Vec<f64>], n: usize, t0: f64, tf: f64, dtstart: f64, rt: f64, at: f64, c: dp5::Ctl) -> Plan {
    let dir = if tf > t0 { 1.0 } else { -1.0 };
    let mut t = t0;
    let mut u: Vec<f64> = (0..n).map(|i| 1.0 + 0.25 * i as f64).collect();
    let mut k1: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { 0.5 } else { -0.25 }).collect();
    let mut p = Plan { ans: vec![], k1: k1.clone(), exp: vec![], end: false, open: false };
    let mut dt = dir * dtstart.min(c.dtmax);
    let mut old: f64 = 1e-4;
    let (mut acc, mut rej, mut fe) = (0usize, 0usize, 1usize);
    let mut a = 0;
    'steps: while a < seq.len() {
        let mut last = false;
        if (t + 1.01 * dt - tf) * dir > 0.0 {
            dt = tf - t;
            last = true;
        }
        let mut after_reject = false;
        loop {
            // past the end of the sequence only easy acceptances
            let e: Vec<f64> = if a < seq.len() { seq[a].clone() } else { vec![0.3; n] };
            a += 1;
            let unew: Vec<f64> = (0..n).map(|i| u[i] + dt * k1[i]).collect();
            let k7: Vec<f64> = (0..n)
                .map(|i| {
                    let sk = at + rt * u[i].abs().max(unew[i].abs());
                    let sgn = if k1[i] > 0.0 { -1.0 } else { 1.0 };
                    k1[i] + sgn * e[i] * sk / (dt.abs() * E7)
                })
                .collect();
            p.ans.push((k1.clone(), k7.clone()));
            fe += 6;
            let err = (e.iter().map(|x| x * x).sum::<f64>() / n as f64).sqrt();
            if err <= 1.0 {
                let d = c.accepted(dt, err, old, after_reject);
                // an estimate of zero is zero only up to the rounding of its terms
                let noise = (0..n)
                    .map(|i| {
                        let m: f64 = dp5::E[..6].iter().map(|x| x.abs() * k1[i].abs()).sum::<f64>() + E7 * k7[i].abs();
                        let sk = at + rt * u[i].abs().max(unew[i].abs());
                        (dt * m / sk).powi(2)
                    })
                    .sum::<f64>();
                let noise = 1e-14 * (noise / n as f64).sqrt();
                let dts = (c.accepted(dt, err + noise, old, after_reject), c.accepted(dt, (err - noise).max(0.0), old, after_reject));
                old = err.max(1e-4);
                acc += 1;
                t += dt;
                u = unew;
                k1 = k7;
                dt = dir * d;
                let code = if last { Code::Success } else { Code::Continue };
                p.exp.push(Exp { t, u: u.clone(), dt, dts, accepts: acc, rejects: rej, fevals: fe, code });
                if last {
                    p.end = true;
                    break 'steps;
                }
                if dts.1 - dts.0 > 1e-9 * dts.1 {
                    // what follows depends on the rounding
                    p.open = true;
                    break 'steps;
                }
                break;
            }
            dt = dir * c.rejected(dt, err);
            after_reject = true;
            last = false;
            if acc >= 1 {
                rej += 1;
            }
        }
    }
    p
}

fn close(a: f64, b: f64, rel: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs()) + 1e-300
}

#[derive(Clone)]
struct Adv {
    n: usize,
    classes: Vec<Vec<f64>>,
    depth: usize,
    spans: Vec<(f64, f64)>,
    ctls: Vec<dp5::Ctl>,
}
impl Adv {
    fn count(&self) -> u64 {
        (self.classes.len() as u64).pow(self.depth as u32) * prod(&[self.spans.len(), self.ctls.len()])
    }
    fn run(&self, i: u64, cx: &mut Cx, which: u8) -> CaseResult {
        let mut i = i;
        let (t0, tf) = self.spans[pick(&mut i, self.spans.len())];
        let c = self.ctls[pick(&mut i, self.ctls.len())];
        let seq: Vec<Vec<f64>> = (0..self.depth).map(|_| self.classes[pick(&mut i, self.classes.len())].clone()).collect();
        let (rt, at, ds) = (1e-3, 1e-4, 0.1);
        let p = plan(&seq, self.n, t0, tf, ds, rt, at, c);
        let s = Spec {
            name: "errseq".into(),
            n: self.n,
            f: std::sync::Arc::new(|d, _, _| d.fill(0.0)),
            jac: std::sync::Arc::new(|d, _, _| d.fill(0.0)),
            exact: None,
            t0,
            tf,
            u0: (0..self.n).map(|i| 1.0 + 0.25 * i as f64).collect(),
            linear: false,
            invariants: vec![],
        };
        let opt = Opt {
            dtstart: Some(ds),
            dtmax: Some(c.dtmax),
            beta: Some(c.beta),
            safe: Some(c.safe),
            facl: Some(c.facl),
            facr: Some(c.facr),
            ..Opt::tol(rt, at)
        };
        let fault = |_k: Kind, i: usize, _t: f64, _u: &[f64], out: &mut [f64]| {
            if i == 0 {
                out.copy_from_slice(&p.k1);
                return;
            }
            let (a, st) = ((i - 1) / 6, (i - 1) % 6);
            match p.ans.get(a) {
                None => panic!("evaluation {} beyond the attempts the controller should have made", i),
                Some((k, k7)) => out.copy_from_slice(if st < 5 { k } else { k7 }),
            }
        };
        let tr = Run::new(&s, &opt).fault(&fault).step_calls(p.exp.len()).go(Alg::Dp5);
        cx.traces += 1;
        cx.transitions += p.ans.len() as u64;
        if p.open {
            cx.ambiguous += 1;
        }
        for o in &tr.obs {
            cx.state(hash_f64s(o.st.rejects as u64, &[o.t, o.dt, o.u[0]]));
        }
        let key: String = seq.iter().map(|e| {
            let r = (e.iter().map(|x| x * x).sum::<f64>() / self.n as f64).sqrt();
            if r.is_nan() { 'N' } else if r > 1.0 { 'R' } else { 'A' }
        }).collect();
        cx.outcome(key);
        let d = format!("error classes {:?} span ({},{}) {:?}", seq, t0, tf, c);
        cx.sample = Some(format!("{} -> {}", d, tr.brief()));
        for (k, e) in p.exp.iter().enumerate() {
            let o = match tr.obs.get(k + 1) {
                Some(o) => o,
                None => return Err(format!("{}: ended after {} steps, expected {}", d, tr.obs.len() - 1, p.exp.len())),
            };
            let st = tr.obs[k].t;
            let ok_acc = o.st.accepts == e.accepts && o.st.rejects == e.rejects && o.st.fevals == e.fevals && o.code == e.code;
            let ok_t = close(o.t, e.t, 1e-9) || (o.t - e.t).abs() <= 1e-9 * (e.t - st).abs();
            let ok_dt = close(o.dt, e.dt, 1e-7)
                || o.dt * e.dt > 0.0 && o.dt.abs() >= e.dts.0 * (1.0 - 1e-7) && o.dt.abs() <= e.dts.1 * (1.0 + 1e-7);
            let ok_u = o.u.iter().zip(&e.u).all(|(x, y)| (x - y).abs() <= 1e-7 * (1.0 + y.abs()));
            if which == 5 && !(ok_acc && ok_u) || which == 6 && !(ok_acc && ok_t && ok_dt) {
                return Err(format!(
                    "{}: after step {} t={:e} u={:?} dt={:e} accepts={} rejects={} fevals={} {:?}, expected t={:e} u={:?} dt={:e} accepts={} rejects={} fevals={} {:?}",
                    d, k + 1, o.t, o.u, o.dt, o.st.accepts, o.st.rejects, o.st.fevals, o.code, e.t, e.u, e.dt, e.accepts, e.rejects, e.fevals, e.code
                ));
            }
        }
        Ok(())
    }
}

fn adversaries(tier: Tier, which: u8) -> Vec<Family> {
    let q = tier == Tier::Quick;
    let inf = f64::INFINITY;
    let mut ctls = vec![];
    for beta in [0.0, 0.04, 0.12] {
        for (facl, facr, safe) in [(0.2, 10.0, 0.9), (0.5, 3.0, 0.7)] {
            for dtmax in [inf, 0.25] {
                ctls.push(dp5::Ctl { beta, safe, facl, facr, dtmax });
            }
        }
    }
    let cl = |v: &[f64]| v.iter().map(|x| vec![*x]).collect::<Vec<_>>();
    let nan = f64::NAN;
    let mut v = vec![];
    let spans = vec![(0.0, 60.0), (0.0, 0.75), (0.5, -0.4)];
    let a = Adv {
        n: 1,
        classes: cl(&[0.0, 1e-5, 0.03, 0.7, 0.999, 1.001, 4.0, 1e5, nan]),
        depth: if q { 4 } else { 6 },
        spans: spans.clone(),
        ctls: ctls.clone(),
    };
    v.push(family("errseq1", a.count(), move |i, cx| a.run(i, cx, which)));
    // several components: every combination of component errors
    for (n, depth) in if q { vec![(2usize, 2usize), (3, 1)] } else { vec![(2, 3), (3, 2), (4, 1)] } {
        let base: Vec<f64> = if n == 2 { vec![0.0, 0.5, 0.98, 1.02, 1.35, 1.45, 3.0, nan] } else { vec![0.0, 0.9, 1.1, 1.5, 1.8, nan] };
        let mut classes = vec![vec![]];
        for _ in 0..n {
            let mut c2 = vec![];
            for c in &classes {
                for b in &base {
                    let mut c: Vec<f64> = c.clone();
                    c.push(*b);
                    c2.push(c);
                }
            }
            classes = c2;
        }
        let a = Adv { n, classes, depth, spans: spans[..2].to_vec(), ctls: vec![ctls[4], ctls[7]] };
        v.push(family(format!("errseq{}", n), a.count(), move |i, cx| a.run(i, cx, which)));
    }
    v
}

fn meta(id: &'static str) -> Meta {
    Meta {
        id,
        rule: rule(),
        assumptions: vec![
            "right-hand sides from the listed families; rounding differences up to the stated tolerance are not distinguished".into(),
            "decisions within the rounding uncertainty of a threshold are counted as ambiguous and not judged".into(),
        ],
    }
}
pub fn c03(tier: Tier) -> (Meta, Vec<Family>) {
    let mut m = meta("C03");
    m.rule = "a case is one integration; families are complete cross products of problems, directions, time shifts, tolerances, step options (grid) and all tables of a piecewise-constant right-hand side (cells)".into();
    (m, fams(tier, 3))
}
pub fn c05(tier: Tier) -> (Meta, Vec<Family>) {
    let mut f = fams(tier, 5);
    f.extend(adversaries(tier, 5));
    (meta("C05"), f)
}
pub fn c06(tier: Tier) -> (Meta, Vec<Family>) {
    let mut f = fams(tier, 6);
    f.extend(adversaries(tier, 6));
    (meta("C06"), f)
}
