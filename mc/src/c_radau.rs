//! C04, C07, C08, C09: the Radau5 step, its acceptance test, its recovery from Newton
//! failures and singular matrices, and its step-size controller.
use crate::core::*;
use crate::grid::*;
use crate::problems as pb;
use crate::rref::{self, Cpx, Env, Ev, Lu, Model, Par, What};
use crate::util::*;
use std::sync::Arc;

fn states(tr: &Trace, cx: &mut Cx) {
    for o in &tr.obs {
        let mut v = vec![o.t, o.dt];
        v.extend(&o.u);
        cx.state(hash_f64s(o.st.jevals as u64, &v));
    }
    cx.transitions += tr.last().st.steps as u64;
    cx.traces += 1;
    cx.outcome(format!("{:?}", tr.code()));
}

// ---------- C04: collocation ----------

/// Solve the collocation equations from (t, u) with step h by full Newton iteration,
/// starting from the straight line to `guess`. Returns the stage increments z.
pub fn collocate(s: &Spec, t: f64, u: &[f64], h: f64, guess: &[f64]) -> Option<[Vec<f64>; 3]> {
    let n = s.n;
    let a = rref::amat();
    let c = [rref::c1(), rref::c2(), 1.0];
    let mut z: [Vec<f64>; 3] = [0, 1, 2].map(|k| (0..n).map(|i| c[k] * (guess[i] - u[i])).collect());
    let scale = maxabs(u).max(maxabs(guess)).max(1e-30);
    let mut prev = f64::INFINITY;
    for it in 0..40 {
        let fs: Vec<Vec<f64>> = (0..3).map(|k| {
            let y: Vec<f64> = (0..n).map(|i| u[i] + z[k][i]).collect();
            s.eval(&y, t + c[k] * h)
        }).collect();
        let js: Vec<Vec<f64>> = (0..3).map(|k| {
            let y: Vec<f64> = (0..n).map(|i| u[i] + z[k][i]).collect();
            s.evalj(&y, t + c[k] * h)
        }).collect();
        let m = 3 * n;
        let mut mat = vec![vec![Cpx(0.0, 0.0); m]; m];
        let mut r = vec![Cpx(0.0, 0.0); m];
        for k in 0..3 {
            for i in 0..n {
                let mut v = z[k][i];
                for l in 0..3 {
                    v -= h * a[k][l] * fs[l][i];
                    for j in 0..n {
                        mat[k * n + i][l * n + j].0 -= h * a[k][l] * js[l][i * n + j];
                    }
                }
                mat[k * n + i][k * n + i].0 += 1.0;
                r[k * n + i].0 = -v;
            }
        }
        let d = Lu::new(mat)?.solve(&r);
        let mut dm: f64 = 0.0;
        for k in 0..3 {
            for i in 0..n {
                z[k][i] += d[k * n + i].0;
                dm = dm.max(d[k * n + i].0.abs());
            }
        }
        if !dm.is_finite() {
            return None;
        }
        if dm <= 1e-14 * scale || (it > 3 && dm <= 1e-9 * scale && dm >= 0.3 * prev) {
            return Some(z);
        }
        prev = dm;
    }
    None
}

/// worst accepted deviation from the collocation solution, in units of fnewt * scale
const NEWTON_K: f64 = 400.0;
/// the same for steps of a single iteration, in units of the scale
const ONE_ITERATION: f64 = 10.0;

fn mon_colloc(c: &Spec, opt: &Opt, tr: &Trace, cx: &mut Cx) -> CaseResult {
    let constant_jac = c.linear && !c.name.starts_with("tlin");
    for k in tr.accepted() {
        let (a, b) = (&tr.obs[k - 1], &tr.obs[k]);
        let h = b.t - a.t;
        let z = match collocate(c, a.t, &a.u, h, &b.u) {
            Some(z) => z,
            None => {
                cx.ambiguous += 1;
                cx.outcome(format!("collocation solver did not converge {}", c.name));
                continue;
            }
        };
        let n = c.n;
        let scal: Vec<f64> = a.u.iter().map(|x| tr.opts.abstol + tr.opts.reltol * x.abs()).collect();
        let fmax = maxabs(&c.eval(&b.u, b.t)).max(maxabs(&c.eval(&a.u, a.t)));
        let us = maxabs(&a.u).max(maxabs(&b.u)).max(z.iter().map(|x| maxabs(x)).fold(0.0, f64::max));
        let round = 1e-10 * us + 1e-9 * tr.opts.abstol + 32.0 * f64::EPSILON * (a.t.abs() + b.t.abs()) * fmax;
        let dev = (0..n).map(|i| (b.u[i] - a.u[i] - z[2][i]).abs()).fold(0.0, |m: f64, x| if x.is_nan() { f64::NAN } else { m.max(x) });
        let rel = ((0..n).map(|i| ((b.u[i] - a.u[i] - z[2][i]) / scal[i]).powi(2)).sum::<f64>() / n as f64).sqrt();
        if constant_jac && opt.jac {
            if !(dev <= round) {
                return Err(format!("linear step {} from t={:e} u={:?} h={:e}: u={:?}, collocation gives increment {:?} (deviation {:e}, rounding {:e})", k, a.t, a.u, h, b.u, z[2], dev, round));
            }
            cx.metric("linear: deviation / rounding allowance", dev / round);
        } else {
            // with a convergence rate kept from a fast step the algorithm may stop after one
            // iteration, whose accuracy nothing has measured
            let it = parse(tr, k).map_or(0, |v| v.last().map_or(0, |q| q.iters));
            // and on stiff problems the rate between the first two differs from the later ones
            let stiff = pb::stiff().iter().any(|p| c.name.starts_with(&p.name));
            let least = if it < 2 { ONE_ITERATION } else if stiff { 5.0 } else { 0.0 };
            let tol = (NEWTON_K * tr.opts.fnewt).max(least);
            let r = round / scal.iter().cloned().fold(f64::INFINITY, f64::min);
            if !(rel <= tol + r) {
                return Err(format!("step {} from t={:e} u={:?} h={:e}: u={:?} is {:e} tolerance units from the collocation solution (Newton accuracy {:e})", k, a.t, a.u, h, b.u, rel, tr.opts.fnewt));
            }
            cx.metric(format!("nonlinear{}: deviation / (fnewt * scale), {} iterations", if stiff { ", stiff" } else { "" }, it.min(3)), (rel - r).max(0.0) / tr.opts.fnewt);
            if it < 2 {
                cx.metric("nonlinear, one iteration: deviation / scale", (rel - r).max(0.0));
            }
        }
    }
    Ok(())
}

pub fn rcells(tier: Tier) -> Vec<Cells> {
    let mut v = vec![
        Cells { nt: 2, nu: 3, vals: vec![0.0, 1.0, -3.0, 20.0, f64::NAN], t0: 0.0, tf: 1.3, u0: 0.1, uw: 0.4 },
        Cells { nt: 2, nu: 3, vals: vec![0.5, -1.0, 7.0], t0: 2.0, tf: -1.0, u0: -0.3, uw: 1.0 },
    ];
    if tier == Tier::Thorough {
        v.push(Cells { nt: 3, nu: 3, vals: vec![0.0, 1.0, -4.0, 15.0], t0: -0.5, tf: 1.0, u0: 0.05, uw: 0.3 });
    }
    v
}
pub fn cell_opts() -> Vec<Opt> {
    vec![
        Opt { dtstart: Some(0.05), max_steps: Some(400), ..Opt::tol(1e-3, 1e-4) },
        Opt { dtstart: Some(0.4), max_steps: Some(400), modern_pred: Some(false), dtmax: Some(0.11), max_newt: Some(4), ..Opt::tol(1e-2, 1e-5) },
    ]
}

pub fn c04(tier: Tier) -> (Meta, Vec<Family>) {
    let mut v = vec![];
    for (name, g) in [("grid", std_grid(Alg::Radau, tier)), ("long", long_grid(Alg::Radau, tier)), ("tiny", tiny_grid(Alg::Radau, tier)), ("wide", wide_grid(Alg::Radau, tier)), ("tight", tight_grid(Alg::Radau, tier)), ("options", options_grid(Alg::Radau, tier))] {
        v.push(family(name, g.count(), move |i, cx| {
            let c = g.case(i);
            let tr = Run::new(&c.spec, &c.opt).go(Alg::Radau);
            states(&tr, cx);
            cx.sample = Some(format!("{} -> {}", c.desc, tr.brief()));
            mon_colloc(&c.spec, &c.opt, &tr, cx).map_err(|e| format!("{}: {}", c.desc, e))
        }));
    }
    for mut f in model_families("C04", tier) {
        f.name = format!("model-{}", f.name);
        v.push(f);
    }
    let mut m = meta("C04");
    m.assumptions.push(format!("nonlinear steps are compared within {} x fnewt x (abstol + reltol |u|), those of a single Newton iteration within {} x, stiff ones within 5 x (abstol + reltol |u|) if that is more", NEWTON_K, ONE_ITERATION));
    (m, v)
}

// ---------- what the integrator did, from its evaluations ----------

#[derive(Debug, Clone)]
pub struct Seen {
    pub h: f64,
    pub hrel: f64,
    pub iters: usize,
    pub filters: usize,
    /// positions of this attempt's evaluations in the call log
    pub from: usize,
    pub to: usize,
}
/// Attempts of the k-th step call: groups of three stage evaluations with the same end
/// time; an evaluation at the current time is the second error filter; a single one at
/// the end is the refresh after acceptance. None if the evaluations do not fit this.
pub fn parse(tr: &Trace, k: usize) -> Option<Vec<Seen>> {
    let a = &tr.obs[k - 1];
    let b = &tr.obs[k];
    let acc = b.nsol > a.nsol;
    let mut fc: Vec<(usize, f64)> = (a.ncalls..b.ncalls).filter(|&i| tr.calls[i].kind == Kind::F).map(|i| (i, tr.calls[i].t)).collect();
    if acc && b.code == Code::Continue {
        // refresh
        fc.pop()?;
    }
    let mut v: Vec<Seen> = vec![];
    let mut i = 0;
    while i < fc.len() {
        if fc[i].1 == a.t {
            let s = v.last_mut()?;
            s.filters += 1;
            s.to = fc[i].0;
            i += 1;
            continue;
        }
        if i + 3 > fc.len() {
            return None;
        }
        let te = fc[i..i + 3].iter().map(|x| x.1).fold(a.t, |m, x| if (x - m) * tr.tdir > 0.0 { x } else { m });
        let h = te - a.t;
        let hrel = if h == 0.0 { 1.0 } else { 2.0 * f64::EPSILON * (a.t.abs() + te.abs()) / h.abs() };
        let (from, to) = (fc[i].0, fc[i + 2].0);
        i += 3;
        match v.last_mut() {
            Some(s) if (s.h - h).abs() <= (1e-9 + 4.0 * hrel) * h.abs() && s.filters == 0 => {
                s.iters += 1;
                s.to = to;
            }
            _ => v.push(Seen { h, hrel, iters: 1, filters: 0, from, to }),
        }
    }
    Some(v)
}

pub struct Diff {
    pub prop: &'static str,
    pub msg: String,
}

#[derive(Clone)]
struct Pure<'a>(&'a Spec);
impl<'a> Env for Pure<'a> {
    fn f(&mut self, _: Ev, t: f64, u: &[f64]) -> Vec<f64> {
        self.0.eval(u, t)
    }
    fn j(&mut self, t: f64, u: &[f64]) -> Vec<f64> {
        self.0.evalj(u, t)
    }
}

/// Conformance of a trace (analytic Jacobian) with the reference model, attempt by
/// attempt; the model takes over the observed step sizes and states, so that each
/// decision is judged on its own.
pub fn guided(s: &Spec, opt: &Opt, tr: &Trace, cx: &mut Cx, near: Option<&dyn Fn(f64, f64) -> bool>) -> Vec<Diff> {
    let mut out = vec![];
    let mut m = Model::new(Pure(s), Par::of(opt), s.t0, s.tf, &s.u0, opt.dtstart.unwrap_or(1e-6));
    let mut settled = false;
    let mut drift = 0.0;
    for k in 1..tr.obs.len() {
        let was_settled = settled;
        settled = false;
        let (a, b) = (&tr.obs[k - 1], &tr.obs[k]);
        let seen = match parse(tr, k) {
            Some(v) => v,
            None => {
                cx.outcome("irregular evaluation pattern");
                return out;
            }
        };
        let acc = b.nsol > a.nsol;
        if let Err(msg) = crate::c_dp5::unchanged(a, b, seen.len()) {
            // attempts that failed without reaching the error test count as well
            out.push(Diff { prop: "C07", msg: msg.clone() });
            out.push(Diff { prop: "C08", msg });
            return out;
        }
        m.resync(a.t, &a.u, a.dt);
        m.begin();
        let mut prev: Option<What> = None;
        let mut whats = vec![];
        let st0 = m.st;
        for (j, q) in seen.iter().enumerate() {
            if q.hrel > 1e-6 {
                cx.outcome("unresolved attempt");
                return out;
            }
            m.atts.clear();
            let ok = m.prepare();
            let sing = m.atts.iter().filter(|x| x.what == What::Singular).count();
            if sing > 0 {
                cx.outcome(format!("singular x{}", sing));
                whats.push(What::Singular);
            }
            if !ok {
                match m.code {
                    Code::SingularMatrix => out.push(Diff { prop: "C08", msg: format!("at t={:e}: five singular matrices but the integration goes on", a.t) }),
                    Code::MaxIters => out.push(Diff { prop: "C11", msg: "more attempts than max_steps".into() }),
                    _ => cx.ambiguous += 1,
                }
                return out;
            }
            if m.amb {
                cx.ambiguous += 1;
                return out;
            }
            // the predicted convergence magnifies small differences of the iterates
            let tol = if prev == Some(What::TooSlow) { 1e-4 } else { 1e-6 } + 4.0 * q.hrel;
            if !within(q.h, m.dtr, tol) {
                let msg = format!("at t={:e} attempt {} (after {:?}) has step {:e}, expected {:e}", a.t, j, prev, q.h, m.dt);
                if sing > 0 {
                    out.push(Diff { prop: "C08", msg: msg.clone() });
                } else if prev.is_none() {
                    out.push(Diff { prop: "C26", msg: msg.clone() });
                }
                if k > 1 || prev.is_some() {
                    out.push(Diff { prop: "C09", msg });
                }
                m.impose(q.h);
            }
            if acc && j + 1 == seen.len() && (b.dtprev - q.h).abs() <= 4.0 * q.hrel * q.h.abs() {
                m.impose(b.dtprev);
            }
            m.atts.clear();
            let fin = acc && j + 1 == seen.len();
            let before = if fin && near.is_none() { Some(m.clone()) } else { None };
            m.body();
            if let Some(b4) = &before {
                let d = (0..s.n).map(|i| (b.u[i] - m.u[i]).abs() / (m.p.abstol + m.p.reltol * a.u[i].abs())).fold(0.0, f64::max);
                // a step may magnify the drift; a larger one is judged below
                if d > 1e-5 && d <= m.drift {
                    cx.outcome("model drifted away");
                    return out;
                }
                if m.t != a.t && d > m.drift && d < 1e-5 {
                    m = b4.clone();
                    m.drift = d;
                    m.body();
                }
                drift = 100.0 * d;
            }
            if m.amb && before.is_some() {
                // decisions that rounding could turn are taken as observed, not judged
                m = before.unwrap();
                cx.ambiguous += 1;
                let fresh_jac = tr.calls[q.to..b.ncalls].iter().any(|c| c.kind == Kind::J);
                m.settled = Some(rref::Settled {
                    iters: q.iters,
                    filtered: q.filters > 0,
                    fresh_jac,
                    held: !fresh_jac && b.dt == b.dtprev,
                    last: (b.t + b.dt - s.tf).abs() <= 4.0 * f64::EPSILON * (b.t.abs() + s.tf.abs()),
                    dt: b.dt,
                });
                m.body();
                m.amb = false;
                settled = true;
            }
            m.drift = drift;
            let at = m.atts.last().unwrap().clone();
            if m.amb || near.map_or(false, |near| hits(tr, q, near)) {
                cx.ambiguous += 1;
                return out;
            }
            if settled {
                continue;
            }
            cx.outcome(format!("{:?}{}{}", at.what, if at.filtered { " filtered" } else { "" }, if at.hold { " held" } else { "" }));
            match at.what {
                What::Accepted | What::Rejected => {
                    let good = at.what == What::Accepted;
                    if good != fin {
                        let prop = if q.iters != at.newt && !fin { "C08" } else { "C07" };
                        out.push(Diff { prop, msg: format!("at t={:e} the attempt with h={:e} (estimate {:e}, filtered {:e}, {} iterations, expected {}) was {}", a.t, q.h, at.err1, at.err, q.iters, at.newt, if fin { "accepted" } else { "not accepted" }) });
                        return out;
                    }
                    if at.filtered != (q.filters > 0) {
                        out.push(Diff { prop: "C07", msg: format!("at t={:e} the error estimate {:e} of the attempt with h={:e} was filtered {} times", a.t, at.err1, q.h, q.filters + 1) });
                        return out;
                    }
                }
                _ => {
                    if fin {
                        out.push(Diff { prop: "C08", msg: format!("at t={:e} the attempt with h={:e} has a failed Newton iteration ({:?} after {}) but was accepted", a.t, q.h, at.what, at.newt) });
                        return out;
                    }
                    // a Jacobian at this time and state must be evaluated before the next attempt
                    if let Some(nx) = seen.get(j + 1) {
                        let fresh = tr.calls[q.from..nx.from].iter().any(|c| c.kind == Kind::J && c.t == a.t && same(&c.u, &a.u));
                        if !fresh {
                            out.push(Diff { prop: "C08", msg: format!("at t={:e} no Jacobian was evaluated after the failed Newton iteration with h={:e}", a.t, q.h) });
                        }
                        if !(nx.h.abs() < q.h.abs()) {
                            out.push(Diff { prop: "C08", msg: format!("at t={:e} the failed attempt with h={:e} was retried with h={:e}", a.t, q.h, nx.h) });
                        }
                    }
                }
            }
            if q.iters != at.newt {
                let msg = format!("at t={:e} the attempt with h={:e} made {} Newton iterations, expected {} ({:?})", a.t, q.h, q.iters, at.newt, at.what);
                if fin && q.iters < at.newt {
                    out.push(Diff { prop: "C04", msg: msg.clone() });
                }
                out.push(Diff { prop: "C08", msg });
                return out;
            }
            prev = Some(at.what);
            whats.push(at.what);
        }
        if acc {
            let lasts = b.code == Code::Success;
            if (m.code == Code::Success) != lasts {
                let msg = format!("step to t={:e}: {:?}, expected {:?} ({:?})", b.t, b.code, m.code, whats);
                if failed(whats.iter().cloned()) {
                    out.push(Diff { prop: "C08", msg: msg.clone() });
                } else if whats.contains(&What::Rejected) {
                    out.push(Diff { prop: "C07", msg: msg.clone() });
                }
                out.push(Diff { prop: "C02", msg });
                return out;
            }
            // the state reached, against the model's Newton iteration
            let bad = (0..s.n).find(|&i| {
                let sc = m.p.abstol + m.p.reltol * a.u[i].abs();
                let nz = 1e-11 * maxabs(&a.u).max(maxabs(&b.u));
                !((b.u[i] - m.u[i]).abs() <= 1e-5 * sc + nz)
            });
            if let Some(i) = bad {
                out.push(Diff { prop: "C04", msg: format!("step from t={:e} u={:?} with h={:e} leads to component {} = {:e}, expected {:e}", a.t, a.u, b.dtprev, i, b.u[i], m.u[i]) });
                return out;
            }
            if lasts {
                break;
            }
            if !within(b.dt, m.dtr, 1e-5) {
                out.push(Diff { prop: "C09", msg: format!("after the accepted step to t={:e} (h={:e}, error {:e}, {} iterations, {} attempts) the next step is {:e}, expected {:e}", b.t, b.dtprev, m.atts.last().unwrap().err, m.atts.last().unwrap().newt, seen.len(), b.dt, m.dt) });
                m.resync(b.t, &b.u, b.dt);
            }
            let d = |x: usize, y: usize| x as i64 - y as i64;
            let want = (d(m.st.dec, st0.dec), d(m.st.solves, st0.solves), d(m.st.jevals, st0.jevals), d(m.st.fevals, st0.fevals), d(m.st.steps, st0.steps), d(m.st.rejects, st0.rejects));
            let got = (d(b.st.dec, a.st.dec), d(b.st.solves, a.st.solves), d(b.st.jevals, a.st.jevals), d(b.st.fevals, a.st.fevals), d(b.st.steps, a.st.steps), d(b.st.rejects, a.st.rejects));
            // a held step is not told from a repeated one where the decision was not judged
            if want != got && out.is_empty() && !was_settled && !settled {
                out.push(Diff { prop: "C12", msg: format!("step to t={:e}: (decompositions, solves, jacobians, evaluations, steps, rejects) grew by {:?}, expected {:?}", b.t, got, want) });
                return out;
            }
        } else {
            // the integration gave up
            m.atts.clear();
            let go_on = m.code == Code::Continue && m.prepare();
            if m.amb {
                cx.ambiguous += 1;
                return out;
            }
            if go_on || m.code != b.code {
                let prop = if b.code == Code::SingularMatrix || m.code == Code::SingularMatrix { "C08" } else { "C01" };
                out.push(Diff { prop, msg: format!("at t={:e} the integration ended with {:?}, expected {:?} (next step {:e})", b.t, b.code, m.code, m.dt) });
            }
            return out;
        }
    }
    out
}
fn within(x: f64, r: (f64, f64), tol: f64) -> bool {
    let (a, b) = (r.0.abs(), r.1.abs());
    x * r.0 >= 0.0 && x.abs() >= a * (1.0 - tol) && x.abs() <= b * (1.0 + tol)
}
/// an evaluation of this attempt lies on a cell boundary
fn hits(tr: &Trace, q: &Seen, near: &dyn Fn(f64, f64) -> bool) -> bool {
    tr.calls[q.from..=q.to].iter().any(|c| c.kind == Kind::F && !c.u.is_empty() && near(c.t, c.u[0]))
}

// ---------- adversarial environments ----------

/// Answers chosen by event: f for build / each Newton iteration / filter / refresh, and
/// Jacobians, following two digit sequences; afterwards calm answers.
struct Adv {
    fseq: Vec<f64>,
    jseq: Vec<Vec<f64>>,
    calm_f: f64,
    n: usize,
    fi: usize,
    ji: usize,
    cur: Vec<f64>,
    /// choices that depend on the step: the j-th Jacobian is 1 = singular, 2 = far too
    /// large, otherwise regular
    jsteer: Vec<usize>,
    h: f64,
    flog: Vec<Vec<f64>>,
    jlog: Vec<Vec<f64>>,
    evlog: Vec<Ev>,
}
impl Env for Adv {
    fn f(&mut self, ev: Ev, _t: f64, _u: &[f64]) -> Vec<f64> {
        if !matches!(ev, Ev::Newton(1) | Ev::Newton(2)) {
            let v = self.fseq.get(self.fi).cloned().unwrap_or(self.calm_f);
            self.fi += 1;
            self.cur = vec![v; self.n];
        }
        self.flog.push(self.cur.clone());
        self.evlog.push(ev);
        self.cur.clone()
    }
    fn j(&mut self, _t: f64, _u: &[f64]) -> Vec<f64> {
        let v = match self.jsteer.get(self.ji) {
            // only steps that are powers of two are certain to be the same in the code
            Some(1) if self.h.to_bits() << 12 == 0 => singular(self.n == 2, self.h),
            Some(2) => if self.n == 2 { vec![300.0, 0.0, 0.0, 300.0] } else { vec![300.0] },
            _ => self.jseq.get(self.ji).cloned().unwrap_or_else(|| self.jseq.last().unwrap().clone()),
        };
        self.ji += 1;
        self.jlog.push(v.clone());
        v
    }
    fn hint(&mut self, h: f64) {
        self.h = h;
    }
}
/// A Jacobian for which the real or the complex iteration matrix of step h is singular.
fn singular(complex: bool, h: f64) -> Vec<f64> {
    if complex {
        vec![rref::ALPHA / h, -rref::BETA / h, rref::BETA / h, rref::ALPHA / h]
    } else {
        vec![rref::U1 / h]
    }
}
struct StepRec {
    atts: Vec<rref::Att>,
    t: f64,
    u: Vec<f64>,
    dt: f64,
    st: St,
    code: Code,
    amb: bool,
    dtr: (f64, f64),
}

/// An attempt failed before it reached the error test.
fn failed(mut w: impl Iterator<Item = What>) -> bool {
    w.any(|w| !matches!(w, What::Accepted | What::Rejected))
}

/// Run the model on the adversary's choices, then the implementation on the same
/// answers, and compare.
fn plan_run(desc: &str, adv: Adv, opt: &Opt, t0: f64, tf: f64, u0: &[f64], extra: usize, cx: &mut Cx) -> Vec<Diff> {
    let depth = adv.fseq.len();
    let jd = adv.jseq.len();
    let n = u0.len();
    let mut m = Model::new(adv, Par::of(opt), t0, tf, u0, opt.dtstart.unwrap());
    let mut recs: Vec<StepRec> = vec![];
    let mut calm = 0;
    while m.code == Code::Continue && recs.len() < 60 {
        m.step();
        recs.push(StepRec { atts: m.atts.clone(), t: m.t, u: m.u.clone(), dt: m.dt, st: m.st, code: m.code, amb: m.amb, dtr: m.dtr });
        if m.env.fi >= depth && m.env.ji >= jd {
            calm += 1;
            if calm > extra {
                break;
            }
        }
    }
    let s = Spec {
        name: "adv".into(),
        n,
        f: Arc::new(|d, _, _| d.fill(0.0)),
        jac: Arc::new(|d, _, _| d.fill(0.0)),
        exact: None,
        t0,
        tf,
        u0: u0.to_vec(),
        linear: false,
        invariants: vec![],
    };
    let env = &m.env;
    let fault = |k: Kind, i: usize, _t: f64, _u: &[f64], out: &mut [f64]| {
        let v = match k {
            Kind::F => env.flog.get(i),
            Kind::J => env.jlog.get(i),
        };
        match v {
            Some(v) => out.copy_from_slice(v),
            // beyond the plan: the comparison has already failed or stops before
            None => out.fill(0.0),
        }
    };
    let tr = Run::new(&s, opt).fault(&fault).step_calls(recs.len()).budget(100_000).go(Alg::Radau);
    for o in &tr.obs {
        let mut v = vec![o.t, o.dt];
        v.extend(&o.u);
        cx.state(hash_f64s(o.st.fevals as u64, &v));
    }
    cx.traces += 1;
    cx.transitions += recs.last().map_or(0, |r| r.st.steps) as u64;
    cx.sample = Some(format!("{} -> {}", desc, tr.brief()));
    let mut out = vec![];
    let mut key = String::new();
    for (k, r) in recs.iter().enumerate() {
        for a in &r.atts {
            key.push(match a.what {
                What::Singular => 'S', What::Diverged => 'D', What::TooSlow => 'W', What::NoConv => 'N', What::Rejected => 'R', What::Accepted => 'A',
            });
            if a.filtered { key.push('f'); }
            if a.hold { key.push('h'); }
        }
        if r.amb {
            cx.ambiguous += 1;
            break;
        }
        let a = &tr.obs[k];
        let b = match tr.obs.get(k + 1) {
            Some(b) => b,
            None => {
                out.push(Diff { prop: "C01", msg: format!("ended with {:?} after {} steps", tr.code(), k) });
                break;
            }
        };
        let seen = match parse(&tr, k + 1) {
            Some(v) => v,
            None => {
                cx.outcome("irregular evaluation pattern");
                break;
            }
        };
        if seen.iter().any(|q| q.hrel > 1e-7) {
            cx.outcome("unresolved attempt");
            break;
        }
        let acc = b.nsol > a.nsol;
        if let Err(msg) = crate::c_dp5::unchanged(a, b, r.atts.len()) {
            out.push(Diff { prop: if r.atts.iter().any(|x| x.what == What::Rejected) { "C07" } else { "C08" }, msg });
            break;
        }
        let want: Vec<&rref::Att> = r.atts.iter().filter(|x| x.what != What::Singular).collect();
        // the step starts from what the integrator was left with (judged before); one that is to
        // reach the final time is what remains from where it is
        let tm = if k > 0 { recs[k - 1].t } else { t0 };
        let to_end = |h: f64, t: f64| (h - (tf - t)).abs() <= 4.0 * f64::EPSILON * (t.abs() + tf.abs());
        let ratio = if r.atts.first().map_or(false, |x| to_end(x.h, tm)) { (tf - a.t) / (tf - tm) } else if k > 0 { a.dt / recs[k - 1].dt } else { 1.0 };
        let mut stop = false;
        for j in 0..want.len().max(seen.len()) {
            // step sizes first: they were determined by earlier attempts
            let before = |j: usize| -> Option<What> {
                // outcome preceding the j-th attempt with evaluations, including singular ones
                let mut c = 0;
                let mut last = None;
                for x in &r.atts {
                    if x.what != What::Singular {
                        if c == j { return last; }
                        c += 1;
                    }
                    last = Some(x.what);
                }
                last
            };
            match (want.get(j), seen.get(j)) {
                (Some(w), Some(q)) => {
                    let wh = w.h * ratio;
                    if !((wh - q.h).abs() <= (1e-6 + 4.0 * q.hrel) * wh.abs()) {
                        let msg = format!("step {} attempt {} (after {:?}) has h={:e}, expected {:e}", k + 1, j, before(j), q.h, wh);
                        let smaller = j == 0 || q.h.abs() < seen[j - 1].h.abs();
                        match before(j) {
                            None => out.push(Diff { prop: "C26", msg: msg.clone() }),
                            Some(What::Singular) => out.push(Diff { prop: "C08", msg: msg.clone() }),
                            Some(What::Accepted | What::Rejected) => {}
                            _ if !smaller => out.push(Diff { prop: "C08", msg: msg.clone() }),
                            _ => {}
                        }
                        if k > 0 || before(j).is_some() {
                            out.push(Diff { prop: "C09", msg });
                        }
                        stop = true;
                        break;
                    }
                    let fin = acc && j + 1 == seen.len();
                    if q.iters != w.newt {
                        let msg = format!("step {} attempt {} with h={:e} made {} Newton iterations, expected {} ({:?})", k + 1, j, q.h, q.iters, w.newt, w.what);
                        if fin && q.iters < w.newt {
                            out.push(Diff { prop: "C04", msg: msg.clone() });
                        }
                        out.push(Diff { prop: "C08", msg });
                        stop = true;
                        break;
                    }
                    if fin != (w.what == What::Accepted) {
                        let prop = if matches!(w.what, What::Accepted | What::Rejected) { "C07" } else { "C08" };
                        out.push(Diff { prop, msg: format!("step {} attempt {} with h={:e} was {}, expected {:?} (estimates {:e}, {:e})", k + 1, j, q.h, if fin { "accepted" } else { "not accepted" }, w.what, w.err1, w.err) });
                        stop = true;
                        break;
                    }
                    if matches!(w.what, What::Accepted | What::Rejected) && w.filtered != (q.filters > 0) {
                        out.push(Diff { prop: "C07", msg: format!("step {} attempt {}: estimate {:e} filtered {} times", k + 1, j, w.err1, q.filters + 1) });
                        stop = true;
                        break;
                    }
                    if !matches!(w.what, What::Accepted | What::Rejected) {
                        let to = seen.get(j + 1).map_or(b.ncalls, |x| x.from);
                        if !tr.calls[q.from..to].iter().any(|c| c.kind == Kind::J && c.t == a.t && same(&c.u, &a.u)) {
                            out.push(Diff { prop: "C08", msg: format!("step {} attempt {}: no fresh Jacobian after the failed Newton iteration", k + 1, j) });
                            stop = true;
                            break;
                        }
                    }
                }
                (w, _) => {
                    let prop = if r.code == Code::SingularMatrix || b.code == Code::SingularMatrix || matches!(before(j), Some(What::Singular)) {
                        "C08"
                    } else {
                        match w.map(|w| w.what).or(want.last().map(|w| w.what)) {
                            Some(What::Accepted) | Some(What::Rejected) => "C07",
                            _ => "C08",
                        }
                    };
                    out.push(Diff { prop, msg: format!("step {}: {} attempts ending with {:?}, expected {} ({:?})", k + 1, seen.len(), b.code, want.len(), r.atts.iter().map(|x| x.what).collect::<Vec<_>>()) });
                    stop = true;
                    break;
                }
            }
        }
        if stop {
            break;
        }
        if b.code != r.code {
            let prop = if b.code == Code::SingularMatrix || r.code == Code::SingularMatrix || failed(r.atts.iter().map(|x| x.what)) { "C08" } else { "C01" };
            out.push(Diff { prop, msg: format!("step {} ended with {:?}, expected {:?}", k + 1, b.code, r.code) });
            break;
        }
        if b.st != r.st {
            out.push(Diff { prop: "C12", msg: format!("statistics after step {}: {:?}, expected {:?}", k + 1, b.st, r.st) });
            break;
        }
        // step sizes are judged above, within their own uncertainty
        if !((b.t - r.t).abs() <= 1e-6 * (1.0 + r.t.abs())) || b.u.iter().zip(&r.u).any(|(x, y)| !((x - y).abs() <= 1e-6 * (1.0 + y.abs()))) {
            out.push(Diff { prop: "C04", msg: format!("step {} leads to t={:e} u={:?}, expected t={:e} u={:?}", k + 1, b.t, b.u, r.t, r.u) });
            break;
        }
        let dtr = if to_end(r.dt, r.t) { (tf - b.t, tf - b.t) } else { r.dtr };
        if acc && b.code == Code::Continue && !within(b.dt, dtr, 1e-5) {
            out.push(Diff { prop: "C09", msg: format!("after step {} ({:?}) dt={:e}, expected {:e}", k + 1, r.atts.last(), b.dt, r.dt) });
            break;
        }
    }
    key.truncate(24);
    cx.outcome(key);
    out
}

pub fn fmt_diffs(d: Vec<Diff>, prop: &str, desc: &str, cx: &mut Cx) -> CaseResult {
    for x in d {
        if x.prop == prop {
            return Err(format!("{}: {}", desc, x.msg));
        }
        cx.outcome(format!("difference left to {}", x.prop));
    }
    Ok(())
}

/// Families that compare Radau5 with the reference model; differences that belong to
/// `prop` are violations.
pub fn model_families(prop: &'static str, tier: Tier) -> Vec<Family> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    for (name, mut g) in [("grid", std_grid(Alg::Radau, tier)), ("long", long_grid(Alg::Radau, tier)), ("tiny", tiny_grid(Alg::Radau, tier)), ("wide", wide_grid(Alg::Radau, tier)), ("tight", tight_grid(Alg::Radau, tier)), ("options", options_grid(Alg::Radau, tier))] {
    g.vars.retain(|x| x.1.jac);
    v.push(family(name, g.count(), move |i, cx| {
        let c = g.case(i);
        let tr = Run::new(&c.spec, &c.opt).go(Alg::Radau);
        states(&tr, cx);
        cx.sample = Some(format!("{} -> {}", c.desc, tr.brief()));
        if c.spec.name.starts_with("robertson") && c.opt.abstol.map_or(false, |x| x > 1e-4) {
            // the tolerance is above the size of a component that steers the others: every
            // step magnifies rounding, and no model stays on the trajectory
            cx.outcome("not compared: unresolved component");
            return Ok(());
        }
        let d = guided(&c.spec, &c.opt, &tr, cx, None);
        fmt_diffs(d, prop, &c.desc, cx)
    }));
    }
    // a Jacobian that is only an approximation: the iteration converges at every rate, with
    // every limit on its length
    let probs = [pb::lin(-3.0, 4.0), pb::ho(5.0, 4.0), pb::logistic(), pb::vdp(5.0, 4.0), pb::lin(-40.0, 4.0)];
    let scales = [0.0, 0.3, 0.6, 0.8, 0.95, 1.2, 1.6, 3.0, -1.0];
    let newts = if q { vec![None, Some(4), Some(11), Some(16), Some(40)] } else { vec![None, Some(1), Some(2), Some(4), Some(8), Some(11), Some(16), Some(25), Some(40), Some(100)] };
    let fnewts = [None, Some(1e-2), Some(1e-5), Some(1e-9)];
    let tols = if q { vec![1e-4] } else { vec![1e-2, 1e-4, 1e-7] };
    let ps = probs.len();
    v.push(family("slow", prod(&[ps, scales.len(), newts.len(), fnewts.len(), tols.len(), 2, 2]), move |i, cx| {
        let mut i = i;
        let mut s = probs[pick(&mut i, ps)].clone();
        let k = scales[pick(&mut i, scales.len())];
        let newt = newts[pick(&mut i, newts.len())];
        let fnewt = fnewts[pick(&mut i, fnewts.len())];
        let tol = tols[pick(&mut i, tols.len())];
        if pick(&mut i, 2) == 1 {
            s = s.mirrored();
        }
        let classic = pick(&mut i, 2) == 1;
        s = s.misjudged(k);
        let opt = Opt { max_newt: newt, fnewt, modern_pred: if classic { Some(false) } else { None }, dtstart: Some(0.3), ..Opt::tol(tol, tol) };
        let tr = Run::new(&s, &opt).go(Alg::Radau);
        states(&tr, cx);
        cx.sample = Some(format!("{} {:?} -> {}", s.name, opt, tr.brief()));
        let d = guided(&s, &opt, &tr, cx, None);
        fmt_diffs(d, prop, &format!("{} {:?}", s.name, opt), cx)
    }));
    for (ci, ce) in rcells(tier).into_iter().enumerate() {
        let opts = cell_opts();
        v.push(family(format!("cells{}", ci), ce.count() * opts.len() as u64, move |i, cx| {
            let mut i = i;
            let opt = &opts[pick(&mut i, opts.len())];
            let s = ce.spec(i);
            let tr = Run::new(&s, opt).args().go(Alg::Radau);
            states(&tr, cx);
            cx.sample = Some(format!("{} -> {}", s.name, tr.brief()));
            let near = |t: f64, u: f64| ce.near(t, u);
            let d = guided(&s, opt, &tr, cx, Some(&near));
            fmt_diffs(d, prop, &format!("{} {:?}", s.name, opt), cx)
        }));
    }
    // Newton-iteration adversary
    let base = |d: f64| Opt { dtstart: Some(d), ..Opt::tol(1e-3, 1e-3) };
    let opts: Vec<Opt> = vec![
        base(0.1),
        Opt { max_newt: Some(3), modern_pred: Some(false), ..base(0.1) },
        Opt { use_ext_col: Some(false), max_newt: Some(5), safe: Some(0.7), facl: Some(3.0), facr: Some(0.3), ..base(0.05) },
        Opt { quot1: Some(0.8), quot2: Some(5.5), dtmax: Some(0.15), fnewt: Some(1e-3), ..base(0.1) },
        Opt { max_newt: Some(2), ..base(0.1) },
        Opt { max_newt: Some(1), ..base(0.1) },
    ];
    let vals = [0.0, 1.0, 1.0 + 3e-4, 1.05, -2.0, 40.0, f64::NAN];
    let depth = if q { 6 } else { 7 };
    let spans = [(0.0, 30.0), (0.3, -0.1)];
    let nv = vals.len() as u64;
    v.push(family("newton", nv.pow(depth) * prod(&[opts.len(), spans.len()]), move |i, cx| {
        let mut i = i;
        let opt = &opts[pick(&mut i, opts.len())];
        let (t0, tf) = spans[pick(&mut i, 2)];
        let mut fseq = vec![1.0];
        fseq.extend((0..depth).map(|_| vals[pick(&mut i, vals.len())]));
        let desc = format!("answers {:?} span ({},{}) {:?}", fseq, t0, tf, opt);
        let adv = Adv { fseq, jseq: vec![vec![-0.5]], calm_f: 1.0, n: 1, fi: 0, ji: 0, cur: vec![], jsteer: vec![], h: 0.0, flog: vec![], jlog: vec![], evlog: vec![] };
        let d = plan_run(&desc, adv, opt, t0, tf, &[1.0], 2, cx);
        fmt_diffs(d, prop, &desc, cx)
    }));
    // singular matrices: every pattern of singular / regular Jacobians over the first
    // evaluations; the singular Jacobian matches the step size of that moment
    let k = if q { 7 } else { 9 };
    for complex in [false, true] {
        let name = if complex { "singular-complex" } else { "singular-real" };
        v.push(family(name, 3u64.pow(k) * 2, move |i, cx| {
            let mut i = i;
            let back = pick(&mut i, 2) == 1;
            let pat: Vec<usize> = (0..k).map(|_| pick(&mut i, 3)).collect();
            let h0 = 1.0 / 16.0;
            let sg = if back { -1.0 } else { 1.0 };
            let n = if complex { 2 } else { 1 };
            // the j-th Jacobian sees h0 / 2^(number of failures so far); 1 = singular for
            // h0 / 2^(singular count), 0 = regular, 2 = regular but making Newton diverge
            let mut sing = 0;
            let mut jseq = vec![];
            for p in &pat {
                let h = sg * h0 / f64::powi(2.0, sing);
                let v = match p {
                    1 => {
                        sing += 1;
                        singular(complex, h)
                    }
                    0 => if complex { vec![-1.0, 0.0, 0.5, -2.0] } else { vec![-1.0] },
                    _ => if complex { vec![300.0, 0.0, 0.0, 300.0] } else { vec![300.0] },
                };
                jseq.push(v);
            }
            jseq.push(if complex { vec![-1.0, 0.0, 0.5, -2.0] } else { vec![-1.0] });
            // answers that keep the Newton iteration failing for a while, so that new
            // Jacobians are requested
            let fseq = vec![1.0, 1.0, 40.0, -70.0, 90.0, -120.0];
            let desc = format!("Jacobian pattern {:?} complex={} back={}", pat, complex, back);
            let opt = Opt { dtstart: Some(h0), ..Opt::tol(1e-3, 1e-3) };
            let adv = Adv { fseq, jseq, calm_f: 1.0, n, fi: 0, ji: 0, cur: vec![], jsteer: vec![], h: 0.0, flog: vec![], jlog: vec![], evlog: vec![] };
            let tf = if back { -2.0 } else { 2.0 };
            let u0 = vec![1.0; n];
            let d = plan_run(&desc, adv, &opt, 0.0, tf, &u0, 3, cx);
            fmt_diffs(d, prop, &desc, cx)
        }));
    }
    // singular matrices spread over several steps: a Jacobian for every attempt, the
    // maximum step keeps the step sizes powers of two; in "jump" the right-hand side changes
    // at every point of the first steps, so that estimates are too large there
    for (complex, jumps, k) in [(false, 1, if q { 9 } else { 10 }), (true, 1, if q { 9 } else { 10 }), (false, 12, if q { 7 } else { 8 }), (true, 12, if q { 7 } else { 8 })] {
        let name = format!("spread-{}{}", if complex { "complex" } else { "real" }, if jumps > 1 { "-jump" } else { "" });
        v.push(family(name, 3u64.pow(k) * 4 * jumps as u64, move |i, cx| {
            let mut i = i;
            let back = pick(&mut i, 2) == 1;
            let jsteer: Vec<usize> = (0..k).map(|_| pick(&mut i, 3)).collect();
            let at = 1 + pick(&mut i, jumps);
            let tf = [2.0, 0.1875][pick(&mut i, 2)];
            let h0 = 1.0 / 16.0;
            let n = if complex { 2 } else { 1 };
            let desc = format!("Jacobian for each attempt {:?} complex={} back={} jump {} tf={}", jsteer, complex, back, at, tf);
            let opt = Opt { dtstart: Some(h0), dtmax: Some(h0), use_ext_col: Some(false), ..Opt::tol(1e-3, 1e-3) };
            let calm = if complex { vec![-1.0, 0.0, 0.5, -2.0] } else { vec![-1.0] };
            let calm_f = if jumps > 1 { 3.0 } else { 1.0 };
            let adv = Adv { fseq: vec![1.0; at], jseq: vec![calm; k as usize], calm_f, n, fi: 0, ji: 0, cur: vec![], jsteer, h: 0.0, flog: vec![], jlog: vec![], evlog: vec![] };
            let d = plan_run(&desc, adv, &opt, 0.0, if back { -tf } else { tf }, &vec![1.0; n], 3, cx);
            fmt_diffs(d, prop, &desc, cx)
        }));
    }
    v
}

pub fn meta(id: &'static str) -> Meta {
    Meta {
        id,
        rule: "a case is one integration; families are complete cross products of problems and options (grid, long, tiny, wide, tight, options), of wrong Jacobians and limits of the Newton iteration (slow), all tables of a piecewise-constant right-hand side (cells), all sequences of answers to the Newton iterations (newton) and all patterns of singular iteration matrices, at one time (singular) and over several steps (spread)".into(),
        assumptions: vec![
            "the reference model (src/rref.rs) states Radau5 as published; traces are compared with it attempt by attempt".into(),
            "decisions within the rounding uncertainty of a threshold are counted as ambiguous and not judged".into(),
        ],
    }
}
pub fn by_model(id: &'static str, tier: Tier) -> (Meta, Vec<Family>) {
    let mut f = model_families(id, tier);
    f.push(family("model-selfcheck", 1, |_, cx| {
        cx.outcome("model constants consistent");
        rref::selfcheck()
    }));
    (meta(id), f)
}
