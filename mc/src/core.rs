//! Problems, options, and the monitored driver around the real integrators.
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use std::cell::{Cell, RefCell};
use std::sync::Arc;

pub type F = Arc<dyn Fn(&mut [f64], &[f64], f64) + Send + Sync>;
pub type Ex = Arc<dyn Fn(f64) -> Vec<f64> + Send + Sync>;

#[derive(Clone)]
pub struct Spec {
    pub name: String,
    pub n: usize,
    pub f: F,
    /// row-major n*n
    pub jac: F,
    pub exact: Option<Ex>,
    pub t0: f64,
    pub tf: f64,
    pub u0: Vec<f64>,
    /// f = A(t) u + b(t)
    pub linear: bool,
    /// weight vectors w with w . f == 0 identically
    pub invariants: Vec<Vec<f64>>,
}

impl Spec {
    /// g(s, u) = -f(-s, u) from -t0 to -tf: the same trajectory run backwards in time.
    pub fn mirrored(&self) -> Spec {
        let mut s = self.clone();
        let f = self.f.clone();
        let j = self.jac.clone();
        s.name = format!("{}~", self.name);
        s.f = Arc::new(move |du, u, t| {
            f(du, u, -t);
            du.iter_mut().for_each(|x| *x = -*x);
        });
        s.jac = Arc::new(move |df, u, t| {
            j(df, u, -t);
            df.iter_mut().for_each(|x| *x = -*x);
        });
        if let Some(e) = self.exact.clone() {
            s.exact = Some(Arc::new(move |t| e(-t)));
        }
        s.t0 = -self.t0;
        s.tf = -self.tf;
        s
    }
    /// The same problem with time shifted by `d`.
    pub fn shifted(&self, d: f64) -> Spec {
        if d == 0.0 {
            return self.clone();
        }
        let mut s = self.clone();
        let f = self.f.clone();
        let j = self.jac.clone();
        s.name = format!("{}+{}", self.name, d);
        s.f = Arc::new(move |du, u, t| f(du, u, t - d));
        s.jac = Arc::new(move |df, u, t| j(df, u, t - d));
        if let Some(e) = self.exact.clone() {
            s.exact = Some(Arc::new(move |t| e(t - d)));
        }
        s.t0 += d;
        s.tf += d;
        s
    }
    pub fn dir(&self) -> f64 {
        if self.tf >= self.t0 {
            1.0
        } else {
            -1.0
        }
    }
    pub fn eval(&self, u: &[f64], t: f64) -> Vec<f64> {
        let mut du = vec![0.0; self.n];
        (self.f)(&mut du, u, t);
        du
    }
    pub fn evalj(&self, u: &[f64], t: f64) -> Vec<f64> {
        let mut d = vec![0.0; self.n * self.n];
        (self.jac)(&mut d, u, t);
        d
    }
}

#[derive(Clone, Debug, Default)]
pub struct Opt {
    pub reltol: Option<f64>,
    pub abstol: Option<f64>,
    pub dtstart: Option<f64>,
    pub dtmax: Option<f64>,
    pub max_steps: Option<usize>,
    pub beta: Option<f64>,
    pub safe: Option<f64>,
    pub facl: Option<f64>,
    pub facr: Option<f64>,
    pub dense: Option<bool>,
    pub max_stiff: Option<usize>,
    pub modern_pred: Option<bool>,
    pub use_ext_col: Option<bool>,
    pub max_newt: Option<usize>,
    pub fnewt: Option<f64>,
    pub quot1: Option<f64>,
    pub quot2: Option<f64>,
    pub hess: Option<bool>,
    pub jac: bool,
}
impl Opt {
    pub fn tol(rt: f64, at: f64) -> Opt {
        Opt { reltol: Some(rt), abstol: Some(at), jac: true, ..Default::default() }
    }
    pub fn apply<'a, P, A: OdeAlgorithm>(
        &self,
        mut b: OdeIntegratorBuilder<'a, P, A>,
    ) -> OdeIntegratorBuilder<'a, P, A> {
        if let Some(x) = self.reltol { b = b.reltol(x); }
        if let Some(x) = self.abstol { b = b.abstol(x); }
        if let Some(x) = self.dtstart { b = b.dtstart(x); }
        if let Some(x) = self.dtmax { b = b.dtmax(x); }
        if let Some(x) = self.max_steps { b = b.max_steps(x); }
        if let Some(x) = self.beta { b = b.beta(x); }
        if let Some(x) = self.safe { b = b.safe(x); }
        if let Some(x) = self.facl { b = b.facl(x); }
        if let Some(x) = self.facr { b = b.facr(x); }
        if let Some(x) = self.dense { b = b.dense(x); }
        if let Some(x) = self.max_stiff { b = b.max_stiff(x); }
        if let Some(x) = self.modern_pred { b = b.modern_pred(x); }
        if let Some(x) = self.use_ext_col { b = b.use_ext_col(x); }
        if let Some(x) = self.max_newt { b = b.max_newt_iter(x); }
        if let Some(x) = self.fnewt { b = b.fnewt(x); }
        if let Some(x) = self.quot1 { b = b.quot1(x); }
        if let Some(x) = self.quot2 { b = b.quot2(x); }
        if let Some(x) = self.hess { b = b.hess(x); }
        b
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Alg {
    Dp5,
    Radau,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Code {
    Continue,
    Success,
    MaxIters,
    DtLessThanMin,
    Stiff,
    SingularMatrix,
    Failure,
}
pub fn code(c: &OdeRetCode) -> Code {
    match *c {
        OdeRetCode::Continue => Code::Continue,
        OdeRetCode::Success => Code::Success,
        OdeRetCode::MaxIters => Code::MaxIters,
        OdeRetCode::DtLessThanMin => Code::DtLessThanMin,
        OdeRetCode::Stiff => Code::Stiff,
        OdeRetCode::SingularMatrix => Code::SingularMatrix,
        OdeRetCode::Failure => Code::Failure,
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct St {
    pub steps: usize,
    pub fevals: usize,
    pub jevals: usize,
    pub dec: usize,
    pub solves: usize,
    pub accepts: usize,
    pub rejects: usize,
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub t: f64,
    pub dt: f64,
    pub tprev: f64,
    pub dtprev: f64,
    pub u: Vec<f64>,
    pub uprev: Vec<f64>,
    pub st: St,
    pub code: Code,
    pub ret: Option<usize>,
    pub nsol: usize,
    /// length of the call log after this step
    pub ncalls: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    F,
    J,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub kind: Kind,
    pub t: f64,
    /// argument (empty unless the driver logs arguments)
    pub u: Vec<f64>,
    /// returned value (empty unless the driver logs arguments)
    pub out: Vec<f64>,
    pub finite_arg: bool,
}

#[derive(Clone)]
pub struct OptsSeen {
    pub reltol: f64,
    pub abstol: f64,
    pub fnewt: f64,
    pub dtmax: f64,
    pub beta: f64,
    pub safe: f64,
    pub facl: f64,
    pub facr: f64,
    pub quot1: f64,
    pub quot2: f64,
    pub max_newt: usize,
    pub modern_pred: bool,
    pub use_ext_col: bool,
    pub max_steps: usize,
    pub theta: f64,
}

pub struct Trace {
    /// obs[0] is the state right after build(); obs[k] after the k-th step call
    pub obs: Vec<Obs>,
    pub calls: Vec<Call>,
    pub ts: Vec<f64>,
    pub us: Vec<Vec<f64>>,
    pub tdir: f64,
    pub opts: OptsSeen,
    /// the step-call bound was hit before the integration ended
    pub cut: bool,
}
impl Trace {
    pub fn last(&self) -> &Obs {
        self.obs.last().unwrap()
    }
    pub fn code(&self) -> Code {
        self.last().code
    }
    /// indices k >= 1 of step calls that accepted a step
    pub fn accepted(&self) -> Vec<usize> {
        (1..self.obs.len()).filter(|&k| self.obs[k].nsol > self.obs[k - 1].nsol).collect()
    }
    pub fn fcalls(&self, k: usize) -> Vec<&Call> {
        let a = if k == 0 { 0 } else { self.obs[k - 1].ncalls };
        self.calls[a..self.obs[k].ncalls].iter().filter(|c| c.kind == Kind::F).collect()
    }
    pub fn brief(&self) -> String {
        let l = self.last();
        format!(
            "{:?} t={:e} u={:?} steps={} accepts={} rejects={} fevals={} jevals={} dec={} solves={}",
            l.code, l.t, l.u, l.st.steps, l.st.accepts, l.st.rejects, l.st.fevals, l.st.jevals, l.st.dec, l.st.solves
        )
    }
}

/// Environment deviation: called after the right-hand side (or Jacobian) with the
/// index of the call; may change what the integrator gets.
pub type Fault<'a> = dyn Fn(Kind, usize, f64, &[f64], &mut [f64]) + 'a;

pub struct Run<'a> {
    pub spec: &'a Spec,
    pub opt: &'a Opt,
    pub log_args: bool,
    pub fault: Option<&'a Fault<'a>>,
    pub budget: usize,
    pub max_calls: usize,
}
impl<'a> Run<'a> {
    pub fn new(spec: &'a Spec, opt: &'a Opt) -> Run<'a> {
        Run { spec, opt, log_args: false, fault: None, budget: 3_000_000, max_calls: 1_000_000 }
    }
    pub fn args(mut self) -> Self {
        self.log_args = true;
        self
    }
    pub fn fault(mut self, f: &'a Fault<'a>) -> Self {
        self.fault = Some(f);
        self
    }
    pub fn budget(mut self, n: usize) -> Self {
        self.budget = n;
        self
    }
    pub fn step_calls(mut self, n: usize) -> Self {
        self.max_calls = n;
        self
    }
    pub fn go(&self, alg: Alg) -> Trace {
        match alg {
            Alg::Dp5 => self.drive(DormandPrince5),
            Alg::Radau => self.drive(Radau5),
        }
    }
    fn drive<A: OdeAlgorithm>(&self, alg: A) -> Trace {
        let calls: RefCell<Vec<Call>> = RefCell::new(vec![]);
        let nf = Cell::new(0usize);
        let nj = Cell::new(0usize);
        let spec = self.spec;
        let n = spec.n;
        let dudt = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| {
            let i = nf.get();
            nf.set(i + 1);
            if i >= self.budget {
                panic!("more than {} right-hand-side evaluations", self.budget);
            }
            if u.len() != n || du.len() != n {
                panic!("right-hand side called with {} components to write and {} to read instead of {}", du.len(), u.len(), n);
            }
            let uu: Vec<f64> = u.iter().cloned().collect();
            let mut out = vec![0.0; du.len()];
            (spec.f)(&mut out, &uu, t);
            if let Some(f) = self.fault {
                f(Kind::F, i, t, &uu, &mut out);
            }
            for k in 0..du.len() {
                du[k] = out[k];
            }
            let fin = uu.iter().all(|x| x.is_finite());
            calls.borrow_mut().push(Call {
                kind: Kind::F,
                t,
                finite_arg: fin,
                u: if self.log_args { uu } else { vec![] },
                out: if self.log_args { out } else { vec![] },
            });
        };
        let dfdu = |mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| {
            let i = nj.get();
            nj.set(i + 1);
            if i >= self.budget {
                panic!("more than {} Jacobian evaluations", self.budget);
            }
            if u.len() != n || df.dim() != (n, n) {
                panic!("Jacobian called with {:?} entries to write and {} components to read instead of {}", df.dim(), u.len(), n);
            }
            let uu: Vec<f64> = u.iter().cloned().collect();
            let mut out = vec![0.0; n * n];
            (spec.jac)(&mut out, &uu, t);
            if let Some(f) = self.fault {
                f(Kind::J, i, t, &uu, &mut out);
            }
            for a in 0..n {
                for b in 0..n {
                    df[[a, b]] = out[a * n + b];
                }
            }
            let fin = uu.iter().all(|x| x.is_finite());
            calls.borrow_mut().push(Call { kind: Kind::J, t, u: uu, out: if self.log_args { out } else { vec![] }, finite_arg: fin });
        };
        let mut b = OdeIntegratorBuilder::default(
            &dudt,
            Array1::from(spec.u0.clone()),
            (spec.t0, spec.tf),
            alg,
            (),
        );
        if self.opt.jac {
            b = b.dfdu(&dfdu);
        }
        let mut it = self.opt.apply(b).build();
        let mut obs = vec![observe(&it, None, calls.borrow().len())];
        let mut cut = true;
        for _ in 0..self.max_calls {
            let r = it.step();
            obs.push(observe(&it, r, calls.borrow().len()));
            if it.sol.retcode != OdeRetCode::Continue {
                cut = false;
                break;
            }
        }
        let opts = opts_seen(&it.opts);
        let ts = it.sol.ts.clone();
        let us = it.sol.us.iter().map(|u| u.to_vec()).collect();
        let tdir = it.tdir;
        drop(it);
        Trace { obs, calls: calls.into_inner(), ts, us, tdir, opts, cut }
    }
}

pub fn opts_seen(o: &OdeIntegratorOpts) -> OptsSeen {
    OptsSeen {
        reltol: o.reltol,
        abstol: o.abstol,
        fnewt: o.fnewt,
        dtmax: o.dtmax,
        beta: o.beta,
        safe: o.safe,
        facl: o.facl,
        facr: o.facr,
        quot1: o.quot1,
        quot2: o.quot2,
        max_newt: o.max_newt_iter,
        modern_pred: o.modern_pred,
        use_ext_col: o.use_ext_col,
        max_steps: o.max_steps,
        theta: o.theta,
    }
}

pub fn observe<P, A: OdeAlgorithm>(
    it: &OdeIntegrator<P, A>,
    ret: Option<usize>,
    ncalls: usize,
) -> Obs {
    let s = &it.stats;
    Obs {
        t: it.t,
        dt: it.dt,
        tprev: it.tprev,
        dtprev: it.dtprev,
        u: it.u.to_vec(),
        uprev: it.uprev.to_vec(),
        st: St {
            steps: s.steps,
            fevals: s.function_evals,
            jevals: s.jacobian_evals,
            dec: s.decompositions,
            solves: s.linear_solves,
            accepts: s.accepts,
            rejects: s.rejects,
        },
        code: code(&it.sol.retcode),
        ret,
        nsol: it.sol.ts.len(),
        ncalls,
    }
}

/// Same bits (NaN equals NaN).
pub fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || x == y)
}
pub fn maxabs(a: &[f64]) -> f64 {
    a.iter().fold(0.0, |m, x| if x.is_nan() { f64::NAN } else { f64::max(m, x.abs()) })
}
