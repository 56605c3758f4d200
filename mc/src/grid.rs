//! Option grids: complete cross products, decoded from a case index.
use crate::core::*;
use crate::problems as pb;
use crate::util::*;
use std::sync::Arc;

#[derive(Clone)]
pub struct Grid {
    pub alg: Alg,
    pub probs: Vec<Spec>,
    pub mirror: Vec<bool>,
    pub shifts: Vec<f64>,
    pub tols: Vec<(f64, f64)>,
    pub dtstarts: Vec<Option<f64>>,
    pub dtmaxs: Vec<Option<f64>>,
    pub vars: Vec<(&'static str, Opt)>,
}
pub struct Case {
    pub spec: Spec,
    pub opt: Opt,
    pub desc: String,
    pub var: &'static str,
}
impl Grid {
    pub fn count(&self) -> u64 {
        prod(&[
            self.probs.len(),
            self.mirror.len(),
            self.shifts.len(),
            self.tols.len(),
            self.dtstarts.len(),
            self.dtmaxs.len(),
            self.vars.len(),
        ])
    }
    pub fn case(&self, i: u64) -> Case {
        let mut i = i;
        let p = &self.probs[pick(&mut i, self.probs.len())];
        let m = self.mirror[pick(&mut i, self.mirror.len())];
        let sh = self.shifts[pick(&mut i, self.shifts.len())];
        let (rt, at) = self.tols[pick(&mut i, self.tols.len())];
        let ds = self.dtstarts[pick(&mut i, self.dtstarts.len())];
        let dm = self.dtmaxs[pick(&mut i, self.dtmaxs.len())];
        let (vn, v) = &self.vars[pick(&mut i, self.vars.len())];
        let mut spec = if m { p.mirrored() } else { p.clone() };
        let w = (spec.tf - spec.t0).abs();
        // (the automatic first step must stay above the resolution of time)
        spec = spec.shifted(if w < 1e-2 { sh * w } else if w > 1e4 { 1e-3 * sh.min(40.0) * w } else { sh });
        let mut opt = v.clone();
        opt.reltol = Some(rt);
        opt.abstol = Some(at);
        opt.dtstart = ds;
        // dtmax is given as a fraction of the time span
        opt.dtmax = dm.map(|x| x * (spec.tf - spec.t0).abs());
        let desc = format!(
            "{:?} {} tol=({:e},{:e}) dtstart={:?} dtmax={:?} {}",
            self.alg, spec.name, rt, at, ds, opt.dtmax, vn
        );
        Case { spec, opt, desc, var: vn }
    }
}

pub fn dp5_vars() -> Vec<(&'static str, Opt)> {
    let d = || Opt { jac: true, ..Default::default() };
    vec![
        ("default", d()),
        ("beta0", Opt { beta: Some(0.0), ..d() }),
        ("beta.1", Opt { beta: Some(0.1), ..d() }),
        ("fac", Opt { facl: Some(0.5), facr: Some(2.0), ..d() }),
        ("safe", Opt { safe: Some(0.5), ..d() }),
        ("stiff1", Opt { max_stiff: Some(1), ..d() }),
        ("stiff0", Opt { max_stiff: Some(0), ..d() }),
        ("stiff7", Opt { max_stiff: Some(7), dense: Some(true), ..d() }),
    ]
}
pub fn radau_vars() -> Vec<(&'static str, Opt)> {
    let d = || Opt { jac: true, ..Default::default() };
    vec![
        ("default", d()),
        ("fdjac", Opt { jac: false, ..d() }),
        ("noext", Opt { use_ext_col: Some(false), ..d() }),
        ("classic", Opt { modern_pred: Some(false), ..d() }),
        ("newt3", Opt { max_newt: Some(3), ..d() }),
        ("newt10", Opt { max_newt: Some(10), ..d() }),
        ("fnewt", Opt { fnewt: Some(1e-5), ..d() }),
        ("hold", Opt { quot1: Some(0.9), quot2: Some(4.0), ..d() }),
        ("nohold", Opt { quot1: Some(1.0), quot2: Some(1.0), ..d() }),
        ("fac", Opt { facr: Some(0.5), facl: Some(2.0), ..d() }),
        ("safe", Opt { safe: Some(0.5), dense: Some(true), ..d() }),
    ]
}
pub fn vars(alg: Alg) -> Vec<(&'static str, Opt)> {
    match alg {
        Alg::Dp5 => dp5_vars(),
        Alg::Radau => radau_vars(),
    }
}

/// The standard grid of a method.
pub fn std_grid(alg: Alg, tier: Tier) -> Grid {
    let mut probs = pb::all();
    if alg == Alg::Radau {
        probs.extend(pb::stiff());
    }
    let q = tier == Tier::Quick;
    Grid {
        alg,
        probs,
        mirror: vec![false, true],
        shifts: if q { vec![0.0, 37.0] } else { vec![0.0, -3.7, 37.0, 1000.0] },
        tols: if q {
            vec![(1e-3, 1e-6), (1e-7, 1e-9)]
        } else {
            vec![(1e-2, 1e-4), (1e-3, 1e-6), (1e-5, 1e-3), (1e-5, 1e-10), (1e-7, 1e-9), (1e-9, 1e-11)]
        },
        dtstarts: if q {
            vec![None, Some(0.3), Some(1e3)]
        } else {
            vec![None, Some(1e-4), Some(1e-2), Some(0.3), Some(5.0), Some(1e3)]
        },
        dtmaxs: if q { vec![None, Some(0.05)] } else { vec![None, Some(0.3), Some(0.05)] },
        vars: vars(alg),
    }
}
/// More steps than the counters of the methods usually see (stiffness tests every 1000 steps).
pub fn long_grid(alg: Alg, tier: Tier) -> Grid {
    let mut probs = vec![pb::ho(1.0, 6.0), pb::logistic(), pb::ring9()];
    if alg == Alg::Dp5 {
        probs.push(pb::relax().span(0.0, 30.0));
    }
    let mut vars = vars(alg);
    vars.retain(|x| ["default", "beta0", "stiff7", "fdjac", "classic", "hold"].contains(&x.0));
    Grid {
        alg,
        probs,
        mirror: vec![false, true],
        shifts: vec![0.0],
        tols: vec![(1e-3, 1e-6)],
        dtstarts: vec![None],
        dtmaxs: if tier == Tier::Quick { vec![Some(1.0 / 1300.0)] } else { vec![Some(1.0 / 1300.0), Some(1.0 / 5000.0)] },
        vars,
    }
}
/// Every dimension up to a bound.
pub fn wide_grid(alg: Alg, tier: Tier) -> Grid {
    let mut vars = vars(alg);
    vars.retain(|x| ["default", "stiff7", "fdjac", "safe"].contains(&x.0));
    let q = tier == Tier::Quick;
    let mut ns: Vec<usize> = (2..if q { 21 } else { 49 }).collect();
    ns.extend(if q { vec![32, 33, 40] } else { vec![64, 65, 100] });
    Grid {
        alg,
        probs: ns.into_iter().map(pb::wide).collect(),
        mirror: vec![false, true],
        shifts: vec![0.0],
        tols: if q { vec![(1e-3, 1e-6)] } else { vec![(1e-3, 1e-6), (1e-6, 1e-9)] },
        dtstarts: vec![None, Some(0.7)],
        dtmaxs: vec![None],
        vars,
    }
}
/// Tolerances close to the working precision.
pub fn tight_grid(alg: Alg, tier: Tier) -> Grid {
    let mut vars = vars(alg);
    vars.retain(|x| ["default", "beta0", "fdjac", "classic"].contains(&x.0));
    Grid {
        alg,
        probs: vec![pb::lin(-1.0, 2.0), pb::ho(5.0, 2.0), pb::logistic(), pb::lotka(), pb::ring9(), pb::forced()],
        mirror: vec![false, true],
        shifts: vec![0.0],
        tols: if tier == Tier::Quick { vec![(1e-11, 1e-12)] } else { vec![(1e-10, 1e-20), (1e-11, 1e-12), (1e-12, 1e-13)] },
        dtstarts: vec![None, Some(0.1)],
        dtmaxs: vec![None],
        vars,
    }
}
/// Every combination of the options of a method.
pub fn options_grid(alg: Alg, tier: Tier) -> Grid {
    let q = tier == Tier::Quick;
    let d = Opt { jac: true, ..Default::default() };
    let mut vars: Vec<(String, Opt)> = vec![("options".into(), d.clone())];
    // one option after the other: as it is, or set
    let cross = |vars: Vec<(String, Opt)>, values: Vec<(&str, Box<dyn Fn(&mut Opt)>)>| -> Vec<(String, Opt)> {
        let mut all = vars.clone();
        for (name, set) in &values {
            for (n, o) in &vars {
                let mut o = o.clone();
                set(&mut o);
                all.push((format!("{} {}", n, name), o));
            }
        }
        all
    };
    vars = cross(vars, vec![("safe.6", Box::new(|o| o.safe = Some(0.6)))]);
    vars = cross(vars, vec![("dense", Box::new(|o| o.dense = Some(true)))]);
    match alg {
        Alg::Dp5 => {
            vars = cross(vars, vec![("beta0", Box::new(|o| o.beta = Some(0.0))), ("beta.1", Box::new(|o| o.beta = Some(0.1)))]);
            vars = cross(vars, vec![("facl.5", Box::new(|o| o.facl = Some(0.5)))]);
            vars = cross(vars, vec![("facr2", Box::new(|o| o.facr = Some(2.0)))]);
            vars = cross(vars, vec![("stiff0", Box::new(|o| o.max_stiff = Some(0))), ("stiff1", Box::new(|o| o.max_stiff = Some(1)))]);
        }
        Alg::Radau => {
            vars = cross(vars, vec![("facl2", Box::new(|o| o.facl = Some(2.0)))]);
            vars = cross(vars, vec![("facr.5", Box::new(|o| o.facr = Some(0.5)))]);
            vars = cross(vars, vec![("fdjac", Box::new(|o| o.jac = false))]);
            vars = cross(vars, vec![("noext", Box::new(|o| o.use_ext_col = Some(false)))]);
            vars = cross(vars, vec![("classic", Box::new(|o| o.modern_pred = Some(false)))]);
            vars = cross(vars, vec![("newt4", Box::new(|o| o.max_newt = Some(4)))]);
            vars = cross(vars, vec![("fnewt", Box::new(|o| o.fnewt = Some(1e-4)))]);
            vars = cross(vars, vec![("hold", Box::new(|o| {
                o.quot1 = Some(0.9);
                o.quot2 = Some(1.8);
            }))]);
        }
    }
    Grid {
        alg,
        probs: if q { vec![pb::logistic(), pb::forced(), pb::vdp(5.0, 4.0)] } else { vec![pb::logistic(), pb::forced(), pb::vdp(5.0, 4.0), pb::lotka(), pb::ho(5.0, 2.0), pb::mixed5()] },
        mirror: vec![false, true],
        shifts: vec![0.0],
        tols: if q { vec![(1e-4, 1e-5)] } else { vec![(1e-2, 1e-4), (1e-4, 1e-5), (1e-7, 1e-7)] },
        dtstarts: if q { vec![Some(0.3)] } else { vec![None, Some(0.3), Some(10.0)] },
        dtmaxs: vec![None, Some(0.06)],
        vars: vars.into_iter().map(|(n, o)| (&*Box::leak(n.into_boxed_str()), o)).collect(),
    }
}
/// States far from one, with tolerances to match.
pub fn tiny_grid(alg: Alg, tier: Tier) -> Grid {
    let mut vars = vars(alg);
    vars.retain(|x| ["default", "beta0", "classic", "noext"].contains(&x.0));
    let c = 1e-12;
    Grid {
        alg,
        probs: vec![pb::logistic().sized(c), pb::lotka().sized(c), pb::lin(-1.0, 2.0).sized(c), pb::relax().sized(c)],
        mirror: vec![false, true],
        shifts: vec![0.0],
        tols: vec![(1e-3, 1e-18), (1e-6, 0.0), (1e-5, 1e-3 * c)],
        dtstarts: if tier == Tier::Quick { vec![None, Some(0.3)] } else { vec![None, Some(1e-4), Some(0.3), Some(5.0)] },
        dtmaxs: vec![None],
        vars,
    }
}
/// A smaller grid for checks that run each case many times.
pub fn small_grid(alg: Alg, tier: Tier) -> Grid {
    let mut g = std_grid(alg, tier);
    g.shifts = vec![0.0, -3.7];
    g.tols = vec![(1e-3, 1e-6), (1e-6, 1e-8)];
    g.dtstarts = vec![None, Some(0.3)];
    if tier == Tier::Quick {
        g.dtmaxs = vec![None];
    }
    g
}

/// Piecewise-constant right-hand sides: every table of `vals` over nt x nu cells.
#[derive(Clone)]
pub struct Cells {
    pub nt: usize,
    pub nu: usize,
    pub vals: Vec<f64>,
    pub t0: f64,
    pub tf: f64,
    pub u0: f64,
    pub uw: f64,
}
impl Cells {
    pub fn count(&self) -> u64 {
        (self.vals.len() as u64).pow((self.nt * self.nu) as u32)
    }
    pub fn table(&self, i: u64) -> Vec<f64> {
        let mut i = i;
        (0..self.nt * self.nu).map(|_| self.vals[pick(&mut i, self.vals.len())]).collect()
    }
    fn cell(&self, t: f64, u: f64) -> usize {
        let x = (t - self.t0) / (self.tf - self.t0) * self.nt as f64;
        let a = (x.max(0.0) as usize).min(self.nt - 1);
        // nu cells split at -(nu/2-1).. steps of uw around zero
        let y = u / self.uw + self.nu as f64 / 2.0;
        let b = (y.max(0.0) as usize).min(self.nu - 1);
        a * self.nu + b
    }
    /// distance of (t, u) from the closest cell boundary
    pub fn near(&self, t: f64, u: f64) -> bool {
        let x = (t - self.t0) / (self.tf - self.t0) * self.nt as f64;
        let y = u / self.uw + self.nu as f64 / 2.0;
        (x - x.round()).abs() < 1e-8 && x.round() > 0.5 && x.round() < self.nt as f64 - 0.5
            || (y - y.round()).abs() < 1e-8 && y.round() > 0.5 && y.round() < self.nu as f64 - 0.5
    }
    pub fn spec(&self, i: u64) -> Spec {
        let tab = self.table(i);
        let me = self.clone();
        Spec {
            name: format!("cells{:?}", tab),
            n: 1,
            f: Arc::new(move |d, u, t| d[0] = tab[me.cell(t, u[0])]),
            jac: Arc::new(|j, _, _| j[0] = 0.0),
            exact: None,
            t0: self.t0,
            tf: self.tf,
            u0: vec![self.u0],
            linear: false,
            invariants: vec![],
        }
    }
}
