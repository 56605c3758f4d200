//! Reference Dormand-Prince 5(4) step, error norm and controller.
use crate::core::*;

pub const C: [f64; 7] = [0.0, 1.0 / 5.0, 3.0 / 10.0, 4.0 / 5.0, 8.0 / 9.0, 1.0, 1.0];
pub const A: [[f64; 6]; 7] = [
    [0.0; 6],
    [1.0 / 5.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [3.0 / 40.0, 9.0 / 40.0, 0.0, 0.0, 0.0, 0.0],
    [44.0 / 45.0, -56.0 / 15.0, 32.0 / 9.0, 0.0, 0.0, 0.0],
    [19372.0 / 6561.0, -25360.0 / 2187.0, 64448.0 / 6561.0, -212.0 / 729.0, 0.0, 0.0],
    [9017.0 / 3168.0, -355.0 / 33.0, 46732.0 / 5247.0, 49.0 / 176.0, -5103.0 / 18656.0, 0.0],
    [35.0 / 384.0, 0.0, 500.0 / 1113.0, 125.0 / 192.0, -2187.0 / 6784.0, 11.0 / 84.0],
];
pub const E: [f64; 7] = [
    71.0 / 57600.0,
    0.0,
    -71.0 / 16695.0,
    71.0 / 1920.0,
    -17253.0 / 339200.0,
    22.0 / 525.0,
    -1.0 / 40.0,
];

pub struct Step {
    pub k: Vec<Vec<f64>>,
    pub unew: Vec<f64>,
    /// scale of the rounding error of each component of unew
    pub unoise: Vec<f64>,
    pub err: f64,
    /// scaled error vector
    pub evec: Vec<f64>,
    /// half-width of the interval in which rounding may put the error norm
    pub enoise: f64,
}

/// One attempted step from (t, u) with size h, with an estimate of how far rounding in
/// the arguments and results of the right-hand side can move the error norm.
pub fn step(s: &Spec, t: f64, u: &[f64], h: f64, rt: f64, at: f64) -> Step {
    let mut a = step0(s, t, u, h, rt, at, 0.0);
    let b = step0(s, t, u, h, rt, at, 2.0 * f64::EPSILON);
    let d = a.evec.iter().zip(&b.evec).map(|(x, y)| (x - y).powi(2)).sum::<f64>();
    let d = (d / s.n as f64).sqrt();
    if d.is_finite() {
        a.enoise += 4.0 * d;
    }
    a
}
fn step0(s: &Spec, t: f64, u: &[f64], h: f64, rt: f64, at: f64, pert: f64) -> Step {
    let n = s.n;
    let mut k: Vec<Vec<f64>> = vec![];
    let mut y = vec![0.0; n];
    for i in 0..7 {
        if i == 0 {
            let up: Vec<f64> = u.iter().map(|x| x * (1.0 + pert)).collect();
            k.push(s.eval(&up, t * (1.0 + pert)));
            continue;
        }
        for c in 0..n {
            let mut a = 0.0;
            for j in 0..i {
                if A[i][j] != 0.0 {
                    a += A[i][j] * k[j][c];
                }
            }
            y[c] = u[c] + h * a;
        }
        let ti = if i >= 5 { t + h } else { t + C[i] * h };
        let sg = if i % 2 == 0 { pert } else { -pert };
        let yp: Vec<f64> = y.iter().map(|x| x * (1.0 - sg)).collect();
        k.push(s.eval(&yp, ti * (1.0 + sg)));
    }
    let unew = y;
    let mut evec = vec![0.0; n];
    let mut sum = 0.0;
    let mut noise = 0.0;
    let mut unoise = vec![0.0; n];
    for c in 0..n {
        let mut e = 0.0;
        let mut m = 0.0;
        let mut un = 0.0;
        for i in 0..7 {
            if E[i] != 0.0 {
                e += E[i] * k[i][c];
                m += (E[i] * k[i][c]).abs();
            }
            if i < 6 {
                un += (A[6][i] * k[i][c]).abs();
            }
        }
        let sk = at + rt * u[c].abs().max(unew[c].abs());
        evec[c] = h * e / sk;
        sum += evec[c].powi(2);
        noise += (h * m / sk).powi(2);
        unoise[c] = u[c].abs() + h.abs() * un;
    }
    let err = (sum / n as f64).sqrt();
    let enoise = 1e-14 * (noise / n as f64).sqrt();
    Step { k, unew, unoise, err, evec, enoise }
}

#[derive(Clone, Copy, Debug)]
pub struct Ctl {
    pub beta: f64,
    pub safe: f64,
    pub facl: f64,
    pub facr: f64,
    pub dtmax: f64,
}
impl Ctl {
    pub fn of(o: &OptsSeen) -> Ctl {
        Ctl { beta: o.beta, safe: o.safe, facl: o.facl, facr: o.facr, dtmax: o.dtmax }
    }
    /// |dt| after an accepted step of size |h|.
    pub fn accepted(&self, h: f64, err: f64, errold: f64, after_reject: bool) -> f64 {
        let expo = 0.2 - 0.75 * self.beta;
        let ratio = self.safe * errold.powf(self.beta) / err.powf(expo);
        let ratio = if ratio.is_nan() { self.facr } else { ratio.max(self.facl).min(self.facr) };
        let mut d = (h.abs() * ratio).min(self.dtmax);
        if after_reject {
            d = d.min(h.abs());
        }
        d
    }
    /// |dt| after a rejected attempt of size |h|.
    pub fn rejected(&self, h: f64, err: f64) -> f64 {
        let expo = 0.2 - 0.75 * self.beta;
        let r = self.safe / err.powf(expo);
        let r = if r.is_nan() { self.facl } else { r.max(self.facl) };
        h.abs() * r
    }
}

/// One attempted step seen in a trace.
pub struct Attempt {
    pub t: f64,
    pub h: f64,
    /// relative uncertainty of h (it is reconstructed from evaluation times)
    pub hrel: f64,
    pub accepted: bool,
    /// |h| prescribed by the integrator's own dt for the first attempt of a step
    pub first_of_step: bool,
}

/// Attempts made by the k-th step call, from the evaluation times (6 per attempt, the
/// last one at the end of the attempted step). None if the pattern is different.
pub fn attempts(tr: &Trace, k: usize) -> Option<Vec<Attempt>> {
    let fc = tr.fcalls(k);
    if fc.len() % 6 != 0 {
        return None;
    }
    let t = tr.obs[k - 1].t;
    let acc = tr.obs[k].nsol > tr.obs[k - 1].nsol;
    let na = fc.len() / 6;
    let mut v = vec![];
    for a in 0..na {
        let te = fc[6 * a..6 * a + 6]
            .iter()
            .map(|c| c.t)
            .fold(t, |m, x| if (x - m) * tr.tdir > 0.0 { x } else { m });
        let h = te - t;
        let hrel = if h == 0.0 { 1.0 } else { 2.0 * f64::EPSILON * (t.abs() + te.abs()) / h.abs() };
        v.push(Attempt { t, h, hrel, accepted: acc && a + 1 == na, first_of_step: a == 0 });
    }
    Some(v)
}
