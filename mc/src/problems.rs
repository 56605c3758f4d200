//! Problem library.
use crate::core::*;
use std::sync::Arc;

fn mk(
    name: &str,
    t0: f64,
    tf: f64,
    u0: &[f64],
    linear: bool,
    f: impl Fn(&mut [f64], &[f64], f64) + Send + Sync + 'static,
    jac: impl Fn(&mut [f64], &[f64], f64) + Send + Sync + 'static,
) -> Spec {
    Spec {
        name: name.into(),
        n: u0.len(),
        f: Arc::new(f),
        jac: Arc::new(jac),
        exact: None,
        t0,
        tf,
        u0: u0.to_vec(),
        linear,
        invariants: vec![],
    }
}
impl Spec {
    fn ex(mut self, e: impl Fn(f64) -> Vec<f64> + Send + Sync + 'static) -> Spec {
        self.exact = Some(Arc::new(e));
        self
    }
    fn inv(mut self, w: &[f64]) -> Spec {
        self.invariants.push(w.to_vec());
        self
    }
    /// The same problem with time stretched by `c`.
    pub fn stretched(&self, c: f64) -> Spec {
        let mut s = self.clone();
        let (f, j) = (self.f.clone(), self.jac.clone());
        s.name = format!("{}x{:e}", self.name, c);
        s.f = Arc::new(move |d, u, t| {
            f(d, u, t / c);
            d.iter_mut().for_each(|x| *x /= c);
        });
        s.jac = Arc::new(move |d, u, t| {
            j(d, u, t / c);
            d.iter_mut().for_each(|x| *x /= c);
        });
        if let Some(e) = self.exact.clone() {
            s.exact = Some(Arc::new(move |t| e(t / c)));
        }
        s.t0 *= c;
        s.tf *= c;
        s
    }
    /// The same problem with the state measured in units of `1 / c`.
    pub fn sized(&self, c: f64) -> Spec {
        let mut s = self.clone();
        let (f, j) = (self.f.clone(), self.jac.clone());
        s.name = format!("{}*{:e}", self.name, c);
        let small = move |u: &[f64]| -> Vec<f64> { u.iter().map(|x| x / c).collect() };
        s.f = Arc::new(move |d, u, t| {
            f(d, &small(u), t);
            d.iter_mut().for_each(|x| *x *= c);
        });
        s.jac = Arc::new(move |d, u, t| j(d, &small(u), t));
        if let Some(e) = self.exact.clone() {
            s.exact = Some(Arc::new(move |t| e(t).into_iter().map(|x| x * c).collect()));
        }
        s.u0.iter_mut().for_each(|x| *x *= c);
        s
    }
    /// The same problem with a Jacobian that is off by the factor `c`.
    pub fn misjudged(&self, c: f64) -> Spec {
        let mut s = self.clone();
        let j = self.jac.clone();
        s.name = format!("{} with {} times its Jacobian", self.name, c);
        s.jac = Arc::new(move |d, u, t| {
            j(d, u, t);
            d.iter_mut().for_each(|x| *x *= c);
        });
        s
    }
    pub fn span(mut self, t0: f64, tf: f64) -> Spec {
        self.t0 = t0;
        self.tf = tf;
        self
    }
}

pub fn zero() -> Spec {
    mk("zero", 0.0, 1.0, &[1.5, -2.0], true, |d, _, _| d.fill(0.0), |j, _, _| j.fill(0.0))
        .ex(|_| vec![1.5, -2.0])
        .inv(&[1.0, 0.0])
        .inv(&[0.0, 1.0])
}
pub fn constant(c: f64) -> Spec {
    mk("const", 0.0, 1.0, &[0.25], true, move |d, _, _| d[0] = c, |j, _, _| j[0] = 0.0)
        .ex(move |t| vec![0.25 + c * t])
}
pub fn lin(l: f64, tf: f64) -> Spec {
    mk(&format!("lin{}", l), 0.0, tf, &[1.0], true, move |d, u, _| d[0] = l * u[0], move |j, _, _| j[0] = l)
        .ex(move |t| vec![(l * t).exp()])
}
/// Harmonic oscillator.
pub fn ho(w: f64, tf: f64) -> Spec {
    mk(
        &format!("ho{}", w), 0.0, tf, &[0.0, 1.0], true,
        move |d, u, _| { d[0] = u[1]; d[1] = -w * w * u[0]; },
        move |j, _, _| { j[0] = 0.0; j[1] = 1.0; j[2] = -w * w; j[3] = 0.0; },
    )
    .ex(move |t| vec![(w * t).sin() / w, (w * t).cos()])
}
/// u' = p'(t), degree-k polynomial; state independent.
pub fn poly(k: i32) -> Spec {
    mk(&format!("poly{}", k), 0.0, 1.5, &[0.5], true, move |d, _, t| d[0] = (k as f64) * t.powi(k - 1) - 0.3, |j, _, _| j[0] = 0.0)
        .ex(move |t| vec![0.5 + t.powi(k) - 0.3 * t])
}
/// Linear with time-dependent coefficient.
pub fn tlin() -> Spec {
    mk("tlin", 0.0, 2.0, &[1.0], true, |d, u, t| d[0] = -2.0 * t * u[0], |j, _, t| j[0] = -2.0 * t)
        .ex(|t| vec![(-t * t).exp()])
}
pub fn logistic() -> Spec {
    mk("logistic", 0.0, 3.0, &[0.1], false, |d, u, _| d[0] = 2.0 * u[0] * (1.0 - u[0]), |j, u, _| j[0] = 2.0 - 4.0 * u[0])
        .ex(|t| vec![0.1 * (2.0 * t).exp() / (1.0 + 0.1 * ((2.0 * t).exp() - 1.0))])
}
/// Nonlinear and time-dependent.
pub fn forced() -> Spec {
    mk("forced", 0.0, 3.0, &[0.3], false, |d, u, t| d[0] = 2.0 * u[0] * (1.0 - u[0]) + 0.5 * (3.0 * t).cos(), |j, u, _| j[0] = 2.0 - 4.0 * u[0])
}
pub fn vdp(mu: f64, tf: f64) -> Spec {
    mk(
        &format!("vdp{}", mu), 0.0, tf, &[2.0, -0.66], false,
        move |d, u, _| { d[0] = u[1]; d[1] = ((1.0 - u[0] * u[0]) * u[1] - u[0]) / mu; },
        move |j, u, _| { j[0] = 0.0; j[1] = 1.0; j[2] = -(2.0 * u[0] * u[1] + 1.0) / mu; j[3] = (1.0 - u[0] * u[0]) / mu; },
    )
}
pub fn robertson(tf: f64) -> Spec {
    mk(
        "robertson", 0.0, tf, &[1.0, 0.0, 0.0], false,
        |d, u, _| {
            let a = 0.04 * u[0];
            let b = 1e4 * u[1] * u[2];
            let c = 3e7 * u[1] * u[1];
            d[0] = -a + b; d[1] = a - b - c; d[2] = c;
        },
        |j, u, _| {
            j[0] = -0.04; j[1] = 1e4 * u[2]; j[2] = 1e4 * u[1];
            j[3] = 0.04; j[4] = -1e4 * u[2] - 6e7 * u[1]; j[5] = -1e4 * u[1];
            j[6] = 0.0; j[7] = 6e7 * u[1]; j[8] = 0.0;
        },
    )
    .inv(&[1.0, 1.0, 1.0])
}
/// Prothero-Robinson u' = -k (u - cos t) - sin t, exact cos t.
pub fn prothero(k: f64, tf: f64) -> Spec {
    mk(&format!("pr{:e}", k), 0.0, tf, &[1.0], true, move |d, u, t| d[0] = -k * (u[0] - t.cos()) - t.sin(), move |j, _, _| j[0] = -k)
        .ex(|t| vec![t.cos()])
}
/// Nonlinear Prothero-Robinson: u' = -k (u^3 - cos^3 t) - sin t.
pub fn prothero3(k: f64, tf: f64) -> Spec {
    mk(&format!("pr3{:e}", k), 0.0, tf, &[1.0], false,
        move |d, u, t| d[0] = -k * (u[0].powi(3) - t.cos().powi(3)) - t.sin(),
        move |j, u, _| j[0] = -3.0 * k * u[0] * u[0])
        .ex(|t| vec![t.cos()])
}
/// Linear system u' = M u.
pub fn linsys(name: &str, m: Vec<Vec<f64>>, u0: &[f64], tf: f64) -> Spec {
    let n = u0.len();
    let m2 = m.clone();
    mk(
        name, 0.0, tf, u0, true,
        move |d, u, _| for i in 0..n { d[i] = (0..n).map(|k| m[i][k] * u[k]).sum(); },
        move |j, _, _| for i in 0..n { for k in 0..n { j[i * n + k] = m2[i][k]; } },
    )
}
/// Linear systems whose Newton matrices need row exchanges.
pub fn pivot3() -> Spec {
    linsys("pivot3", vec![vec![30.0, -200.0, 10.0], vec![100.0, 5.0, -80.0], vec![-60.0, 90.0, -20.0]], &[1.0, -0.5, 0.25], 0.2)
}
pub fn pivot4() -> Spec {
    linsys("pivot4", vec![
        vec![-1.0, 900.0, 0.0, 3.0], vec![-900.0, -2.0, 50.0, 0.0],
        vec![0.0, -700.0, -3.0, 400.0], vec![5.0, 0.0, -600.0, -1.0]], &[1.0, 0.0, -1.0, 0.5], 0.02)
}
/// n-cycle x_i' = k (x_{i+1} - x_i), conserving the sum.
pub fn cycle(n: usize, k: f64) -> Spec {
    let m: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| {
        let mut v = 0.0;
        if j == i { v -= k * (1.0 + i as f64) }
        if (j + 1) % n == i { v += k * (1.0 + j as f64) }
        v
    }).collect()).collect();
    let u0: Vec<f64> = (0..n).map(|i| 1.0 + 0.5 * i as f64).collect();
    linsys(&format!("cycle{}k{}", n, k), m, &u0, 1.0).inv(&vec![1.0; n])
}
pub fn lotka() -> Spec {
    mk(
        "lotka", 0.0, 4.0, &[2.0, 1.0], false,
        |d, u, _| { d[0] = u[0] * (1.5 - u[1]); d[1] = u[1] * (u[0] - 3.0); },
        |j, u, _| { j[0] = 1.5 - u[1]; j[1] = -u[0]; j[2] = u[1]; j[3] = u[0] - 3.0; },
    )
}
/// Brusselator with time-dependent forcing.
pub fn brusselator() -> Spec {
    mk(
        "bruss", 0.0, 3.0, &[1.2, 2.5], false,
        |d, u, t| { let w = u[0] * u[0] * u[1]; d[0] = 1.0 + w - 4.0 * u[0] + 0.1 * t.sin(); d[1] = 3.0 * u[0] - w; },
        |j, u, _| { j[0] = 2.0 * u[0] * u[1] - 4.0; j[1] = u[0] * u[0]; j[2] = 3.0 - 2.0 * u[0] * u[1]; j[3] = -u[0] * u[0]; },
    )
}
/// A kinetics chain A+B <-> C with two linear invariants.
pub fn kinetics() -> Spec {
    mk(
        "kinetics", 0.0, 2.0, &[1.0, 0.7, 0.2], false,
        |d, u, _| { let r = 5.0 * u[0] * u[1] - 2.0 * u[2]; d[0] = -r; d[1] = -r; d[2] = r; },
        |j, u, _| {
            let (a, b, c) = (5.0 * u[1], 5.0 * u[0], -2.0);
            j[0] = -a; j[1] = -b; j[2] = -c;
            j[3] = -a; j[4] = -b; j[5] = -c;
            j[6] = a; j[7] = b; j[8] = c;
        },
    )
    .inv(&[1.0, 0.0, 1.0])
    .inv(&[0.0, 1.0, 1.0])
    .inv(&[1.0, -1.0, 0.0])
}
/// Nine coupled components with forcing.
pub fn ring9() -> Spec {
    let n = 9;
    let u0: Vec<f64> = (0..n).map(|i| 0.3 + 0.2 * (i as f64 * 1.7).sin()).collect();
    mk("ring9", 0.0, 2.0, &u0, false,
        move |d, u, t| for i in 0..n {
            d[i] = (1.0 + i as f64) * (u[(i + 1) % n] * u[(i + 4) % n] - u[i]) + (t + i as f64).cos();
        },
        move |j, u, _| {
            j.fill(0.0);
            for i in 0..n {
                let k = 1.0 + i as f64;
                j[i * n + i] -= k;
                j[i * n + (i + 1) % n] += k * u[(i + 4) % n];
                j[i * n + (i + 4) % n] += k * u[(i + 1) % n];
            }
        })
}
/// Any number of coupled components with forcing, bounded for all times.
pub fn wide(n: usize) -> Spec {
    let u0: Vec<f64> = (0..n).map(|i| 0.3 + 0.7 * (i as f64 * 1.7).sin()).collect();
    let k = |i: usize| 1.0 + (i % 9) as f64;
    mk(&format!("wide{}", n), 0.0, 2.0, &u0, false,
        move |d, u, t| for i in 0..n {
            d[i] = k(i) * (0.5 * u[(i + 1) % n].sin() * u[(i + 4) % n] - u[i]) + (t + i as f64).cos();
        },
        move |j, u, _| {
            j.fill(0.0);
            for i in 0..n {
                let (a, b) = ((i + 1) % n, (i + 4) % n);
                j[i * n + i] -= k(i);
                j[i * n + a] += 0.5 * k(i) * u[a].cos() * u[b];
                j[i * n + b] += 0.5 * k(i) * u[a].sin();
            }
        })
}
/// A large oscillation.
pub fn large() -> Spec {
    let mut s = ho(3.0, 2.0);
    s.name = "large".into();
    s.u0 = vec![0.0, 3e8];
    s.exact = None;
    s
}
/// u' = u^2, singular at t = 1.
pub fn blowup() -> Spec {
    mk("blowup", 0.0, 2.0, &[1.0], false, |d, u, _| d[0] = u[0] * u[0], |j, u, _| j[0] = 2.0 * u[0])
}
/// u' = -sqrt|u|-like kink: u' = -sign(u).
pub fn sliding() -> Spec {
    mk("sliding", 0.0, 2.0, &[0.7], false, |d, u, _| d[0] = if u[0] > 0.0 { -1.0 } else { 1.0 }, |j, _, _| j[0] = 0.0)
}
/// A fast sharp bump in time: forces rejections after easy going.
pub fn bump() -> Spec {
    mk("bump", 0.0, 2.0, &[0.0], true,
        |d, u, t| d[0] = -0.5 * u[0] + 20.0 * (-((t - 1.0) / 0.01).powi(2)).exp(),
        |j, _, _| j[0] = -0.5)
}
/// Diagonal mixture of scales, n = 5.
pub fn mixed5() -> Spec {
    linsys("mixed5", vec![
        vec![-1.0, 0.0, 0.5, 0.0, 0.0], vec![0.0, -1000.0, 0.0, 1.0, 0.0], vec![0.2, 0.0, -0.1, 0.0, 0.3],
        vec![0.0, 3.0, 0.0, -50.0, 0.0], vec![0.0, 0.0, 0.1, 0.0, -5.0]], &[1.0, 2.0, -3.0, 0.5, 4.0], 1.0)
}
/// stiff relaxation for DP5
pub fn relax() -> Spec {
    mk("relax", 0.0, 1.0, &[1.0], true, |d, u, t| d[0] = -300.0 * (u[0] - t.cos()), |j, _, _| j[0] = -300.0)
}

pub fn smooth() -> Vec<Spec> {
    vec![
        lin(-1.0, 2.0), lin(1.0, 2.0), ho(1.0, 6.0), ho(5.0, 2.0), tlin(), logistic(), poly(4), prothero(3.0, 2.0),
    ]
}
pub fn all() -> Vec<Spec> {
    vec![
        zero(), constant(-2.0), lin(-1.0, 2.0), lin(2.0, 2.0), lin(-50.0, 1.0), ho(1.0, 6.0), ho(20.0, 1.0), poly(3), poly(6),
        tlin(), logistic(), vdp(0.1, 2.0), prothero(200.0, 1.0), prothero3(100.0, 1.0), pivot3(), pivot4(), cycle(3, 2.0), cycle(6, 1.0),
        lotka(), brusselator(), kinetics(), bump(), mixed5(), relax(),
        ring9(), large(), logistic().stretched(1e-9), lotka().stretched(1e9),
    ]
}
/// Problems that only the stiff solver handles cheaply.
pub fn stiff() -> Vec<Spec> {
    vec![
        vdp(1e-3, 2.0), vdp(1e-6, 2.0), robertson(100.0), prothero(1e6, 2.0), prothero3(1e5, 2.0), lin(-1e6, 1.0), cycle(4, 1e4),
    ]
}
