//! C21, C22: difference Jacobians and dense output, through the hooks.
use crate::c_radau::collocate;
use crate::core::*;
use crate::dp5;
use crate::grid::*;
use crate::problems as pb;
use crate::rref;
use crate::util::*;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::*;
use cyphus_diffeq::radau::Radau5;
use cyphus_diffeq::verif_hooks as h;
use ndarray::prelude::*;
use std::cell::{Cell, RefCell};

// ---------------------------------------------------------------- C21
type Fun = fn(&[f64], f64, &mut [f64]);
/// f, Jacobian (row major), time derivative, bounds on second derivatives (state, time) near (u, t)
struct Rhs {
    name: &'static str,
    n: usize,
    f: Fun,
    j: fn(&[f64], f64) -> Vec<f64>,
    ft: fn(&[f64], f64) -> Vec<f64>,
    m2: fn(&[f64], f64) -> f64,
    mt: fn(&[f64], f64) -> f64,
}
fn functions() -> Vec<Rhs> {
    vec![
        Rhs { name: "linear1", n: 1, f: |u, _, d| d[0] = -3.5 * u[0], j: |_, _| vec![-3.5], ft: |_, _| vec![0.0], m2: |_, _| 0.0, mt: |_, _| 0.0 },
        Rhs { name: "square", n: 1, f: |u, _, d| d[0] = u[0] * u[0] - 2.0, j: |u, _| vec![2.0 * u[0]], ft: |_, _| vec![0.0], m2: |_, _| 2.0, mt: |_, _| 0.0 },
        Rhs { name: "sine", n: 1, f: |u, t, d| d[0] = u[0].sin() + 0.5 * t, j: |u, _| vec![u[0].cos()], ft: |_, _| vec![0.5], m2: |_, _| 1.0, mt: |_, _| 0.0 },
        Rhs { name: "wave", n: 1, f: |u, t, d| d[0] = (2.0 * t).cos() * (1.0 + u[0]), j: |_, t| vec![(2.0 * t).cos()], ft: |u, t| vec![-2.0 * (2.0 * t).sin() * (1.0 + u[0])], m2: |_, _| 0.0, mt: |u, _| 4.0 * (1.0 + u[0].abs()) },
        Rhs { name: "tsquare", n: 1, f: |u, t, d| d[0] = t * t - u[0], j: |_, _| vec![-1.0], ft: |_, t| vec![2.0 * t], m2: |_, _| 0.0, mt: |_, _| 2.0 },
        Rhs {
            name: "linear2", n: 2,
            f: |u, t, d| { d[0] = 2.0 * u[0] - 7.0 * u[1] + t; d[1] = 0.25 * u[0] + 30.0 * u[1] - 3.0 * t; },
            j: |_, _| vec![2.0, -7.0, 0.25, 30.0], ft: |_, _| vec![1.0, -3.0], m2: |_, _| 0.0, mt: |_, _| 0.0,
        },
        Rhs {
            name: "product2", n: 2,
            f: |u, t, d| { d[0] = u[0] * u[1]; d[1] = u[0] - u[1] * u[1] * t; },
            j: |u, t| vec![u[1], u[0], 1.0, -2.0 * u[1] * t], ft: |u, _| vec![0.0, -u[1] * u[1]], m2: |_, t| 2.0 * t.abs().max(0.5), mt: |_, _| 0.0,
        },
        Rhs {
            name: "mixed3", n: 3,
            f: |u, t, d| { d[0] = u[1] * u[2]; d[1] = u[0].cos() - 4.0 * u[2]; d[2] = 2.0 * u[0] - u[1] + (3.0 * t).sin(); },
            j: |u, _| vec![0.0, u[2], u[1], -u[0].sin(), 0.0, -4.0, 2.0, -1.0, 0.0],
            ft: |_, t| vec![0.0, 0.0, 3.0 * (3.0 * t).cos()], m2: |_, _| 1.0, mt: |_, _| 9.0,
        },
    ]
}
/// Step size of differences that balances truncation and rounding.
fn increment(x: f64) -> f64 {
    (f64::EPSILON * x.abs().max(1e-5)).sqrt()
}
pub fn c21(tier: Tier) -> (Meta, Vec<Family>) {
    let q = tier == Tier::Quick;
    // the largest number below a power of two: adding and subtracting an increment does not
    // give it back
    let below = 131071.99999999999;
    let mags: Vec<f64> = if q { vec![1e-9, 1e-4, 0.3, 1.0, 42.0, below] } else { vec![1e-12, 1e-9, 1e-6, 1e-4, 1e-2, 0.3, 1.0, 5.5, 42.0, 1e3, 1e5, below, 1e7] };
    let mut vals = vec![0.0];
    for m in &mags {
        vals.push(*m);
        vals.push(-m);
    }
    let mut v = vec![];
    for (fi, f) in functions().into_iter().enumerate() {
        let vals = vals.clone();
        let nv = vals.len();
        v.push(family(format!("differences-{}", f.name), (nv as u64).pow(f.n as u32 + 1), move |i, cx| {
            let mut i = i;
            let n = f.n;
            let u: Vec<f64> = (0..n).map(|_| vals[pick(&mut i, nv)]).collect();
            let t = vals[pick(&mut i, nv)];
            let log: RefCell<Vec<(Vec<f64>, f64)>> = RefCell::new(vec![]);
            let dudt = |mut du: ArrayViewMut1<f64>, x: ArrayView1<f64>, t: f64, _: &()| {
                let x = x.to_vec();
                let mut d = vec![0.0; n];
                (f.f)(&x, t, &mut d);
                du.assign(&Array1::from(d));
                log.borrow_mut().push((x, t));
            };
            let ua = Array1::from(u.clone());
            // what it starts from must not matter
            let mut df = Array2::from_elem((n, n), 12345.0);
            h::jacobian_u(&dudt, None, &mut df, &ua, t);
            cx.transitions += log.borrow().len() as u64;
            cx.traces += 1;
            let mut st = vec![fi as f64, t];
            st.extend(&u);
            cx.state(hash_f64s(21, &st));
            cx.outcome(format!("{} {} evaluations", f.name, log.borrow().len()));
            let here = format!("{} at u={:?} t={:e}", f.name, u, t);
            let mut touched = vec![false; n];
            for (x, tt) in log.borrow().iter() {
                let diff: Vec<usize> = (0..n).filter(|k| x[*k] != u[*k]).collect();
                if *tt != t || diff.len() > 1 {
                    return Err(format!("{}: evaluated at u={:?} t={:e}", here, x, tt));
                }
                for k in diff {
                    touched[k] = true;
                    if !((x[k] - u[k]).abs() <= 20.0 * increment(u[k])) {
                        return Err(format!("{}: component {} moved to {:e}", here, k, x[k]));
                    }
                }
            }
            if touched.iter().any(|x| !x) {
                return Err(format!("{}: components moved {:?}", here, touched));
            }
            let mut f0 = vec![0.0; n];
            (f.f)(&u, t, &mut f0);
            let ex = (f.j)(&u, t);
            let fscale = maxabs(&f0) + (0..n).map(|k| ex.iter().map(|x| x.abs()).fold(0.0, f64::max) * u[k].abs()).fold(0.0, f64::max) + t.abs().min(1e8);
            for a in 0..n {
                for b in 0..n {
                    let del = increment(u[b]);
                    let tol = 4.0 * (del * (f.m2)(&u, t) + f64::EPSILON * (4.0 * fscale + 4.0 * u[b].abs() * ex[a * n + b].abs()) / del) + 1e-9 * ex[a * n + b].abs();
                    let e = (df[[a, b]] - ex[a * n + b]).abs();
                    cx.metric("state derivative error / allowed", e / tol.max(1e-300));
                    if !(e <= tol) {
                        return Err(format!("{}: derivative of component {} by {} is {:e}, should be {:e} (allowed {:e})", here, a, b, df[[a, b]], ex[a * n + b], tol));
                    }
                }
            }
            // time
            log.borrow_mut().clear();
            let mut dt = Array1::from_elem(n, 12345.0);
            h::jacobian_t(&dudt, None, &mut dt, &ua, t);
            for (x, tt) in log.borrow().iter() {
                if !same(x, &u) || !((tt - t).abs() <= 20.0 * increment(t)) {
                    return Err(format!("{}: time derivative evaluated at u={:?} t={:e}", here, x, tt));
                }
            }
            let ex = (f.ft)(&u, t);
            for a in 0..n {
                let del = increment(t);
                let fs = maxabs(&f0) + fscale;
                let tol = 4.0 * (del * (f.mt)(&u, t) + f64::EPSILON * (4.0 * fs + 4.0 * t.abs() * ex[a].abs()) / del) + 1e-9 * ex[a].abs();
                let e = (dt[a] - ex[a]).abs();
                cx.metric("time derivative error / allowed", e / tol.max(1e-300));
                if !(e <= tol) {
                    return Err(format!("{}: time derivative of component {} is {:e}, should be {:e} (allowed {:e})", here, a, dt[a], ex[a], tol));
                }
            }
            // user-supplied derivatives are used as they are
            let calls = Cell::new(0);
            log.borrow_mut().clear();
            let user = |mut d: ArrayViewMut2<f64>, x: ArrayView1<f64>, tt: f64, _: &()| {
                calls.set(calls.get() + 1);
                d.iter_mut().enumerate().for_each(|(k, y)| *y = 100.0 * k as f64 + x[0] + 2.0 * tt);
            };
            h::jacobian_u(&dudt, Some(&user), &mut df, &ua, t);
            let usert = |mut d: ArrayViewMut1<f64>, x: ArrayView1<f64>, tt: f64, _: &()| {
                calls.set(calls.get() + 1);
                d.iter_mut().enumerate().for_each(|(k, y)| *y = 100.0 * k as f64 - x[0] + 2.0 * tt);
            };
            h::jacobian_t(&dudt, Some(&usert), &mut dt, &ua, t);
            let ok = df.iter().enumerate().all(|(k, y)| *y == 100.0 * k as f64 + u[0] + 2.0 * t) && dt.iter().enumerate().all(|(k, y)| *y == 100.0 * k as f64 - u[0] + 2.0 * t);
            if !ok || calls.get() != 2 || !log.borrow().is_empty() {
                return Err(format!("{}: user-supplied derivatives gave {:?} {:?} after {} calls", here, df, dt, calls.get()));
            }
            Ok(())
        }));
    }
    // linear systems, every coefficient pattern
    let cs = vec![-2.0, 0.0, 3.0];
    let us = vec![vec![0.0, 0.0], vec![1.0, -2.0], vec![-1e-3, 40.0], vec![1e4, 1e-7]];
    v.push(family("linear-systems", 81 * us.len() as u64, move |i, cx| {
        let mut i = i;
        let u = &us[pick(&mut i, us.len())];
        let m: Vec<f64> = (0..4).map(|_| cs[pick(&mut i, 3)]).collect();
        let dudt = |mut du: ArrayViewMut1<f64>, x: ArrayView1<f64>, _t: f64, _: &()| {
            du[0] = m[0] * x[0] + m[1] * x[1];
            du[1] = m[2] * x[0] + m[3] * x[1];
        };
        let mut df = Array2::from_elem((2, 2), -1.0);
        h::jacobian_u(&dudt, None, &mut df, &Array1::from(u.clone()), 0.0);
        cx.transitions += 3;
        cx.traces += 1;
        cx.state(hash_f64s(22, &[m[0], m[1], m[2], m[3], u[0], u[1]]));
        for a in 0..2 {
            for b in 0..2 {
                let tol = 64.0 * f64::EPSILON * (maxabs(u) * 3.0) / increment(u[b]) + 1e-9;
                if !((df[[a, b]] - m[2 * a + b]).abs() <= tol) {
                    return Err(format!("linear system {:?} at {:?}: {:?}", m, u, df));
                }
            }
        }
        Ok(())
    }));
    // every dimension up to a bound, components of all kinds of size at every place
    let ws = [0.0, 0.3, -0.3, 1.0, -1.0, 5.5, -42.0, 1e-4, -1e-9];
    let most = if q { 40 } else { 100 };
    v.push(family("wide", (most - 1) * ws.len() as u64, move |i, cx| {
        let mut i = i;
        let off = pick(&mut i, ws.len());
        let n = 2 + i as usize;
        let s = pb::wide(n);
        let t = 0.4;
        let u: Vec<f64> = (0..n).map(|k| ws[(k + off) % ws.len()]).collect();
        let calls = Cell::new(0u64);
        let dudt = |mut du: ArrayViewMut1<f64>, x: ArrayView1<f64>, t: f64, _: &()| {
            calls.set(calls.get() + 1);
            du.assign(&Array1::from(s.eval(&x.to_vec(), t)));
        };
        let mut df = Array2::from_elem((n, n), 12345.0);
        h::jacobian_u(&dudt, None, &mut df, &Array1::from(u.clone()), t);
        cx.transitions += calls.get();
        cx.traces += 1;
        cx.state(hash_f64s(23, &[n as f64, off as f64]));
        let ex = s.evalj(&u, t);
        for a in 0..n {
            for b in 0..n {
                let del = increment(u[b]);
                let tol = 4.0 * (del * 14.0 * 42.0 + f64::EPSILON * 2000.0 / del) + 1e-9 * ex[a * n + b].abs();
                if !((df[[a, b]] - ex[a * n + b]).abs() <= tol) {
                    return Err(format!("{} components at {:?}: derivative of component {} by {} is {:e}, should be {:e} (allowed {:e})", n, u, a, b, df[[a, b]], ex[a * n + b], tol));
                }
            }
        }
        Ok(())
    }));
    (
        Meta {
            id: "C21",
            rule: "a case is one function at one state and time from the grid of signs and magnitudes".into(),
            assumptions: vec!["the allowed error is four times the sum of the truncation and rounding errors of a one-sided difference with the increment sqrt(eps max(1e-5,|u|))".into()],
        },
        v,
    )
}

// ---------------------------------------------------------------- C22
const D: [f64; 7] = [
    -12715105075.0 / 11282082432.0,
    0.0,
    87487479700.0 / 32700410799.0,
    -10690763975.0 / 1880347072.0,
    701980252875.0 / 199316789632.0,
    -1453857185.0 / 822651844.0,
    69997945.0 / 29380423.0,
];
fn theta() -> [f64; 9] {
    [0.0, 0.03125, 0.125, 0.25, 0.5, 0.7, 0.875, 0.96875, 1.0]
}
/// Integrate with dense output on; after every accepted step hand over
/// (tprev, uprev, t, u, dense values at the positions theta).
fn walk(alg: Alg, s: &Spec, o: &Opt, limit: usize, see: &mut dyn FnMut(f64, &[f64], f64, &[f64], &[Vec<f64>], &OptsUsed) -> CaseResult) -> CaseResult {
    match alg {
        Alg::Dp5 => walk_alg(DormandPrince5, |it, t| h::dense_dp5(it, t), s, o, limit, see),
        Alg::Radau => walk_alg(Radau5, |it, t| h::dense_radau(it, t), s, o, limit, see),
    }
}
struct OptsUsed {
    reltol: f64,
    abstol: f64,
    fnewt: f64,
}
fn walk_alg<A: OdeAlgorithm>(
    alg: A,
    dense: impl Fn(&mut OdeIntegrator<(), A>, f64) -> Array1<f64>,
    s: &Spec,
    o: &Opt,
    limit: usize,
    see: &mut dyn FnMut(f64, &[f64], f64, &[f64], &[Vec<f64>], &OptsUsed) -> CaseResult,
) -> CaseResult {
    let n = s.n;
    let dudt = |mut du: ArrayViewMut1<f64>, u: ArrayView1<f64>, t: f64, _p: &()| {
        let v = s.eval(&u.to_vec(), t);
        for k in 0..n {
            du[k] = v[k];
        }
    };
    let dfdu = |mut df: ArrayViewMut2<f64>, u: ArrayView1<f64>, t: f64, _p: &()| {
        let m = s.evalj(&u.to_vec(), t);
        for a in 0..n {
            for b in 0..n {
                df[[a, b]] = m[a * n + b];
            }
        }
    };
    let mut b = OdeIntegratorBuilder::default(&dudt, Array1::from(s.u0.clone()), (s.t0, s.tf), alg, ());
    if o.jac {
        b = b.dfdu(&dfdu);
    }
    let mut it = o.apply(b).dense(true).build();
    let (mut t, mut u) = (it.t, it.u.to_vec());
    for _ in 0..limit {
        let k = it.sol.ts.len();
        it.step();
        if it.sol.ts.len() > k {
            let (t1, u1) = (it.t, it.u.to_vec());
            let ds: Vec<Vec<f64>> = theta()
                .iter()
                .map(|x| dense(&mut it, if *x == 1.0 { t1 } else { t + x * (t1 - t) }).to_vec())
                .collect();
            let ou = OptsUsed { reltol: it.opts.reltol, abstol: it.opts.abstol, fnewt: it.opts.fnewt };
            see(t, &u, t1, &u1, &ds, &ou)?;
            t = t1;
            u = u1;
        }
        if it.sol.retcode != OdeRetCode::Continue {
            break;
        }
    }
    Ok(())
}
/// Fourth-order interpolant of the Dormand-Prince stages.
fn interp_dp5(k: &[Vec<f64>], u: &[f64], u1: &[f64], hh: f64, th: f64) -> Vec<f64> {
    (0..u.len())
        .map(|i| {
            let d = u1[i] - u[i];
            let b = hh * k[0][i] - d;
            let c = d - hh * k[6][i] - b;
            let e = hh * (0..7).map(|q| D[q] * k[q][i]).sum::<f64>();
            u[i] + th * (d + (1.0 - th) * (b + th * (c + (1.0 - th) * e)))
        })
        .collect()
}
/// Polynomial through 0 and the stage values.
fn interp_radau(z: &[Vec<f64>; 3], u: &[f64], th: f64) -> Vec<f64> {
    let c = [0.0, rref::c1(), rref::c2(), 1.0];
    (0..u.len())
        .map(|i| {
            let mut v = u[i];
            for k in 1..4 {
                let mut l = 1.0;
                for m in 0..4 {
                    if m != k {
                        l *= (th - c[m]) / (c[k] - c[m]);
                    }
                }
                v += l * z[k - 1][i];
            }
            v
        })
        .collect()
}
const K: f64 = 1500.0;
fn check_steps(alg: Alg, s: &Spec, o: &Opt, desc: &str, limit: usize, stiff: bool, cx: &mut Cx) -> CaseResult {
    let mut steps = 0u64;
    let r = walk(alg, s, o, limit, &mut |t, u, t1, u1, ds, ou| {
        steps += 1;
        let hh = t1 - t;
        let mut st = vec![t, t1];
        st.extend(u1);
        cx.state(hash_f64s(alg as u64, &st));
        cx.transitions += theta().len() as u64;
        // time is rounded: positions are uncertain by eps (|t| + |t1|)
        let shaky = f64::EPSILON * (t.abs() + t1.abs()) / hh.abs();
        if shaky > 1e-6 {
            cx.ambiguous += 1;
            return Ok(());
        }
        let last = theta().len() - 1;
        match alg {
            Alg::Dp5 => {
                let x = dp5::step(s, t, u, hh, ou.reltol, ou.abstol);
                let ks = x.k.iter().map(|x| maxabs(x)).fold(0.0, f64::max);
                let sc = maxabs(u).max(maxabs(u1)) + ks * hh.abs();
                let tol = 1e-11 * sc + 64.0 * shaky * ks * hh.abs() + 1e-9 * ou.abstol;
                for (q, th) in theta().iter().enumerate() {
                    let want = if q == 0 { u.to_vec() } else if q == last { u1.to_vec() } else { interp_dp5(&x.k, u, u1, hh, *th) };
                    for i in 0..s.n {
                        if !((ds[q][i] - want[i]).abs() <= tol) {
                            return Err(format!("{}: step {:e}..{:e} at {} of the step: component {} is {:e}, interpolant {:e}", desc, t, t1, th, i, ds[q][i], want[i]));
                        }
                    }
                }
            }
            Alg::Radau => {
                let sc = maxabs(u).max(maxabs(u1)).max((0..ds.len()).map(|q| maxabs(&ds[q])).fold(0.0, f64::max).min(1e3 * maxabs(u1).max(maxabs(u))));
                let slope = sc * 64.0 * shaky * if stiff { 1e3 } else { 10.0 };
                for (q, w) in [(0, u), (last, u1)] {
                    for i in 0..s.n {
                        if !((ds[q][i] - w[i]).abs() <= 1e-11 * sc + slope) {
                            return Err(format!("{}: step {:e}..{:e}: component {} of the output at {} is {:e}, recorded {:e}", desc, t, t1, i, theta()[q], ds[q][i], w[i]));
                        }
                    }
                }
                let z = match collocate(s, t, u, hh, u1) {
                    None => {
                        cx.ambiguous += 1;
                        return Ok(());
                    }
                    Some(z) => z,
                };
                for (q, th) in theta().iter().enumerate() {
                    let want = interp_radau(&z, u, *th);
                    let rel = ((0..s.n).map(|i| ((ds[q][i] - want[i]) / (ou.abstol + ou.reltol * u[i].abs())).powi(2)).sum::<f64>() / s.n as f64).sqrt();
                    let round = 1e-9 * (sc + slope) / (ou.abstol + ou.reltol * u.iter().fold(f64::INFINITY, |m, x| m.min(x.abs())));
                    cx.metric(format!("radau: deviation from the collocation polynomial / fnewt{}", if stiff { " (stiff)" } else { "" }), (rel - round).max(0.0) / ou.fnewt);
                    // stiff problems amplify the rounding of time in the inner stages
                    if !(rel <= if stiff { 5.0 } else { K * ou.fnewt + round }) {
                        return Err(format!("{}: step {:e}..{:e} at {} of the step: {:?}, collocation polynomial {:?} ({:e} tolerance units apart)", desc, t, t1, th, ds[q], want, rel));
                    }
                }
            }
        }
        Ok(())
    });
    cx.traces += steps;
    cx.sample = Some(format!("{} -> {} steps", desc, steps));
    r
}
pub fn c22(tier: Tier) -> (Meta, Vec<Family>) {
    let mut v = vec![];
    for alg in [Alg::Dp5, Alg::Radau] {
        for (name, g) in [("grid", std_grid(alg, tier)), ("wide", wide_grid(alg, tier)), ("options", options_grid(alg, tier))] {
            v.push(family(format!("{}-{:?}", name, alg), g.count(), move |i, cx| {
                let c = g.case(i);
                let stiff = pb::stiff().iter().any(|p| c.spec.name.starts_with(&p.name));
                check_steps(alg, &c.spec, &c.opt, &c.desc, 400, stiff, cx)
            }));
        }
        // order inside the step
        let probs = vec![pb::lin(-1.0, 1.0), pb::lin(2.0, 1.0), pb::ho(1.0, 1.0), pb::tlin(), pb::logistic(), pb::prothero(3.0, 1.0)];
        let np = probs.len();
        v.push(family(format!("order-{:?}", alg), prod(&[np, 2, 3]), move |i, cx| {
            let mut i = i;
            let p = &probs[pick(&mut i, np)];
            let p = if pick(&mut i, 2) == 1 { p.mirrored() } else { p.clone() };
            let h0 = [0.2, 0.14, 0.1][pick(&mut i, 3)];
            let ex = p.exact.clone().unwrap();
            let mut errs = vec![];
            for k in 0..3 {
                let hh = h0 / 2f64.powi(k);
                let o = Opt { dtstart: Some(hh), fnewt: Some(1e-10), ..Opt::tol(1e-2, 1e-2) };
                let mut e: f64 = -1.0;
                walk(alg, &p, &o, 1, &mut |t, u, t1, _, ds, _| {
                    if ((t1 - t).abs() - hh).abs() > 1e-12 || !same(u, &p.u0) {
                        return Ok(());
                    }
                    e = 0.0;
                    for (q, th) in theta().iter().enumerate() {
                        let w = ex(t + th * (t1 - t));
                        e = e.max((0..p.n).map(|i| (ds[q][i] - w[i]).abs()).fold(0.0, f64::max));
                    }
                    Ok(())
                })?;
                cx.transitions += theta().len() as u64;
                cx.traces += 1;
                cx.state(hash_f64s(7 + alg as u64, &[i as f64, hh, p.u0[0], p.tf]));
                errs.push(e);
            }
            for k in 0..2 {
                if errs[k] < 0.0 || errs[k + 1] < 0.0 {
                    cx.ambiguous += 1;
                    continue;
                }
                let r = (errs[k] + 1e-16) / (errs[k + 1] + 1e-15);
                cx.metric(format!("{:?} worst 1/ratio of the errors of h and h/2", alg), 1.0 / r);
                // third order: local error h^4, ratio 16
                if errs[k + 1] > 1e-11 && r < 9.0 {
                    return Err(format!("{:?} {}: largest error in a step of {:e} is {:e}, of half of it {:e}", alg, p.name, h0 / 2f64.powi(k as i32), errs[k], errs[k + 1]));
                }
            }
            Ok(())
        }));
    }
    (
        Meta {
            id: "C22",
            rule: "a case is one integration with dense output evaluated at nine positions of every accepted step (up to 400 steps), or one triple of first steps".into(),
            assumptions: vec!["steps so short that time is rounded at the 1e-6 level of the step are counted as ambiguous".into()],
        },
        v,
    )
}
