//! Small, closed-form components: C15 (minimum probability), C22 (weight table), C23 (losses),
//! C26 (metrics), C03 (sequential pool histories).
use approx::AbsDiffEq;
use crate::common::*;
use crate::ensure;
use reductionml_core::dense_weights::{DenseWeights, DenseWeightsWithNDArray};
use reductionml_core::explore::enforce_min_prob;
use reductionml_core::loss_function::{LogisticLoss, LossFunction, LossFunctionImpl, SquaredLoss};
use reductionml_core::metrics::{get_metric, Metric, MetricValue};
use reductionml_core::object_pool::Pool;
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use reductionml_core::weights::Weights;
use reductionml_core::{
    ActionProbsPrediction, CBAdfFeatures, CBLabel, FeatureIndex, Features, Label, ModelIndex, NamespaceHash, Prediction,
    ScalarPrediction, SimpleLabel, StateIndex,
};
use std::cell::Cell;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- C15

/// Reference: the unique tau with sum over the support of max(p - tau, m) = 1, by bisection in f64.
pub fn reference_min_prob(eps: f64, zeros: bool, p: &[f64]) -> Vec<f64> {
    if eps == 0.0 {
        return p.to_vec();
    }
    let sup: Vec<usize> = (0..p.len()).filter(|&i| zeros || p[i] > 0.0).collect();
    let m = eps / sup.len() as f64;
    let f = |tau: f64| sup.iter().map(|&i| (p[i] - tau).max(m)).sum::<f64>();
    // the projection never raises an entry that is above the minimum unless the input sums to less than one
    let (mut lo, mut hi) = (-2.0, 2.0);
    for _ in 0..200 {
        let mid = 0.5 * (lo + hi);
        if f(mid) > 1.0 {
            lo = mid
        } else {
            hi = mid
        }
    }
    let mut q = p.to_vec();
    for &i in &sup {
        q[i] = (p[i] - lo).max(m);
    }
    q
}

pub fn check_min_prob(eps: f32, zeros: bool, p: &[f32], ids: &[usize], tol: f64) -> Result<Vec<f32>, String> {
    let mut e: Vec<(usize, f32)> = ids.iter().cloned().zip(p.iter().cloned()).collect();
    let r = guarded(|| enforce_min_prob(eps, zeros, &mut e))?;
    ensure!(r.is_ok(), "rejected valid input eps={eps} p={p:?}: {r:?}");
    let q: Vec<f32> = e.iter().map(|x| x.1).collect();
    let what = || format!("eps={eps} zeros={zeros} p={p:?} -> {q:?}");
    ensure!(e.iter().map(|x| x.0).eq(ids.iter().cloned()), "action ids moved: {:?}", e);
    if eps == 0.0 {
        ensure!(q.iter().zip(p).all(|(a, b)| a.to_bits() == b.to_bits()), "level zero changed something: {}", what());
        return Ok(q);
    }
    let sup = p.iter().filter(|x| zeros || **x > 0.0).count();
    let m = eps as f64 / sup as f64;
    let sum: f64 = q.iter().map(|x| *x as f64).sum();
    ensure!((sum - 1.0).abs() < tol, "does not sum to one ({sum}): {}", what());
    for i in 0..p.len() {
        ensure!(q[i].is_finite() && q[i] >= 0.0, "not a probability: {}", what());
        if zeros || p[i] > 0.0 {
            ensure!(q[i] as f64 >= m - 1e-6, "below the minimum {m}: {}", what());
        } else {
            ensure!(q[i] == 0.0, "zero entry raised: {}", what());
        }
        for j in 0..p.len() {
            if p[i] >= p[j] {
                ensure!(q[i] >= q[j] - 1e-6, "order not preserved: {}", what());
            }
        }
    }
    let want = reference_min_prob(eps as f64, zeros, &p.iter().map(|x| *x as f64).collect::<Vec<_>>());
    let t = if eps > 0.999 { 2e-3 } else { tol };
    for i in 0..p.len() {
        ensure!((q[i] as f64 - want[i]).abs() < t, "want {want:?}: {}", what());
    }
    Ok(q)
}

pub const EPSILONS: [f32; 16] =
    [0.0, 1e-4, 0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 0.99, 0.9985, 0.9995, 1.0];

pub fn c15(ctx: &Ctx) {
    let max_n = ctx.b(7, 8);
    let denoms: Vec<usize> = if ctx.quick() { vec![4, 6, 7, 10] } else { vec![4, 6, 7, 10, 13, 16] };
    ctx.bound(format!("all compositions k/D (zeros included, every order) for 1..={max_n} actions, D in {denoms:?}, {} levels, both zero treatments", EPSILONS.len()));
    ctx.explore("min-prob-grid", |c, t| {
        let n = 1 + c.choose(max_n);
        let d = *c.of(&denoms);
        let mut left = d;
        let mut p = vec![];
        for i in 0..n {
            let k = if i + 1 == n { left } else { c.choose(left + 1) };
            left -= k;
            p.push(k as f32 / d as f32);
        }
        let zeros = c.flag();
        // ids are arbitrary labels, in any order
        let ids: Vec<usize> = (0..n).map(|i| (i * 7 + 3) % 11).collect();
        for eps in EPSILONS {
            t.eval();
            let q = check_min_prob(eps, zeros, &p, &ids, 1e-4)?;
            if eps > 0.0 && q != p {
                t.distinct(&format!("{p:?}{eps}{zeros}"));
            }
            t.sample(|| format!("eps={eps} zeros={zeros} {p:?} -> {q:?}"));
        }
        Ok(())
    });
    // skewed vectors: one large entry and several tiny ones
    let tiny: Vec<f32> = vec![0.0, 1e-7, 1e-5, 1e-3, 0.01, 0.1];
    ctx.explore("min-prob-skewed", |c, t| {
        let n = 2 + c.choose(ctx.b(5, 6));
        let pos = c.choose(n);
        let mut p: Vec<f32> = (0..n).map(|_| 0.0).collect();
        let mut sum = 0.0f64;
        for (i, x) in p.iter_mut().enumerate() {
            if i != pos {
                *x = *c.of(&tiny);
                sum += *x as f64;
            }
        }
        p[pos] = (1.0 - sum) as f32;
        let zeros = c.flag();
        let ids: Vec<usize> = (0..n).collect();
        for eps in EPSILONS {
            t.eval();
            let q = check_min_prob(eps, zeros, &p, &ids, 1e-4)?;
            t.distinct(&format!("{p:?}{eps}{zeros}"));
            t.sample(|| format!("eps={eps} zeros={zeros} {p:?} -> {q:?}"));
        }
        Ok(())
    });
    ctx.explore("min-prob-many", |c, t| {
        // many actions: 1, 2, 10, 100, 1000 with the mass on `k` of them
        let n = *c.of(&[1usize, 2, 3, 10, 64, 100, 300]);
        let k = *c.of(&[1usize, 2, 3, 7, 50]);
        let zeros = c.flag();
        let eps = *c.of(&EPSILONS);
        if k > n {
            return Ok(());
        }
        let p: Vec<f32> = (0..n).map(|i| if i % (n / k) == 0 && i / (n / k) < k { 1.0 / k as f32 } else { 0.0 }).collect();
        t.eval();
        let q = check_min_prob(eps, zeros, &p, &(0..n).collect::<Vec<_>>(), 1e-3)?;
        t.distinct(&(n, k, zeros, eps.to_bits()));
        t.sample(|| format!("n={n} k={k} eps={eps} zeros={zeros} -> first {:?}", q[0]));
        Ok(())
    });
    let bad = [-0.1f32, -1e-6, 1.0001, 2.0, f32::INFINITY, f32::NEG_INFINITY];
    ctx.explore("min-prob-invalid", |c, t| {
        let n = c.choose(4);
        let zeros = c.flag();
        t.eval();
        if n == 0 {
            let eps = *c.of(&EPSILONS);
            let mut e: Vec<(usize, f32)> = vec![];
            let r = guarded(|| enforce_min_prob(eps, zeros, &mut e))?;
            ensure!(r.is_err(), "empty vector accepted, eps={eps}");
            t.distinct(&(eps.to_bits(), zeros));
            return Ok(());
        }
        let eps = *c.of(&bad);
        let mut e: Vec<(usize, f32)> = (0..n).map(|i| (i, 1.0 / n as f32)).collect();
        let r = guarded(|| enforce_min_prob(eps, zeros, &mut e))?;
        ensure!(r.is_err(), "invalid level {eps} accepted for {n} actions");
        t.distinct(&(eps.to_bits(), zeros, n));
        Ok(())
    });
}

// ---------------------------------------------------------------- C22

fn dw_get(w: &DenseWeights, f: u32, m: u8) -> Vec<f32> {
    w.state_at(FeatureIndex::from(f), ModelIndex::from(m)).to_vec()
}

pub fn roundtrips(w: &DenseWeights) -> Result<(), String> {
    let j = serde_json::to_string(w).map_err(|e| format!("serialise: {e}"))?;
    let b: DenseWeights = serde_json::from_str(&j).map_err(|e| format!("deserialise: {e}"))?;
    ensure!(&b == w, "sparse JSON form does not restore the table");
    let mut s = flexbuffers::FlexbufferSerializer::new();
    serde::Serialize::serialize(w, &mut s).map_err(|e| format!("serialise: {e}"))?;
    let buf = s.take_buffer();
    let r = flexbuffers::Reader::get_root(&buf[..]).map_err(|e| format!("{e}"))?;
    let b: DenseWeights = serde::Deserialize::deserialize(r).map_err(|e| format!("deserialise: {e}"))?;
    ensure!(&b == w, "binary form does not restore the table");
    let nd = DenseWeightsWithNDArray::from_dense_weights(w.clone());
    ensure!(&nd.to_dense_weights() == w, "nested form does not restore the table");
    let j = serde_json::to_string(&nd).map_err(|e| format!("serialise: {e}"))?;
    let b: DenseWeightsWithNDArray = serde_json::from_str(&j).map_err(|e| format!("deserialise nested: {e}"))?;
    ensure!(&b.to_dense_weights() == w, "nested JSON form does not restore the table");
    Ok(())
}

pub fn c22(ctx: &Ctx) {
    let fs: Vec<u32> = if ctx.quick() { vec![1, 2, 3, 4, 5, 7, 8] } else { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17] };
    let max_m = ctx.b(5, 9) as u8;
    let max_s = ctx.b(7, 9) as u8;
    ctx.bound(format!("feature counts {fs:?} x 1..={max_m} models x 1..={max_s} states: every slot, every ordered pair of written slots"));
    ctx.explore("weights-pairs", |c, t| {
        let nf = *c.of(&fs);
        let nm = 1 + c.choose(max_m as usize) as u8;
        let ns = 1 + c.choose(max_s as usize) as u8;
        let slots: Vec<(u32, u8, u8)> = (0..nf).flat_map(|f| (0..nm).flat_map(move |m| (0..ns).map(move |s| (f, m, s)))).collect();
        let a = c.choose(slots.len());
        let new = || DenseWeights::new(nf.into(), ModelIndex::from(nm), StateIndex::from(ns)).map_err(|e| format!("{e}"));
        let mut w = new()?;
        let (f, m, s) = slots[a];
        w.state_at_mut(f.into(), m.into())[s as usize] = 1.5;
        for (i, &(f, m, s)) in slots.iter().enumerate() {
            let st = dw_get(&w, f, m);
            ensure!(st.len() == ns as usize, "state slice of length {} instead of {ns}", st.len());
            ensure!(st[s as usize] == if i == a { 1.5 } else { 0.0 }, "writing slot {:?} of {nf}x{nm}x{ns} changed slot {:?}", slots[a], (f, m, s));
            ensure!(w.weight_at(f.into(), m.into()) == st[0], "weight_at differs from state 0 at {:?}", (f, m));
        }
        roundtrips(&w)?;
        ensure!(w.abs_diff_eq(&w.clone(), 1e-6), "a table differs from its copy");
        if a == 0 {
            // tables of different shapes are different, whatever they hold
            for (nf2, nm2, ns2) in [(nf + 1, nm, ns), (2 * nf, nm, ns), (nf, nm + 1, ns), (nf, 2 * nm, ns), (nf, nm, ns + 1), (nf, nm, 2 * ns), (ns as u32, nm, nf as u8), (nf, ns, nm)] {
                if (nf, nm, ns) == (nf2, nm2, ns2) {
                    continue;
                }
                let o = DenseWeights::new(nf2.into(), ModelIndex::from(nm2), StateIndex::from(ns2)).map_err(|e| format!("{e}"))?;
                let z = new()?;
                ensure!(z != o && o != z && !z.abs_diff_eq(&o, 1e-6) && !o.abs_diff_eq(&z, 1e-6), "{nf}x{nm}x{ns} equals {nf2}x{nm2}x{ns2}");
            }
        }
        for b in 0..slots.len() {
            t.eval();
            let mut w2 = w.clone();
            let (f2, m2, s2) = slots[b];
            if s2 == 0 {
                *w2.weight_at_mut(f2.into(), m2.into()) = -2.5;
            } else {
                w2.state_at_mut(f2.into(), m2.into())[s2 as usize] = -2.5;
            }
            t.step();
            t.state(&(nf, nm, ns, a, b));
            ensure!(w != w2 && !w.abs_diff_eq(&w2, 1e-3) && !w2.abs_diff_eq(&w, 1e-3), "tables of {nf}x{nm}x{ns} that differ in {:?} compare equal", slots[b]);
            ensure!(w.abs_diff_eq(&w2, 10.0), "tables of {nf}x{nm}x{ns} that differ by less than the tolerance compare different");
            for (i, &(f, m, s)) in slots.iter().enumerate() {
                let want = if i == b { -2.5 } else if i == a { 1.5 } else { 0.0 };
                ensure!(dw_get(&w2, f, m)[s as usize] == want, "after writing {:?} then {:?} in {nf}x{nm}x{ns}, slot {:?} is wrong", slots[a], slots[b], (f, m, s));
            }
        }
        t.distinct(&(nf, nm, ns, a));
        t.sample(|| format!("{nf}x{nm}x{ns} write {:?}", slots[a]));
        Ok(())
    });
    let vals = [1.0f32, -1.0, 0.1, -0.3, 1e-38, -1e-45, 3.4e38, 1.0 / 3.0, 16777217.0, 1e-7];
    ctx.explore("weights-full", |c, t| {
        // all slots written with distinct/awkward values; every serial form restores them
        let nf = *c.of(&[1u32, 2, 3, 8, 9, 256, 300]);
        let nm = *c.of(&[1u8, 2, 3, 4, 5, 16, 17]);
        let ns = *c.of(&[1u8, 2, 3, 6, 8]);
        let k = c.choose(vals.len());
        let mut w = DenseWeights::new(nf.into(), ModelIndex::from(nm), StateIndex::from(ns)).map_err(|e| format!("{e}"))?;
        let val = |f: u32, m: u8, s: u8| {
            let x = (f as usize * 31 + m as usize * 7 + s as usize + k) % (vals.len() + 1);
            if x == vals.len() { 0.0 } else { vals[x] * if f % 2 == 0 { 1.0 } else { 0.5 } }
        };
        for f in 0..nf {
            for m in 0..nm {
                for s in 0..ns {
                    w.state_at_mut(f.into(), m.into())[s as usize] = val(f, m, s);
                }
            }
        }
        for f in 0..nf {
            for m in 0..nm {
                t.eval();
                let st = dw_get(&w, f, m);
                for s in 0..ns {
                    ensure!(st[s as usize].to_bits() == val(f, m, s).to_bits(), "slot {f},{m},{s} of {nf}x{nm}x{ns} was overwritten");
                }
            }
        }
        roundtrips(&w)?;
        t.distinct(&(nf, nm, ns, k));
        t.sample(|| format!("{nf}x{nm}x{ns} full"));
        Ok(())
    });
    // Many models or many states, up to what their index can hold
    let edge = [15u8, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255];
    ctx.bound(format!("tables of 1, 2, 4 or 5 features with {edge:?} models or states beside 1, 2 or 6 of the other, all slots written"));
    ctx.explore("weights-many", |c, t| {
        let nf = *c.of(&[1u32, 2, 4, 5]);
        let (many, few) = (*c.of(&edge), *c.of(&[1u8, 2, 6]));
        let (nm, ns) = if c.flag() { (many, few) } else { (few, many) };
        let zero_every = *c.of(&[0u32, 3]);
        let mut w = DenseWeights::new(nf.into(), ModelIndex::from(nm), StateIndex::from(ns)).map_err(|e| format!("{e}"))?;
        let val = |f: u32, m: u8, s: u8| {
            let k = (f * nm as u32 + m as u32) * ns as u32 + s as u32 + 1;
            if zero_every > 0 && k % zero_every != 0 { 0.0 } else { k as f32 }
        };
        for (f, m, s) in (0..nf).flat_map(|f| (0..nm).flat_map(move |m| (0..ns).map(move |s| (f, m, s)))) {
            w.state_at_mut(f.into(), m.into())[s as usize] = val(f, m, s);
        }
        for (f, m) in (0..nf).flat_map(|f| (0..nm).map(move |m| (f, m))) {
            let st = dw_get(&w, f, m);
            ensure!(st.len() == ns as usize, "state slice of length {} instead of {ns}", st.len());
            for s in 0..ns {
                ensure!(st[s as usize] == val(f, m, s), "slot {f},{m},{s} of {nf}x{nm}x{ns} was overwritten");
            }
        }
        roundtrips(&w)?;
        t.eval();
        t.distinct(&(nf, nm, ns, zero_every));
        Ok(())
    });
    // sizes used by real configurations: 1..=20 bits, 6 states
    let max_bits = ctx.b(18, 24);
    ctx.explore("weights-wide", |c, t| {
        let bits = c.choose(max_bits + 1) as u32;
        let ns = *c.of(&[1u8, 6]);
        let nm = *c.of(&[1u8, 2, 3]);
        let n = 1u32 << bits;
        let mut w = DenseWeights::new(n.into(), ModelIndex::from(nm), StateIndex::from(ns)).map_err(|e| format!("{e}"))?;
        let idx: Vec<u32> = vec![0, 1, n / 2, n.saturating_sub(2), n - 1].into_iter().filter(|x| *x < n).collect();
        for &f in &idx {
            for m in 0..nm {
                for s in 0..ns {
                    w.state_at_mut(f.into(), m.into())[s as usize] = (f % 1000) as f32 + m as f32 * 0.25 + s as f32 * 0.03125;
                }
            }
        }
        for &f in &idx {
            for m in 0..nm {
                t.eval();
                let st = dw_get(&w, f, m);
                for s in 0..ns {
                    ensure!(st[s as usize] == (f % 1000) as f32 + m as f32 * 0.25 + s as f32 * 0.03125, "slot {f},{m},{s} of 2^{bits}x{nm}x{ns} was overwritten");
                }
                t.distinct(&(bits, ns, nm, f, m));
            }
        }
        if bits <= 12 {
            roundtrips(&w)?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C23

pub fn c23(ctx: &Ctx) {
    let preds: Vec<f32> = vec![-1e4, -200.0, -89.0, -88.0, -40.0, -15.0, -7.5, -2.0, -1.0, -0.999, -0.5, -0.1, -1e-3, 0.0, 1e-3, 0.25, 0.5, 0.75, 1.0, 1.5, 3.0, 8.0, 13.0, 20.0, 40.0, 88.0, 89.0, 200.0, 1e4];
    let labels: Vec<f32> = vec![-3.0, -1.0, -0.5, 0.0, 0.3, 0.5, 1.0, 2.0, 5.0];
    let ranges: Vec<(f32, f32)> = vec![(-1.0, 1.0), (0.0, 0.0), (0.0, 1.0), (-3.0, 5.0), (0.3, 2.0), (-50.0, 50.0), (1.0, 1.0)];
    let scales: Vec<f32> = vec![0.0, 1e-9, 1e-7, 1e-4, 0.01, 0.1, 0.5, 1.0, 3.0, 10.0];
    let ppus: Vec<f32> = vec![1e-7, 1e-4, 0.1, 1.0, 2.5, 10.0, 1e7];
    ctx.bound(format!("{} predictions x {} labels x {} label ranges; {} step sizes x {} prediction-per-update values; logistic label ranges (-1,1), (0,1), (-2,3)", preds.len(), labels.len(), ranges.len(), scales.len(), ppus.len()));
    // squared loss
    ctx.explore("squared", |c, t| {
        let direct = c.flag();
        let sq = SquaredLoss::default();
        let en: LossFunction = sq.into();
        let l: &dyn LossFunctionImpl = if direct { &sq } else { &en };
        let (min, max) = *c.of(&ranges);
        let p = *c.of(&preds);
        let y = *c.of(&labels);
        let (p64, y64, mn, mx) = (p as f64, y as f64, min as f64, max as f64);
        if y < min || y > max {
            return Ok(());
        }
        t.eval();
        let close = |a: f64, b: f64| (a - b).abs() <= 1e-5 * (1.0 + a.abs().max(b.abs()));
        let what = format!("p={p} y={y} range=({min},{max})");
        // reference loss: squared inside the label range, linear with matching slope outside
        let refl = |p: f64| {
            let cl = p.clamp(mn, mx);
            (cl - y64) * (cl - y64) + 2.0 * (cl - y64) * (p - cl)
        };
        let got = l.get_loss(min, max, p, y) as f64;
        ensure!(got >= 0.0, "negative loss: {what}: {got}");
        ensure!(close(got, refl(p64)), "squared loss {what}: {got} want {}", refl(p64));
        let d = l.first_derivative(min, max, p, y) as f64;
        ensure!(close(d, 2.0 * (p64.clamp(mn, mx) - y64)), "first derivative {what}: {d}");
        let dd = l.second_derivative(min, max, p, y) as f64;
        ensure!(dd == if p < min || p > max { 0.0 } else { 2.0 }, "second derivative {what}: {dd}");
        ensure!(close(l.get_square_grad(p, y) as f64, 4.0 * (p64 - y64) * (p64 - y64)), "square grad {what}");
        for &s in &scales {
            let un = l.get_unsafe_update(p, y, s) as f64;
            ensure!(close(un, 2.0 * (y64 - p64) * s as f64), "unsafe update {what} s={s}: {un}");
            for &ppu in &ppus {
                t.eval();
                let u = l.get_update(p, y, s, ppu) as f64;
                let z = 2.0 * s as f64 * ppu as f64;
                let want = (y64 - p64) * (-(-z).exp_m1()) / ppu as f64;
                // small steps are cancellation-prone in single precision
                let tol = 1e-4 * (1.0 + want.abs()) + 1.2e-7 * (y64 - p64).abs() / ppu as f64;
                ensure!((u - want).abs() <= tol, "update {what} s={s} ppu={ppu}: {u} want {want}");
                if (s as f64) * (ppu as f64) < 0.9e-6 {
                    ensure!((u - un).abs() <= 1e-5 * un.abs() + 1e-36, "small update {what} s={s} ppu={ppu}: {u}, gradient step {un}");
                }
            }
        }
        t.distinct(&what);
        t.sample(|| format!("squared {what}: loss {got} d {d}"));
        Ok(())
    });
    let lranges: Vec<(f32, f32)> = vec![(-1.0, 1.0), (0.0, 1.0), (-2.0, 3.0)];
    ctx.explore("logistic", |c, t| {
        let direct = c.flag();
        let (a, b) = *c.of(&lranges);
        let lo = if (a, b) == (-1.0, 1.0) && c.flag() { LogisticLoss::default() } else { LogisticLoss::new(a, b) };
        let en: LossFunction = lo.into();
        let l: &dyn LossFunctionImpl = if direct { &lo } else { &en };
        let p = *c.of(&preds);
        let frac = *c.of(&[0.0f32, 0.25, 0.5, 0.9, 1.0]);
        let y = a + frac * (b - a);
        let (min, max) = *c.of(&[(-50.0f32, 50.0f32), (0.0, 1.0)]);
        t.eval();
        let w = (y as f64 - a as f64) / (b as f64 - a as f64);
        let p64 = p as f64;
        let sub = |p: f64, s: f64| (-s * p).max(0.0) + (-p.abs()).exp().ln_1p();
        let dsub = |p: f64, s: f64| -s / (1.0 + (s * p).exp());
        let close = |a: f64, b: f64| (a - b).abs() <= 2e-5 * (1.0 + a.abs().max(b.abs()));
        let what = format!("p={p} y={y} label range=({a},{b})");
        let want = w * sub(p64, 1.0) + (1.0 - w) * sub(p64, -1.0);
        let got = l.get_loss(min, max, p, y) as f64;
        ensure!(got >= 0.0 && close(got, want), "logistic loss {what}: {got} want {want}");
        let dwant = w * dsub(p64, 1.0) + (1.0 - w) * dsub(p64, -1.0);
        let d = l.first_derivative(min, max, p, y) as f64;
        ensure!(close(d, dwant), "first derivative {what}: {d} want {dwant}");
        // at either end of the label range no difference is taken: the derivative is good to a few digits however small
        let pure = frac == 0.0 || frac == 1.0;
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-3 * b.abs() + 1e-36;
        ensure!(!pure || near(d, dwant), "first derivative {what}: {d} want {dwant}");
        let s1 = 1.0 / (1.0 + p64.exp());
        let dd = l.second_derivative(min, max, p, y) as f64;
        ensure!(close(dd, s1 * (1.0 - s1)), "second derivative {what}: {dd} want {}", s1 * (1.0 - s1));
        let sg = l.get_square_grad(p, y) as f64;
        ensure!(close(sg, dwant * dwant), "square grad {what}: {sg} want {}", dwant * dwant);
        ensure!(!pure || near(sg, dwant * dwant), "square grad {what}: {sg} want {}", dwant * dwant);
        for &s in &scales {
            let un = l.get_unsafe_update(p, y, s) as f64;
            ensure!(!pure || near(un, -dwant * s as f64), "unsafe update {what} s={s}: {un} want {}", -dwant * s as f64);
            ensure!(close(un, -dwant * s as f64), "unsafe update {what} s={s}: {un} want {}", -dwant * s as f64);
            for &ppu in &ppus {
                t.eval();
                // closed form for a pure label: z + e^z = h + z0 + e^z0 with z = label * prediction
                let pure = |lab: f64| {
                    let z0 = lab * p64;
                    let h = s as f64 * ppu as f64;
                    // monotone equation, bisection on the increment
                    let (mut lo, mut hi) = (0.0f64, h.max(1e-12));
                    for _ in 0..200 {
                        let m = 0.5 * (lo + hi);
                        let f = m + if m < 1.0 || z0 > 0.0 { z0.exp() * m.exp_m1() } else { (z0 + m).exp() - z0.exp() };
                        if f < h { lo = m } else { hi = m }
                    }
                    lab * lo / ppu as f64
                };
                let want = w * pure(1.0) + (1.0 - w) * pure(-1.0);
                let u = l.get_update(p, y, s, ppu) as f64;
                let tol = (2e-4 + 1e-6 * p64.abs()) / ppu as f64 + 1e-3 * want.abs();
                ensure!(u.is_finite(), "update {what} s={s} ppu={ppu}: {u}");
                if (s as f64) * (ppu as f64) >= 1e-6 {
                    ensure!((u - want).abs() <= tol, "update {what} s={s} ppu={ppu}: {u} want {want}");
                } else if (s as f64) * (ppu as f64) < 0.9e-6 {
                    let lin = -dwant * s as f64;
                    ensure!((u - lin).abs() <= 1e-5 * (1e-12 + s as f64), "small update {what} s={s} ppu={ppu}: {u} want {lin}");
                }
            }
        }
        t.distinct(&what);
        t.sample(|| format!("logistic {what}: loss {got} d {d}"));
        Ok(())
    });
}

// ---------------------------------------------------------------- C26

pub fn mval(m: &MetricValue) -> f64 {
    match m {
        MetricValue::Float(f) => *f as f64,
        MetricValue::Int(i) => *i as f64,
        MetricValue::Bool(b) => *b as u8 as f64,
        MetricValue::String(_) => f64::NAN,
    }
}

fn feats(k: usize) -> SparseFeatures {
    let ns = [Namespace::Default, Namespace::Named(NamespaceHash::from(9))];
    let mut s = SparseFeatures::new();
    match k {
        0 => {}
        1 => s.get_or_create_namespace(ns[0]).add_feature(1.into(), 1.0),
        2 => {
            s.get_or_create_namespace(ns[0]).add_feature(1.into(), 0.0);
            s.get_or_create_namespace(ns[1]).add_features(&[1.into(), 1.into()], &[2.0, 2.0]);
        }
        _ => {
            // a recycled container: an earlier namespace is cleared, another is in use
            s.get_or_create_namespace(ns[1]).add_features(&[1.into(), 2.into()], &[2.0, 2.0]);
            s.clear();
            s.get_or_create_namespace(ns[0]).add_feature(3.into(), -1.0);
        }
    }
    s
}
const FEAT_COUNT: [u64; 4] = [0, 1, 3, 1];

pub fn c26(ctx: &Ctx) {
    let d = ctx.b(3, 4);
    ctx.bound(format!("all histories of 1..={d} examples over 4 feature shapes, labels, predictions; owned and borrowed features; all subsets order of metrics"));
    let labels: [(f32, f32); 4] = [(0.0, 1.0), (1.0, 2.0), (-2.5, 0.0), (1e3, 1.0)];
    let preds: [(f32, f32); 3] = [(0.0, 5.0), (1.0, 1.0), (-7.25, -100.0)];
    ctx.explore("metrics-simple", |c, t| {
        let n = 1 + c.choose(d);
        let names = ["mse", "parsed_features", "example_number"];
        let mut ms: Vec<Box<dyn Metric>> = names.iter().map(|n| get_metric(n).expect("known metric")).collect();
        let (mut se, mut nf) = (0.0f64, 0u64);
        for i in 0..n {
            let (y, w) = *c.of(&labels);
            let (p, raw) = *c.of(&preds);
            let k = c.choose(4);
            let borrowed = c.flag();
            let mut f = feats(k);
            let f: Features = if borrowed { (&mut f).into() } else { f.into() };
            let lab: Label = SimpleLabel::new(y, w).into();
            let pr: Prediction = ScalarPrediction { prediction: p, raw_prediction: raw }.into();
            for m in ms.iter_mut() {
                m.add_point(&f, &lab, &pr);
            }
            t.eval();
            t.step();
            se += (y as f64 - p as f64).powi(2);
            nf += FEAT_COUNT[k];
            let want = [se / (i + 1) as f64, nf as f64, i as f64];
            for (j, m) in ms.iter().enumerate() {
                let got = mval(&m.get_value());
                ensure!((got - want[j]).abs() <= 1e-5 * (1.0 + want[j].abs()), "{} after {} examples is {got}, want {}", names[j], i + 1, want[j]);
                ensure!(!m.get_name().is_empty(), "metric without a name");
            }
        }
        t.state(&(n, se.to_bits(), nf));
        t.distinct(&(n, se.to_bits(), nf));
        t.sample(|| format!("{n} examples: se {se} features {nf}"));
        Ok(())
    });
    let probs: Vec<Vec<(usize, f32)>> = vec![
        vec![(0, 1.0)],
        vec![(0, 0.25), (1, 0.75)],
        vec![(1, 0.1), (0, 0.9)],
        vec![(2, 0.0), (0, 0.5), (1, 0.5)],
    ];
    let d = ctx.b(3, 3);
    ctx.explore("metrics-cb", |c, t| {
        let n = 1 + c.choose(d);
        let names = ["ips", "parsed_features", "example_number"];
        let mut ms: Vec<Box<dyn Metric>> = names.iter().map(|n| get_metric(n).expect("known metric")).collect();
        let (mut wr, mut nf) = (0.0f64, 0u64);
        for i in 0..n {
            let pv = c.of(&probs).clone();
            let a = pv[c.choose(pv.len())].0;
            let cost = *c.of(&[0.0f32, 1.0, -0.5]);
            let pl = *c.of(&[1.0f32, 0.2]);
            let shape = c.choose(4); // bit 0: shared, bit 1: borrowed
            let mut ff = CBAdfFeatures {
                shared: if shape & 1 == 1 { Some(feats(2)) } else { None },
                actions: (0..pv.len()).map(|i| feats((i + 1) % 4)).collect(),
            };
            nf += if shape & 1 == 1 { 3 } else { 0 } + (0..pv.len()).map(|i| FEAT_COUNT[(i + 1) % 4]).sum::<u64>();
            let p = pv.iter().find(|x| x.0 == a).unwrap().1;
            wr += -(cost as f64) * (p as f64) / (pl as f64);
            let f: Features = if shape & 2 == 2 { (&mut ff).into() } else { ff.into() };
            let lab: Label = CBLabel::new(a, cost, pl).into();
            let pr: Prediction = ActionProbsPrediction(pv).into();
            for m in ms.iter_mut() {
                m.add_point(&f, &lab, &pr);
            }
            t.eval();
            t.step();
            let want = [wr / (i + 1) as f64, nf as f64, i as f64];
            for (j, m) in ms.iter().enumerate() {
                let got = mval(&m.get_value());
                ensure!((got - want[j]).abs() <= 1e-5 * (1.0 + want[j].abs()), "{} after {} examples is {got}, want {}", names[j], i + 1, want[j]);
            }
        }
        t.state(&(n, wr.to_bits(), nf));
        t.distinct(&(n, wr.to_bits(), nf));
        t.sample(|| format!("{n} cb examples: {wr} {nf}"));
        Ok(())
    });
    // long runs: counters must not wrap or saturate early
    ctx.explore("metrics-long", |c, t| {
        let n = *c.of(&[255u64, 256, 257, 65535, 65536, 65537, 70000]);
        let mut ms: Vec<Box<dyn Metric>> = ["mse", "parsed_features", "example_number"].iter().map(|n| get_metric(n).expect("known")).collect();
        let f: Features = feats(2).into();
        let lab: Label = SimpleLabel::new(1.0, 1.0).into();
        let pr: Prediction = ScalarPrediction { prediction: 0.5, raw_prediction: 0.0 }.into();
        for _ in 0..n {
            for m in ms.iter_mut() {
                m.add_point(&f, &lab, &pr);
            }
        }
        t.eval();
        let want = [0.25, 3.0 * n as f64, n as f64 - 1.0];
        for (j, m) in ms.iter().enumerate() {
            let got = mval(&m.get_value());
            ensure!((got - want[j]).abs() <= 1e-4 * want[j].abs(), "{} after {n} examples is {got}, want {}", m.get_name(), want[j]);
        }
        t.distinct(&n);
        Ok(())
    });
    ctx.explore("metric-values", |c, t| {
        t.eval();
        let cases = [
            (MetricValue::Float(0.5), "0.5"),
            (MetricValue::Int(-3), "-3"),
            (MetricValue::Bool(true), "true"),
            (MetricValue::String("x y".into()), "x y"),
        ];
        let (v, s) = c.of(&cases);
        ensure!(&v.to_string() == s, "metric value renders as {} instead of {s}", v.to_string());
        ensure!(get_metric("nope").is_none() && get_metric("").is_none(), "unknown metric accepted");
        t.distinct(s);
        Ok(())
    });
}

// ---------------------------------------------------------------- C03 (sequential part)

thread_local!(static NEXT: Cell<u32> = Cell::new(0));
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
struct Token(u32);
impl Default for Token {
    fn default() -> Self {
        NEXT.with(|n| {
            n.set(n.get() + 1);
            Token(n.get())
        })
    }
}

pub fn c03_seq(ctx: &Ctx) {
    let d = ctx.b(9, 12);
    ctx.bound(format!("all sequential histories of length {d} over get / return each held object / len, at most 3 held"));
    ctx.explore("pool-sequential", |c, t| {
        NEXT.with(|n| n.set(0));
        let pool: Pool<Token> = if c.flag() { Pool::new() } else { Pool::default() };
        let mut held: Vec<Token> = vec![];
        let mut free: BTreeMap<u32, ()> = BTreeMap::new();
        let mut made = 0;
        let mut hist = String::new();
        for _ in 0..d {
            let nops = (if held.len() < 3 { 1 } else { 0 }) + held.len();
            let op = c.choose(nops);
            t.eval();
            t.step();
            if op < held.len() {
                let tok = held.remove(op);
                hist += &format!("return {} ", tok.0);
                pool.return_object(tok);
                free.insert(tok.0, ());
            } else {
                let tok = pool.get_object();
                hist += &format!("get->{} ", tok.0);
                if free.is_empty() {
                    made += 1;
                    ensure!(tok.0 == made, "{hist}: expected a new object");
                } else {
                    ensure!(free.remove(&tok.0).is_some(), "{hist}: got an object that was not in the pool");
                }
                ensure!(!held.contains(&tok), "{hist}: object handed out twice");
                held.push(tok);
            }
            ensure!(NEXT.with(|n| n.get()) == made, "{hist}: an object was created although the pool was not empty");
            ensure!(pool.len() == free.len(), "{hist}: len {} want {}", pool.len(), free.len());
            ensure!(pool.is_empty() == free.is_empty(), "{hist}: is_empty wrong");
            t.state(&format!("{:?}{:?}", held, free));
        }
        t.distinct(&hist);
        t.sample(|| hist.clone());
        Ok(())
    });
    // Long histories: every pattern of takes and returns up to a length, repeated.
    let (n, pl) = (ctx.b(6000, 70_000), ctx.b(5, 6));
    ctx.bound(format!("all phases (take k, return k oldest or newest first) with k in 1..{n} at the powers of two and their neighbours; all take/return patterns of length 1..={pl} repeated for {n} steps"));
    let mut ks: Vec<usize> = vec![];
    let mut p = 1usize;
    while p <= n {
        ks.extend([p - 1, p, p + 1, p + p / 2]);
        p *= 2;
    }
    ks.extend([10, 100, 1000, 5000, n]);
    ks.retain(|k| *k >= 1 && *k <= n);
    ks.sort();
    ks.dedup();
    ctx.explore("pool-large", |c, t| {
        NEXT.with(|n| n.set(0));
        let pool: Pool<Token> = Pool::new();
        let k = *c.of(&ks);
        let newest = c.flag();
        let back = *c.of(&[1.0, 0.5]);
        for round in 0..2 {
            let had = pool.len();
            let made0 = NEXT.with(|n| n.get()) as usize;
            let mut held: Vec<Token> = (0..k).map(|_| pool.get_object()).collect();
            let made = NEXT.with(|n| n.get()) as usize - made0;
            ensure!(made == k.saturating_sub(had), "round {round}: {made} objects made for {k} taken with {had} in the pool");
            let mut ids: Vec<u32> = held.iter().map(|x| x.0).collect();
            ids.sort();
            ids.dedup();
            ensure!(ids.len() == k, "round {round}: {k} objects taken, {} distinct", ids.len());
            ensure!(pool.len() == had.saturating_sub(k), "after taking {k} of {had}: {} left", pool.len());
            if newest {
                held.reverse();
            }
            let b = ((k as f64 * back) as usize).max(1);
            let had = pool.len();
            for (i, x) in held.drain(..b).enumerate() {
                pool.return_object(x);
                ensure!(pool.len() == had + i + 1, "after {} returns: {} objects, want {}", i + 1, pool.len(), had + i + 1);
            }
            // whatever was returned is handed out again before anything new is made
            let before = NEXT.with(|n| n.get());
            let again: Vec<Token> = (0..had + b).map(|_| pool.get_object()).collect();
            ensure!(NEXT.with(|n| n.get()) == before, "{} new objects made although {b} had been returned", NEXT.with(|n| n.get()) - before);
            ensure!(pool.is_empty(), "{} objects too many", pool.len());
            let mut ids: Vec<u32> = again.iter().map(|x| x.0).collect();
            ids.sort();
            ids.dedup();
            ensure!(ids.len() == again.len(), "an object was handed out twice");
            ensure!(!again.iter().any(|x| held.contains(x)) || k > 3000, "an object in use was handed out");
            again.into_iter().for_each(|x| pool.return_object(x));
            t.step();
        }
        t.eval();
        t.state(&(k, newest, back.to_bits()));
        t.distinct(&(k, newest, back.to_bits()));
        Ok(())
    });
    ctx.explore("pool-patterns", |c, t| {
        NEXT.with(|n| n.set(0));
        let pool: Pool<Token> = Pool::new();
        let pat = c.seq(2, 1, pl);
        let mut held: std::collections::VecDeque<Token> = Default::default();
        let (mut made, mut free) = (0u32, 0usize);
        for i in 0..n {
            if pat[i % pat.len()] == 1 && !held.is_empty() {
                pool.return_object(held.pop_front().unwrap());
                free += 1;
            } else {
                let x = pool.get_object();
                if free == 0 {
                    made += 1;
                } else {
                    free -= 1;
                }
                held.push_back(x);
            }
            ensure!(NEXT.with(|n| n.get()) == made, "{pat:?}, step {i}: {} objects made, want {made}", NEXT.with(|n| n.get()));
            ensure!(pool.len() == free, "{pat:?}, step {i}: {} objects in the pool, want {free}", pool.len());
        }
        let mut ids: Vec<u32> = held.iter().map(|x| x.0).collect();
        ids.sort();
        ids.dedup();
        ensure!(ids.len() == held.len(), "{pat:?}: an object has two holders");
        t.eval();
        t.step();
        t.distinct(&pat);
        Ok(())
    });
}
