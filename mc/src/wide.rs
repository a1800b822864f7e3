//! Sizes: the same properties on inputs far larger than the small exhaustive spaces, every size of a ladder around
//! the powers of two (where chunking, widening and capacity changes sit) combined with every choice of shape.
use crate::cb::*;
use crate::coin::{bag, check_state, split_inter, weighted, Named};
use crate::common::*;
use crate::ensure;
use crate::model::*;
use crate::refmodel::*;
use crate::small::{check_min_prob, EPSILONS};
use crate::stacks::*;
use reductionml_core::dense_weights::DenseWeights;
use reductionml_core::inverse_hash_table::{Feature, InverseHashTable};
use reductionml_core::metrics::{get_metric, Metric};
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::parsers::{ParsedNamespaceInfo, TextModeParser, TextModeParserFactory, VwTextParserFactory};
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use reductionml_core::types::{FeatureMask, FeaturesType, LabelType};
use reductionml_core::weights::{foreach_feature, foreach_feature_with_state, foreach_feature_with_state_mut, Weights};
use reductionml_core::{ActionProbsPrediction, BinaryLabel, CBAdfFeatures, CBLabel, Features, Label, ModelIndex, NamespaceHash, Prediction, SimpleLabel, StateIndex};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

/// 1..=`all`, then every power of two up to `max` with its neighbours, then `max`.
pub fn ladder(all: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=all.min(max)).collect();
    let mut p = 2;
    while p <= max {
        v.extend([p - 1, p, p + 1, p + p / 2]);
        p *= 2;
    }
    v.push(max);
    v.retain(|x| *x >= 1 && *x <= max);
    v.sort();
    v.dedup();
    v
}

fn at_positions(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}

// ------------------------------------------------------------------------------- bandits: C13, C14, C15, C27

/// Score patterns over n actions; `best` is the position of the single best one where the shape has one.
fn scores(n: usize, shape: usize, best: usize) -> Vec<f32> {
    let mut s: Vec<f32> = (0..n)
        .map(|i| match shape {
            0 => 1.0,                          // all the same but one
            1 => 1.0 + i as f32 / 64.0,        // growing
            2 => 1.0 + (n - i) as f32 / 64.0,  // falling
            3 => 1.0 + (i * 7 % 5) as f32 * 0.5, // mixed
            _ => 0.5,                          // all the same
        })
        .collect();
    if shape < 4 {
        s[best] = 0.5;
    }
    s
}

fn bits_for(n: usize) -> u8 {
    let mut b = 4;
    while (1usize << b) < n {
        b += 1;
    }
    b
}

pub fn explore_sizes(ctx: &Ctx, which: &str) {
    let sz = ladder(12, ctx.b(300, 1100));
    ctx.bound(format!("{} action counts up to {} x 5 score shapes x position of the best action", sz.len(), sz.last().unwrap()));
    ctx.explore("many-actions", |c, t| {
        let n = *c.of(&sz);
        let shape = c.choose(5);
        let best = if shape < 4 { *c.of(&at_positions(n)) } else { 0 };
        let s = scores(n, shape, best);
        let sh = c.flag();
        let (entry, want): (Value, Vec<f64>) = match which {
            "C14" => match c.choose(5) {
                0 => (node("CbExploreAdfGreedy", json!({"epsilon": 0.0})), ref_greedy(&s, 0.0)),
                1 => (node("CbExploreAdfGreedy", json!({"epsilon": 0.25})), ref_greedy(&s, 0.25)),
                2 => (node("CbExploreAdfGreedy", json!({"epsilon": 1.0})), ref_greedy(&s, 1.0)),
                3 => (node("CbExploreAdfSoftmax", json!({"lambda": 3.0})), ref_softmax(&s, 3.0, 0.0)),
                _ => (node("CbExploreAdfSoftmax", json!({"lambda": 1.0, "uniformEpsilon": 0.2})), ref_softmax(&s, 1.0, 0.2)),
            },
            _ => {
                let e = *c.of(&[0.0f32, 0.1]);
                let sc = *c.of(&[10.0f32, 300.0]);
                (node("CbExploreAdfSquareCb", json!({"gammaScale": sc, "gammaExponent": 0.5, "uniformEpsilon": e})), ref_square(&s, sc as f64 * 2.0, e))
            }
        };
        let mut w = with_scores_in(&entry, &s, bits_for(n))?;
        if which == "C27" {
            for _ in 0..4 {
                let f = CBAdfFeatures { shared: Some(SparseFeatures::new()), actions: vec![SparseFeatures::new()] };
                let mut f: Features = f.into();
                guarded(|| w.learn(&mut f, &Label::CB(CBLabel::new(0, 0.0, 0.5))))?;
            }
        }
        let at = |m: String| format!("{entry}, {n} actions, shape {shape}, best {best}: {m}");
        let p = probs(&w, n, sh).map_err(at)?;
        same_dist(&p, &want, 5e-5).map_err(at)?;
        t.eval();
        t.distinct(&(n, shape, best, entry.to_string()));
        t.sample(|| at(format!("first {:?}", &p[..n.min(4)])));
        Ok(())
    });
}

pub fn c15(ctx: &Ctx) {
    let sz = ladder(12, ctx.b(300, 1100));
    ctx.bound(format!("{} action counts up to {} x 6 shapes x {} levels x both zero treatments", sz.len(), sz.last().unwrap(), EPSILONS.len()));
    ctx.explore("min-prob-shapes", |c, t| {
        let n = *c.of(&sz);
        let shape = c.choose(6);
        let zeros = c.flag();
        let big = *c.of(&at_positions(n));
        let mut p: Vec<f64> = (0..n)
            .map(|i| match shape {
                0 => 1.0,
                1 => (i + 1) as f64,
                2 => 0.5f64.powi((i.abs_diff(big) as i32).min(40)),
                3 => if i % 2 == 0 { 1.0 } else { 0.0 },
                4 => if i == big { 1.0 } else { 0.0 },
                _ => if i == big { 50.0 } else { 0.01 },
            })
            .collect();
        let s: f64 = p.iter().sum();
        p.iter_mut().for_each(|x| *x /= s);
        let p: Vec<f32> = p.iter().map(|x| *x as f32).collect();
        let ids: Vec<usize> = (0..n).rev().collect();
        for eps in EPSILONS {
            t.eval();
            let q = check_min_prob(eps, zeros, &p, &ids, 1e-3)?;
            t.distinct(&(n, shape, zeros, big, eps.to_bits()));
            t.sample(|| format!("n={n} shape {shape} eps={eps} -> {:?}", &q[..n.min(3)]));
        }
        Ok(())
    });
}

/// n actions with few features each, or few actions with n features each; deterministic small values.
pub fn wide_cb(n: usize, kind: usize, shared: bool) -> String {
    let feats = |k: usize, a: usize| -> String {
        let x: Vec<String> = (0..k).map(|i| format!("{i}:{}", [1.0, -0.5, 0.25, 2.0][(i + a) % 4])).collect();
        x.join(" ")
    };
    let sh = if shared { if kind == 2 { format!("s|{}", feats(n, 1)) } else { "s|x:1;b|9:0.5".to_string() } } else { String::new() };
    let acts: Vec<String> = match kind {
        0 => (0..n).map(|i| format!("a|{}:1;b|{}:{}", i % 50, i % 3, [1.0, -1.0, 0.5][i % 3])).collect(),
        1 => (0..3).map(|a| format!("a|{};b|{a}:1", feats(n, a))).collect(),
        _ => (0..3).map(|a| format!("a|{a}:1;b|{a}:1")).collect(),
    };
    format!("{}{}", if shared { format!("{sh} // ") } else { String::new() }, acts.join(" / "))
}
pub fn wide_simple(n: usize, kind: usize) -> String {
    let feats = |k: usize, a: usize| -> String {
        let x: Vec<String> = (0..k).map(|i| format!("{i}:{}", [1.0, -0.5, 0.25, 2.0][(i + a) % 4])).collect();
        x.join(" ")
    };
    match kind {
        0 => format!("a|{};b|0:1 2:-1", feats(n, 0)),
        1 => format!("b|{};a|{}", feats(n, 1), feats(3, 0)),
        2 => (0..n).map(|i| format!("n{i}|x:{}", [1.0, -0.5][i % 2])).collect::<Vec<_>>().join(";"),
        _ => format!("a|{};b|{}", feats(n, 0), feats(n, 2)),
    }
}

pub fn c13(ctx: &Ctx) {
    crate::cb::c13_labels(ctx);
    let sz = ladder(9, ctx.b(130, 520));
    let regs: Vec<(String, Value)> = regressors(0).into_iter().take(2).collect();
    ctx.bound(format!("{} action or feature counts up to {} with and without shared features, the chosen action at each position of interest; a small and the large example learned in either order", sz.len(), sz.last().unwrap()));
    ctx.explore("reduced-large", |c, t| {
        let n = *c.of(&sz);
        let kind = c.choose(3);
        let sh = c.flag();
        let mtr = c.flag();
        let (rn, reg) = c.of(&regs).clone();
        let big = wide_cb(n, kind, sh);
        let small = "s|x:2 // a|0:1;b|1:1 / a|1:1;b|0:2";
        let na = if kind == 0 { n } else { 3 };
        let a = *c.of(&at_positions(na));
        let bigfirst = c.flag();
        let (seed, bits) = (3u32, 12u8);
        let g = global(bits, seed, true, &["ab"]);
        let mut w = ws(&g, &node("CbAdf", json!({"cbType": if mtr {"mtr"} else {"ips"}, "regressor": reg})));
        let mut r = ws(&g, &reg);
        let (mut asum, mut esum) = (0usize, 0usize);
        let steps: Vec<(&str, CBLabel)> = {
            let b = (big.as_str(), CBLabel::new(a, -1.5, 0.25));
            let s = (small, CBLabel::new(1, 1.0, 0.5));
            if bigfirst { vec![b, s] } else { vec![s, b] }
        };
        let at = |m: String| format!("{rn} mtr={mtr}, {n} of kind {kind}, shared {sh}, action {a}, big first {bigfirst}: {m}");
        for (e, cl) in &steps {
            let mut f: Features = mkcb(e, seed, bits).into();
            let lab = Label::CB(CBLabel::new(cl.action, cl.cost, cl.probability));
            guarded(|| w.learn(&mut f, &lab)).map_err(at)?;
            let cb = mkcb(e, seed, bits);
            asum += cb.actions.len();
            esum += 1;
            if mtr {
                let wt = 1.0 / cl.probability * (esum as f32 / asum as f32);
                let mut j: Features = join(&cb, cl.action).into();
                r.learn(&mut j, &Label::Simple(SimpleLabel::new(cl.cost, wt)));
            } else {
                for i in 0..cb.actions.len() {
                    let v = if i == cl.action { cl.cost / cl.probability } else { 0.0 };
                    let mut j: Features = join(&cb, i).into();
                    r.learn(&mut j, &Label::Simple(SimpleLabel::new(v, 1.0)));
                }
            }
            t.step();
        }
        // features meeting at one index are summed in the order of namespaces, which rounding can see
        let (x, y) = (coins(&w)?, coins(&r)?);
        json_close(&x[0], &y[0], 2e-3).map_err(|m| at(format!("the regressor's state differs at {m}")))?;
        for e in [big.as_str(), small] {
            let cb = mkcb(e, seed, bits);
            let mut f: Features = mkcb(e, seed, bits).into();
            let Prediction::ActionScores(p) = guarded(|| w.predict(&mut f)).map_err(at)? else { return Err(at("not action scores".into())) };
            ensure!(p.0.len() == cb.actions.len(), "{}", at(format!("{} scores for {} actions", p.0.len(), cb.actions.len())));
            for (i, (k, s)) in p.0.iter().enumerate() {
                ensure!(*k == i, "{}", at(format!("action {k} at position {i}")));
                let mut j: Features = join(&cb, i).into();
                let Prediction::Scalar(q) = r.predict(&mut j) else { return Err("not scalar".into()) };
                ensure!(close(*s as f64, q.raw_prediction as f64, 2e-3), "{}", at(format!("action {i} scores {s}, the regressor on the joined example {}", q.raw_prediction)));
            }
        }
        t.eval();
        t.distinct(&(n, kind, sh, mtr, a, bigfirst, rn));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------- features: C11, C12, C17

pub fn c11(ctx: &Ctx) {
    let sz = ladder(10, ctx.b(300, 1100));
    let inter = [vec!["aa"], vec!["ab"], vec!["ba", "bb"], vec!["aab"], vec!["aba"], vec!["abb"], vec!["a_b"], vec!["aaa"], vec!["ab", "aab"]];
    ctx.bound(format!("one namespace of each of {} sizes up to {}, a second of 3, {} interaction lists, constant on; through the model", sz.len(), sz.last().unwrap(), inter.len()));
    ctx.explore("large-namespaces", |c, t| {
        let n = *c.of(&sz);
        let it = c.of(&inter);
        let swap = c.flag();
        // aaa over n features is n^3/6 combinations
        if it[0] == "aaa" && n > ctx.b(33, 130) || it[0] == "aab" && n > ctx.b(130, 520) {
            return Ok(());
        }
        let (bits, seed) = (10u8, 5u32);
        let g = global(bits, seed, true, it);
        let w = weighted(&g, bits, |i| ((i * 37 % 101) + 1) as f32)?;
        let spec = format!("{};:default|z:1 y:2", wide_simple(n, swap as usize));
        let f = mk(&spec, seed, bits);
        let hashed: Vec<Vec<Namespace>> = it.iter().map(|x| inter_ns(x, seed)).collect();
        let ex = expand(&f, &hashed, bits, true);
        let terms: Vec<f64> = ex.iter().map(|x| ((x.0 * 37 % 101) + 1) as f64 * x.1 as f64).collect();
        let want: f64 = terms.iter().sum();
        let mag: f64 = terms.iter().map(|x| x.abs()).sum();
        let mut ff: Features = f.into();
        let Prediction::Scalar(p) = guarded(|| w.predict(&mut ff))? else { return Err("not scalar".into()) };
        // the smallest single term that could be missing is 1/64
        let tol = (mag * 1e-6).max(1e-3);
        ensure!((p.raw_prediction as f64 - want).abs() <= tol, "{n} features, interactions {it:?}, swapped {swap}: raw prediction {} with weight 1+(37i mod 101) at index i, expected {want}", p.raw_prediction);
        t.eval();
        t.distinct(&(n, it, swap));
        Ok(())
    });
    ctx.explore("large-visits", |c, t| {
        let n = *c.of(&sz);
        let m = *c.of(&[1usize, 2, 5, 17, 33, 65, 129, 257]);
        let pair = c.flag();
        // both namespaces large is enough for pairs
        if !pair && n * m > ctx.b(8_000, 80_000) {
            return Ok(());
        }
        let f = mk(&format!("{};c|{}", wide_simple(n, 0), (0..m).map(|i| format!("{i}:1")).collect::<Vec<_>>().join(" ")), 0, 12);
        let ns: Vec<Namespace> = inter_ns("acb", 0);
        let hashed = vec![if pair { vec![ns[0], ns[1]] } else { ns.clone() }];
        let mut want: Vec<(u32, u32)> = expand(&f, &hashed, 12, false).iter().map(|x| (x.0, x.1.to_bits())).collect();
        let plain = f.all_features().count();
        let mut got: Vec<(u32, u32)> = f.all_features().map(|x| (u32::from(x.0), x.1.to_bits())).collect();
        let it: Vec<(u32, u32)> = guarded(|| {
            if pair {
                f.quadratic_features(ns[0], ns[1], 12).unwrap().map(|x| (u32::from(x.0), x.1.to_bits())).collect()
            } else {
                f.cubic_features(ns[0], ns[1], ns[2], 12).unwrap().map(|x| (u32::from(x.0), x.1.to_bits())).collect::<Vec<_>>()
            }
        })?;
        got.extend(it);
        got.sort();
        want.sort();
        ensure!(got == want, "{n} x {m} features: the feature iterators give {} combinations, want {}", got.len() - plain, want.len() - plain);
        let (pairs, triples) = split_inter(&hashed);
        for constant in [false, true] {
            let want = bag(&expand(&f, &hashed, 12, constant));
            let mut table = Named::new(12);
            let mut got: Vec<(u32, f32)> = vec![];
            guarded(|| foreach_feature(0.into(), &f, &table, &pairs, &triples, 12, constant, |v, w| got.push((w as u32, v))))?;
            ensure!(bag(&got) == want, "{n} x {m} features, pair {pair}: foreach_feature visits {} features, expected {}", got.len(), want.len());
            got.clear();
            guarded(|| foreach_feature_with_state(0.into(), &f, &table, &pairs, &triples, 12, constant, |v, w: &[f32]| got.push((w[0] as u32, v))))?;
            ensure!(bag(&got) == want, "{n} x {m} features, pair {pair}: foreach_feature_with_state visits {} features, expected {}", got.len(), want.len());
            got.clear();
            guarded(|| foreach_feature_with_state_mut(0.into(), &f, &mut table, &pairs, &triples, 12, constant, |v, w: &mut [f32]| got.push((w[0] as u32, v))))?;
            ensure!(bag(&got) == want, "{n} x {m} features, pair {pair}: foreach_feature_with_state_mut visits {} features, expected {}", got.len(), want.len());
        }
        t.eval();
        t.distinct(&(n, m, pair));
        Ok(())
    });
}

pub fn c12(ctx: &Ctx) {
    let sz = ladder(10, ctx.b(260, 1100));
    ctx.bound(format!("examples of {} sizes up to {} (one or many namespaces), learned before and after a small one; and histories of up to {} examples compared at the powers of two", sz.len(), sz.last().unwrap(), ctx.b(1100, 10_000)));
    let (bits, seed) = (14u8, 2u32);
    ctx.explore("large-examples", |c, t| {
        let n = *c.of(&sz);
        let kind = c.choose(3);
        let first = c.flag();
        let link = c.flag();
        let g = global(bits, seed, true, &[]);
        let mut w = ws(&g, &coin(json!({"linkFunction": if link {"Logistic"} else {"Identity"}})));
        let mut m64 = CoinModel::<f64>::new(4.0, 1.0, Loss::Squared, link);
        let mut m32 = CoinModel::<f32>::new(4.0, 1.0, Loss::Squared, link);
        let big = wide_simple(n, kind);
        let small = "a|0:3 1:1;n0|x:-2".to_string();
        let order = if first { [&big, &small, &big] } else { [&small, &big, &small] };
        for (k, e) in order.iter().enumerate() {
            let at = |m: String| format!("{n} of kind {kind}, big first {first}, step {k}: {m}");
            let f = mk(e, seed, bits);
            let ex = expand(&f, &[], bits, true);
            let (y, wt) = [(1.0f32, 1.0f32), (-3.0, 0.5), (0.5, 2.0)][k];
            let mut ff: Features = f.into();
            guarded(|| w.learn(&mut ff, &Label::Simple(SimpleLabel::new(y, wt)))).map_err(at)?;
            m64.learn(&ex, y, wt);
            m32.learn(&ex, y, wt);
            check_state(&coins(&w).map_err(at)?[0], &m64, &m32).map_err(at)?;
            for e in [&big, &small] {
                let f = mk(e, seed, bits);
                let ex = expand(&f, &[], bits, true);
                let mut ff: Features = f.into();
                let Prediction::Scalar(p) = guarded(|| w.predict(&mut ff)).map_err(at)? else { return Err(at("not scalar".into())) };
                let ((a, ar), (b, br)) = (m64.predict(&ex), m32.predict(&ex));
                ensure!(crate::coin::agree(p.raw_prediction as f64, ar, br as f64) && crate::coin::agree(p.prediction as f64, a, b as f64), "{}", at(format!("predicts {p:?}, the model says {a} (raw {ar})")));
            }
            t.step();
        }
        t.eval();
        t.distinct(&(n, kind, first, link));
        Ok(())
    });
    let step = ctx.b(2, 1);
    let ten = |k: i32| format!("1e{k}").parse::<f32>().unwrap();
    let mags = |lo: i32, hi: i32| -> Vec<f32> { (lo..=hi).step_by(step).map(ten).collect() };
    let (ys, vs, wts) = (mags(-8, 10), mags(-10, 6), [1.0f32, 1e-4, 0.03, 300.0, 1e5]);
    ctx.bound(format!("labels of {} magnitudes from 1e-8 to 1e10 x feature values of {} from 1e-10 to 1e6 x importance weights {wts:?} x both losses, three examples each", ys.len(), vs.len()));
    ctx.explore("magnitudes", |c, t| {
        let loss = c.flag();
        let y0 = if loss { 1.0 } else { *c.of(&ys) };
        let (v, w0) = (*c.of(&vs), *c.of(&wts));
        let (bits, two) = (4u8, c.flag());
        let g = global(bits, 2, false, &[]);
        let l = if loss { Loss::Logistic } else { Loss::Squared };
        let mut w = ws(&g, &coin(if loss { json!({"lossFunction": {"Logistic": {}}}) } else { json!({}) }));
        let mut m64 = CoinModel::<f64>::new(4.0, 1.0, l, false);
        let mut m32 = CoinModel::<f32>::new(4.0, 1.0, l, false);
        let text = if two { format!("a|x:{v} y:{}", -0.5 * v) } else { format!("a|x:{v}") };
        for (k, sc) in [1.0f32, 0.5, 3.0].into_iter().enumerate() {
            let at = |m: String| format!("{l:?}, label {:e}, value {v:e}, weight {w0:e}, {} features, example {k}: {m}", y0 * sc, two as u8 + 1);
            let f = mk(&text, 2, bits);
            let ex = expand(&f, &[], bits, false);
            let y = if loss { [1.0, -1.0, 1.0][k] } else { y0 * sc };
            let mut ff: Features = f.into();
            guarded(|| w.learn(&mut ff, &Label::Simple(SimpleLabel::new(y, w0)))).map_err(at)?;
            m64.learn(&ex, y, w0);
            m32.learn(&ex, y, w0);
            crate::coin::check_scaled(&coins(&w).map_err(at)?[0], &m64, &m32, 1e-3).map_err(at)?;
            t.step();
        }
        t.eval();
        t.distinct(&(loss, y0.to_bits(), v.to_bits(), w0.to_bits(), two));
        Ok(())
    });
    let total = ctx.b(1100, 10_000);
    ctx.explore("long-histories", |c, t| {
        let pat: Vec<(usize, usize)> = (0..2).map(|_| (c.choose(4), c.choose(3))).collect();
        let loss = c.flag();
        let bits = 6u8;
        let g = global(bits, seed, true, &["ab"]);
        let hashed = vec![inter_ns("ab", seed)];
        let l = if loss { Loss::Logistic } else { Loss::Squared };
        let mut w = ws(&g, &coin(if loss { json!({"lossFunction": {"Logistic": {}}}) } else { json!({}) }));
        let mut m64 = CoinModel::<f64>::new(4.0, 1.0, l, false);
        let mut m32 = CoinModel::<f32>::new(4.0, 1.0, l, false);
        for i in 1..=total {
            let (e, k) = pat[i % 2];
            let f = mk(crate::coin::COIN_EX[e], seed, bits);
            let ex = expand(&f, &hashed, bits, true);
            let (mut y, wt) = crate::coin::COIN_LAB[k];
            if loss {
                y = y.clamp(-1.0, 1.0);
            }
            let mut ff: Features = f.into();
            guarded(|| w.learn(&mut ff, &Label::Simple(SimpleLabel::new(y, wt))))?;
            m64.learn(&ex, y, wt);
            m32.learn(&ex, y, wt);
            let near = (0..16).any(|k| i.abs_diff(1 << k) <= 1) || i % 100 == 0 || i == total;
            if near {
                check_state(&coins(&w)?[0], &m64, &m32).map_err(|m| format!("{l:?}, pattern {pat:?} after {i} examples: {m}"))?;
                t.step();
            }
        }
        t.eval();
        t.distinct(&(pat, loss));
        Ok(())
    });
}

pub fn c17(ctx: &Ctx) {
    let sz = ladder(9, ctx.b(260, 1030));
    ctx.bound(format!("{} list lengths up to {} x 5 patterns of shared positions x keeping originals or not, also of a namespace with itself", sz.len(), sz.last().unwrap()));
    ctx.explore("long-lists", |c, t| {
        let n = *c.of(&sz) as u32;
        let pat = c.choose(5);
        let keep = c.flag();
        let m = *c.of(&[n, 1, n / 2 + 1, 2 * n, 0]);
        let own = m == 0; // the namespace with itself
        let (seed, bits) = (4u32, 16u8);
        let take = |p: u32, side: usize| match pat {
            0 => true,
            1 => (p as usize + side) % 2 == 0,
            2 => p % 3 != side as u32,
            3 => p + 1 == n || p == 0,
            _ => p % 16 == 15 || side == 0,
        };
        let list = |k: u32, side: usize| -> Vec<(u32, f32)> {
            (0..k).filter(|p| take(*p, side)).map(|p| (p, [1.0f32, -2.0, 0.5, 3.0][(p as usize + side) % 4])).collect()
        };
        let (l1, l2) = (list(n, 0), if own { list(n, 0) } else { list(m, 1) });
        let second = if own { "a" } else { "b" };
        let ((n1, h1), (n2, h2)) = (ns_of("a", seed), ns_of(second, seed));
        let put = |f: &mut SparseFeatures, ns: Namespace, nh: u32, l: &[(u32, f32)]| {
            let d = f.get_or_create_namespace(ns);
            for (p, v) in l {
                d.add_feature(mask(nh.wrapping_add(*p), bits).into(), *v);
            }
        };
        let make = || {
            let mut f = SparseFeatures::new();
            put(&mut f, n1, h1, &l1);
            if !own {
                put(&mut f, n2, h2, &l2);
            }
            f
        };
        let both: Vec<(u32, f32)> = {
            let m2: BTreeMap<u32, f32> = l2.iter().cloned().collect();
            l1.iter().filter_map(|(p, v)| m2.get(p).map(|x| (*p, v * x))).collect()
        };
        let reference = || {
            let mut f = if keep { make() } else { SparseFeatures::new() };
            put(&mut f, Namespace::Named(h("a name nobody else uses", 99).into()), (h1 as u64 * h2 as u64) as u32, &both);
            f
        };
        let mut idx: Vec<u32> = expand(&reference(), &[], bits, true).iter().map(|x| x.0).collect();
        let k = idx.len();
        idx.sort();
        idx.dedup();
        let shared = idx.len() != k;
        let g = global(bits, seed, true, &[]);
        let at = |x: String| format!("{n} x {m} positions, pattern {pat}, keep {keep}: {x}");
        let mut w = ws(&g, &elem("a", second, keep, coin(json!({}))));
        let mut r = ws(&g, &coin(json!({})));
        let mut f: Features = make().into();
        let before = look(&f);
        for step in 0..3 {
            let mut q: Features = reference().into();
            let lab = Label::Simple(SimpleLabel::new([2.0, -1.0, 0.5][step], 1.0));
            let (x, y) = (guarded(|| w.predict_then_learn(&mut f, &lab)).map_err(at)?, r.predict_then_learn(&mut q, &lab));
            ensure!(look(&f) == before, "{}", at("features not restored".into()));
            let (Prediction::Scalar(x), Prediction::Scalar(y)) = (x, y) else { return Err("not scalar".into()) };
            ensure!(shared || close(x.raw_prediction as f64, y.raw_prediction as f64, 1e-4), "{}", at(format!("step {step} predicts {x:?}, a regressor fed the products {y:?}")));
            t.step();
        }
        if shared {
            t.note("two features at one index, results not compared");
            return Ok(());
        }
        json_close(&coins(&w)?[0], &coins(&r)?[0], 1e-4).map_err(|m| at(format!("the regressor's state differs at {m}")))?;
        t.eval();
        t.distinct(&(n, m, pat, keep));
        Ok(())
    });
}

// -------------------------------------------------------------------------------- whole stacks: C09, C10, C16, C18, C25

fn wide_example(kind: Kind, n: usize, shape: usize) -> String {
    if kind.cb() {
        wide_cb(n, shape, shape != 1)
    } else {
        wide_simple(n, shape)
    }
}

pub fn c09(ctx: &Ctx) {
    let sz = ladder(5, ctx.b(66, 260));
    let all = stacks(0);
    ctx.bound(format!("{} stacks x {} example sizes up to {} x 3 shapes: one object used for learning, predicting, both, against fresh copies", all.len(), sz.len(), sz.last().unwrap()));
    ctx.explore("reuse-large", |c, t| {
        let s = c.of(&all).clone();
        let n = *c.of(&sz);
        let shape = c.choose(3);
        let inter = c.flag();
        let g = global(10, 7, true, if inter { &["bs", "ab"] } else { &[] });
        let spec = wide_example(s.kind, n, shape);
        let mut f = example(s.kind, &spec, 7, 10);
        let before = look(&f);
        let (mut w, mut fw) = (ws(&g, &s.entry), ws(&g, &s.entry));
        let at = |m: String| format!("{}, {n} of shape {shape}: {m}", s.name);
        for k in 0..4 {
            let mut fe = example(s.kind, &spec, 7, 10);
            let lab = lab_for(s.kind, &fe, k % nlabels(s.kind));
            match k {
                0 | 2 => {
                    guarded(|| w.learn(&mut f, &lab)).map_err(at)?;
                    guarded(|| fw.learn(&mut fe, &lab)).map_err(at)?;
                }
                1 => {
                    let b0 = bytes(&w)?;
                    let (x, y) = (guarded(|| pv(&w.predict(&mut f))).map_err(at)?, guarded(|| pv(&fw.predict(&mut fe))).map_err(at)?);
                    ensure!(x == y, "{}", at("the reused example predicts something else than a fresh copy".into()));
                    ensure!(pv(&w.predict(&mut f)) == x && bytes(&w)? == b0, "{}", at("predicting changes something".into()));
                }
                _ => {
                    let (x, y) = (guarded(|| pv(&w.predict_then_learn(&mut f, &lab))).map_err(at)?, guarded(|| pv(&fw.predict_then_learn(&mut fe, &lab))).map_err(at)?);
                    ensure!(x == y, "{}", at("the reused example predicts something else than a fresh copy".into()));
                }
            }
            ensure!(look(&f) == before, "{}", at(format!("features not restored after operation {k}")));
            consistent_features(&f).map_err(at)?;
            t.step();
        }
        ensure!(bytes(&w)? == bytes(&fw)?, "{}", at("another model than with fresh copies".into()));
        t.eval();
        t.distinct(&(&s.name, n, shape, inter));
        Ok(())
    });
}

pub fn c10(ctx: &Ctx) {
    let sz = ladder(5, ctx.b(66, 260));
    let all = stacks(0);
    ctx.bound(format!("{} stacks x {} example sizes up to {} x 3 shapes, and one pattern of {} examples: the combined operation against the two", all.len(), sz.len(), sz.last().unwrap(), ctx.b(300, 5000)));
    ctx.explore("combined-large", |c, t| {
        let s = c.of(&all).clone();
        let n = *c.of(&sz);
        let shape = c.choose(3);
        let g = global(10, 7, true, &["ab"]);
        let spec = [wide_example(s.kind, n, shape), specs(s.kind)[0].to_string()];
        let (mut a, mut b) = (ws(&g, &s.entry), ws(&g, &s.entry));
        for k in 0..4 {
            let (mut f1, mut f2) = (example(s.kind, &spec[k % 2], 7, 10), example(s.kind, &spec[k % 2], 7, 10));
            let lab = lab_for(s.kind, &f1, k % nlabels(s.kind));
            let x = guarded(|| pv(&a.predict_then_learn(&mut f1, &lab)))?;
            let y = guarded(|| pv(&b.predict(&mut f2)))?;
            guarded(|| b.learn(&mut f2, &lab))?;
            ensure!(x == y, "{}, {n} of shape {shape}, step {k}: predict-then-learn returns another prediction than predicting first", s.name);
            t.step();
        }
        ensure!(bytes(&a)? == bytes(&b)?, "{}, {n} of shape {shape}: predict-then-learn leaves another model than learning alone", s.name);
        t.eval();
        t.distinct(&(&s.name, n, shape));
        Ok(())
    });
    let total = ctx.b(300, 5000);
    ctx.explore("combined-long", |c, t| {
        let s = c.of(&all).clone();
        let (e, l) = (c.choose(2), c.choose(nlabels(s.kind)));
        let g = global(6, 7, true, &["ab"]);
        let sp = specs(s.kind);
        let (mut a, mut b) = (ws(&g, &s.entry), ws(&g, &s.entry));
        for k in 0..total {
            let x = &sp[if k % 2 == 0 { e } else { 2 }];
            let (mut f1, mut f2) = (example(s.kind, x, 7, 6), example(s.kind, x, 7, 6));
            let lab = lab_for(s.kind, &f1, if k % 2 == 0 { l } else { 0 });
            let p = guarded(|| pv(&a.predict_then_learn(&mut f1, &lab)))?;
            let q = guarded(|| pv(&b.predict(&mut f2)))?;
            guarded(|| b.learn(&mut f2, &lab))?;
            ensure!(p == q, "{} example {e} label {l}, step {k}: predict-then-learn returns another prediction than predicting first", s.name);
        }
        ensure!(bytes(&a)? == bytes(&b)?, "{} example {e} label {l}: predict-then-learn leaves another model after {total} examples", s.name);
        t.eval();
        t.step();
        t.distinct(&(&s.name, e, l));
        Ok(())
    });
}

pub fn c16(ctx: &Ctx) {
    let total = ctx.b(600, 10_000);
    let regs = regressors(1);
    ctx.bound(format!("{} regressors with patterns of two examples repeated {total} times; examples of up to {} features", regs.len(), ctx.b(130, 520)));
    ctx.explore("labels-long", |c, t| {
        let reg = c.of(&regs).1.clone();
        let pat: Vec<(usize, bool)> = (0..2).map(|_| (c.choose(SIMPLE.len()), c.flag())).collect();
        let g = global(5, 7, true, &[]);
        let (mut b, mut r) = (ws(&g, &node("Binary", json!({"regressor": reg}))), ws(&g, &reg));
        for k in 0..total {
            let (e, l) = pat[k % 2];
            let (mut f1, mut f2): (Features, Features) = (mk(SIMPLE[e], 7, 5).into(), mk(SIMPLE[e], 7, 5).into());
            let q = guarded(|| r.predict(&mut f2))?;
            guarded(|| r.learn(&mut f2, &Label::Simple(SimpleLabel::new(if l { 1.0 } else { -1.0 }, 1.0))))?;
            let p = guarded(|| b.predict_then_learn(&mut f1, &Label::Binary(BinaryLabel(l))))?;
            let (Prediction::Binary(p), Prediction::Scalar(q)) = (p, q) else { return Err("prediction types".into()) };
            ensure!(p.0 == (q.prediction > 0.0), "{reg} {pat:?} step {k}: classified {}, the regressor predicts {}", p.0, q.prediction);
        }
        ensure!(coins(&b)? == coins(&r)?, "{reg} {pat:?}: the regressor below differs after {total} examples");
        t.eval();
        t.step();
        t.distinct(&(reg.to_string(), pat));
        Ok(())
    });
    let sz = ladder(5, ctx.b(130, 520));
    ctx.explore("labels-large", |c, t| {
        let reg = c.of(&regs).1.clone();
        let n = *c.of(&sz);
        let shape = c.choose(4);
        let l = c.flag();
        let g = global(11, 7, true, &[]);
        let (mut b, mut r) = (ws(&g, &node("Binary", json!({"regressor": reg}))), ws(&g, &reg));
        for k in 0..2 {
            let s = wide_simple(n, shape);
            let (mut f1, mut f2): (Features, Features) = (mk(&s, 7, 11).into(), mk(&s, 7, 11).into());
            let q = guarded(|| r.predict(&mut f2))?;
            guarded(|| r.learn(&mut f2, &Label::Simple(SimpleLabel::new(if l { 1.0 } else { -1.0 }, 1.0))))?;
            let p = guarded(|| b.predict_then_learn(&mut f1, &Label::Binary(BinaryLabel(l))))?;
            let (Prediction::Binary(p), Prediction::Scalar(q)) = (p, q) else { return Err("prediction types".into()) };
            ensure!(p.0 == (q.prediction > 0.0), "{reg} {n} features, step {k}: classified {}, the regressor predicts {}", p.0, q.prediction);
        }
        ensure!(coins(&b)? == coins(&r)?, "{reg} {n} features of shape {shape}: the regressor below differs");
        t.eval();
        t.step();
        t.distinct(&(reg.to_string(), n, shape, l));
        Ok(())
    });
}

/// Whether every number of a saved model is finite; read from the saved form, not through the code under test.
fn finite(bytes: &[u8]) -> Result<bool, String> {
    fn walk(r: flexbuffers::Reader<&[u8]>) -> bool {
        use flexbuffers::FlexBufferType as T;
        match r.flexbuffer_type() {
            T::Map => r.as_map().iter_values().all(walk),
            t if t.is_vector() => r.as_vector().iter().all(walk),
            T::Float | T::IndirectFloat => r.as_f64().is_finite(),
            _ => true,
        }
    }
    flexbuffers::Reader::get_root(bytes).map(walk).map_err(|e| format!("a saved model is no flexbuffer: {e}"))
}

pub fn c18(ctx: &Ctx, how: Trip) {
    // magnitudes: weights and state of every size f32 has, subnormal ones among them
    let ten = |k: i32| format!("1e{k}").parse::<f32>().unwrap();
    let step = ctx.b(3, 1) as i32;
    let values: Vec<f32> = (-45i32..=38).filter(|k| k.rem_euclid(step) == 0 || *k == -39 || *k == 38).map(ten).chain([0.1, 1.0 / 3.0, 16_777_217.0, f32::MIN_POSITIVE, f32::MAX]).collect();
    let feats: Vec<f32> = ctx.some(&values, 3).copied().chain([1.0f32, 0.5]).collect();
    let mut some: Vec<Stack> = stacks(0).into_iter().filter(|s| s.kind != Kind::Binary).collect();
    // with the default beta some state is never small
    some.push(Stack { name: "coin with a tiny beta".into(), kind: Kind::Scalar, entry: coin(json!({"beta": 1e-38})) });
    ctx.bound(format!("{} stacks x {} label or cost magnitudes x {} feature magnitudes from the least subnormal up, both signs, learned once or twice: the round trip bit by bit, refused only where something is infinite or undefined", some.len(), values.len(), feats.len()));
    ctx.explore("round-trip-magnitudes", |c, t| {
        let s = c.of(&some).clone();
        let l = *c.of(&values) * if c.flag() { -1.0 } else { 1.0 };
        let v = *c.of(&feats);
        let two = c.flag();
        let g = global(4, 9, false, &[]);
        let spec = if s.kind.cb() { format!("s|x:0.5 // a|y:{v} / b|y:1") } else { format!("a|y:{v} z:0.5;:default|1:1") };
        let mut a = ws(&g, &s.entry);
        let lab = if s.kind.cb() { Label::CB(CBLabel::new(0, l, 0.5)) } else { Label::Simple(SimpleLabel::new(l, 1.0)) };
        let at = |m: String| format!("{}, feature {v:e}, label {l:e}, {} learned: {m}", s.name, two as u8 + 1);
        for _ in 0..two as usize + 1 {
            let mut f = example(s.kind, &spec, 9, 4);
            guarded(|| a.learn(&mut f, &lab)).map_err(at)?;
        }
        let before = bytes(&a)?;
        t.eval();
        let mut b = match trip(&a, how) {
            Err(m) if how == Trip::Json && m.starts_with("export failed") && !finite(&before)? => {
                t.note("export refused");
                return Ok(());
            }
            r => r.map_err(at)?,
        };
        ensure!(bytes(&b)? == before, "{}", at("another model after the round trip".into()));
        let mut f = example(s.kind, &spec, 9, 4);
        let (x, y) = (guarded(|| pv(&a.predict(&mut f)))?, guarded(|| pv(&b.predict(&mut f)))?);
        ensure!(x == y, "{}", at(format!("predicts {y:?}, never saved {x:?}")));
        t.step();
        t.distinct(&(&s.name, l.to_bits(), v.to_bits(), two));
        Ok(())
    });
    let mut sz = ladder(3, ctx.b(1030, 70_000));
    if ctx.quick() {
        sz.retain(|n| *n <= 3 || n.is_power_of_two() || (n + 1).is_power_of_two() || (n - 1).is_power_of_two());
        sz.push(5000);
    }
    let all: Vec<Stack> = stacks(0).into_iter().filter(|s| ["coin", "binary/elem", "mtr/coin", "squarecb/mtr/coin", "greedy/ips/coinLogLink"].contains(&s.name.as_str())).collect();
    ctx.bound(format!("{} stacks x {} numbers of learned features up to {} x index widths 13 and 18 (default 18)", all.len(), sz.len(), sz.last().unwrap()));
    ctx.explore("round-trip-large", |c, t| {
        let s = c.of(&all).clone();
        let n = *c.of(&sz);
        let bits = *c.of(&[13u8, 18]);
        let g = global(bits, 9, true, &[]);
        let feats = |k: usize| -> String { format!("a|{}", (0..k).map(|i| format!("f{i}:{}", [1.0, -0.5, 0.3][i % 3])).collect::<Vec<_>>().join(" ")) };
        let spec = if s.kind.cb() { format!("s|x:1 // {} / b|y:1", feats(n)) } else { format!("{};b|x:1 y:1", feats(n)) };
        let mut a = ws(&g, &s.entry);
        let mut f = example(s.kind, &spec, 9, bits);
        let lab = lab_for(s.kind, &f, 0);
        guarded(|| a.learn(&mut f, &lab))?;
        let at = |m: String| format!("{}, {n} features, {bits} bits: {m}", s.name);
        let mut b = trip(&a, how).map_err(at)?;
        ensure!(bytes(&a)? == bytes(&b)?, "{}", at("another model after the round trip".into()));
        let (x, y) = (guarded(|| pv(&a.predict(&mut f)))?, guarded(|| pv(&b.predict(&mut f)))?);
        ensure!(x == y, "{}", at(format!("predicts {y:?}, never saved {x:?}")));
        guarded(|| a.learn(&mut f, &lab))?;
        guarded(|| b.learn(&mut f, &lab))?;
        ensure!(bytes(&a)? == bytes(&b)?, "{}", at("learning on leads to another model".into()));
        t.eval();
        t.step();
        t.distinct(&(&s.name, n, bits));
        Ok(())
    });
    let tall = ctx.b(24, 40);
    ctx.bound(format!("stacks of 0..={tall} Debug layers over a regressor, a bandit and an explorer"));
    ctx.explore("round-trip-tall", |c, t| {
        let n = c.choose(tall + 1);
        let (mut v, kind) = c.of(&[
            (coin(json!({})), Kind::Scalar),
            (node("CbAdf", json!({"cbType": "ips"})), Kind::Scores),
            (node("CbExploreAdfSoftmax", json!({})), Kind::Probs),
        ])
        .clone();
        for k in 0..n {
            v = node("Debug", json!({"id": format!("{k}"), "next": v}));
        }
        let mut a = ws(&global(4, 9, true, &[]), &v);
        let mut f = example(kind, if kind.cb() { CB[0] } else { SIMPLE[0] }, 9, 4);
        let lab = lab_for(kind, &f, 0);
        let at = |m: String| format!("{n} layers: {m}");
        guarded(|| a.learn(&mut f, &lab)).map_err(at)?;
        let mut b = trip(&a, how).map_err(at)?;
        ensure!(bytes(&a)? == bytes(&b)?, "{}", at("another model after the round trip".into()));
        guarded(|| a.learn(&mut f, &lab)).map_err(at)?;
        guarded(|| b.learn(&mut f, &lab)).map_err(at)?;
        let (x, y) = (guarded(|| pv(&a.predict(&mut f)))?, guarded(|| pv(&b.predict(&mut f)))?);
        ensure!(x == y && bytes(&a)? == bytes(&b)?, "{}", at("learning on leads to another model".into()));
        t.eval();
        t.step();
        t.distinct(&(n, kind.cb()));
        Ok(())
    });
    let ni = ladder(4, ctx.b(20, 60));
    ctx.explore("round-trip-interactions", |c, t| {
        // long lists of interactions, long ones among them, and extreme seeds and widths
        let n = *c.of(&ni);
        let seed = *c.of(&[0u32, 255, 256, 65535, 65536, i32::MAX as u32, 1 << 31, u32::MAX]);
        let bits = *c.of(&[1u8, 5, 16, 18]);
        let names = ["a", "b", "aab", "abs", "_a", "_ab"];
        let it: Vec<&str> = (0..n).map(|i| names[i % 6]).filter(|x| x.len() > 1).collect();
        let g = global(bits, seed, n % 2 == 0, &it);
        let mut a = ws(&g, &coin(json!({})));
        let mut f = example(Kind::Scalar, SIMPLE[0], seed, bits);
        guarded(|| a.learn(&mut f, &Label::Simple(SimpleLabel::new(1.0, 1.0))))?;
        let mut b = trip(&a, how).map_err(|m| format!("{g}: {m}"))?;
        ensure!(bytes(&a)? == bytes(&b)?, "{g}: another model after the round trip");
        guarded(|| a.learn(&mut f, &Label::Simple(SimpleLabel::new(-1.0, 1.0))))?;
        guarded(|| b.learn(&mut f, &Label::Simple(SimpleLabel::new(-1.0, 1.0))))?;
        ensure!(bytes(&a)? == bytes(&b)?, "{g}: learning on leads to another model");
        t.eval();
        t.step();
        t.distinct(&g.to_string());
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C22, C26

pub fn c22(ctx: &Ctx) {
    let mut sz = ladder(3, ctx.b(4100, 140_000));
    sz.retain(|n| *n <= 3 || n.is_power_of_two() || (n + 1).is_power_of_two() || (n - 1).is_power_of_two());
    sz.push(ctx.b(65537, 200_000));
    ctx.bound(format!("tables of 2^18 features with each of {} numbers of written entries up to {}, low, high and spread", sz.len(), sz.last().unwrap()));
    ctx.explore("weights-many", |c, t| {
        let k = *c.of(&sz) as u32;
        let place = c.choose(3);
        let (nm, ns) = *c.of(&[(1u8, 6u8), (2, 1)]);
        let n = 1u32 << 18;
        let mut w = DenseWeights::new(n.into(), ModelIndex::from(nm), StateIndex::from(ns)).map_err(|e| format!("{e}"))?;
        let idx = |i: u32| match place {
            0 => i,
            1 => n - 1 - i,
            _ => ((i as u64 * 262_139) % n as u64) as u32,
        };
        for i in 0..k {
            let s = (i % ns as u32) as usize;
            w.state_at_mut(idx(i).into(), ((i % nm as u32) as u8).into())[s] = 1.0 + i as f32 / 16.0;
        }
        crate::small::roundtrips(&w).map_err(|m| format!("{k} of 2^18 entries ({place}), {nm} models x {ns} states: {m}"))?;
        t.eval();
        t.distinct(&(k, place, nm, ns));
        Ok(())
    });
}

pub fn c26(ctx: &Ctx) {
    let sz = ladder(5, ctx.b(1100, 70_000));
    ctx.bound(format!("{} numbers of bandit examples up to {}, {} numbers of features and actions", sz.len(), sz.last().unwrap(), sz.len()));
    ctx.explore("metrics-cb-long", |c, t| {
        let n = *c.of(&sz);
        let pat = c.choose(3);
        let mut ms: Vec<Box<dyn Metric>> = ["ips", "parsed_features", "example_number"].iter().map(|n| get_metric(n).expect("known")).collect();
        let one = |k: usize| {
            let mut s = SparseFeatures::new();
            for i in 0..k {
                s.get_or_create_namespace(Namespace::Default).add_feature((i as u32).into(), 1.0);
            }
            s
        };
        let f: Features = CBAdfFeatures { shared: Some(one(2)), actions: vec![one(1), one(3)] }.into();
        let pr: Prediction = ActionProbsPrediction(vec![(0, 0.25), (1, 0.75)]).into();
        let mut sum = 0.0f64;
        for i in 0..n {
            let a = [0, 1, i % 2][pat];
            let cost = [-1.0f32, 0.5, -2.0][i % 3];
            sum += -(cost as f64) * [0.25, 0.75][a] / 0.5;
            let lab: Label = CBLabel::new(a, cost, 0.5).into();
            ms.iter_mut().for_each(|m| m.add_point(&f, &lab, &pr));
        }
        let want = [sum / n as f64, 6.0 * n as f64, n as f64 - 1.0];
        for (j, m) in ms.iter().enumerate() {
            let got = crate::small::mval(&m.get_value());
            ensure!((got - want[j]).abs() <= 1e-3 * (1.0 + want[j].abs()), "{} after {n} bandit examples is {got}, want {}", m.get_name(), want[j]);
        }
        t.eval();
        t.distinct(&(n, pat));
        Ok(())
    });
    ctx.explore("metrics-large", |c, t| {
        let n = *c.of(&sz);
        let kind = c.choose(3);
        let mut m = get_metric("parsed_features").unwrap();
        let mut ips = get_metric("ips").unwrap();
        let one = |k: usize, nss: usize| {
            let mut s = SparseFeatures::new();
            for i in 0..k {
                let ns = if nss == 1 { Namespace::Default } else { Namespace::Named(NamespaceHash::from((i % nss) as u32)) };
                s.get_or_create_namespace(ns).add_feature((i as u32).into(), 1.0);
            }
            s
        };
        let a = n / 2;
        let (f, want): (Features, u64) = match kind {
            0 => (one(n, 1).into(), n as u64),
            1 => (one(n, 50).into(), n as u64),
            _ => (CBAdfFeatures { shared: Some(one(2, 1)), actions: (0..n).map(|_| one(1, 1)).collect() }.into(), n as u64 + 2),
        };
        let lab: Label = if kind == 2 { CBLabel::new(a, -1.0, 0.5).into() } else { SimpleLabel::new(1.0, 1.0).into() };
        let pr: Prediction = ActionProbsPrediction((0..n).map(|i| (i, if i == a { 0.5 } else { 0.0 })).collect()).into();
        m.add_point(&f, &lab, &pr);
        let got = crate::small::mval(&m.get_value());
        ensure!(got == want as f64, "{got} features counted in an example of {want}");
        if kind == 2 {
            ips.add_point(&f, &lab, &pr);
            let got = crate::small::mval(&ips.get_value());
            ensure!((got - 1.0).abs() < 1e-6, "ips of {n} actions is {got}, want 1");
        }
        t.eval();
        t.distinct(&(n, kind));
        Ok(())
    });
}

// ------------------------------------------------------------------------- texts: C28, C06, C04, C08

#[derive(Clone, Debug)]
enum It {
    Name(String, f32),
    Str(String, String),
    Num(f32),
}
type Doc = Vec<(String, Vec<It>)>; // " " is the default namespace

fn doc_feats(d: &Doc, seed: u32, bits: u8) -> Feats {
    let mut out = Feats::default();
    for (n, v) in d {
        let (ns, nh) = ns_of(n, seed);
        let mut k = 0u32;
        for i in v {
            let (x, val) = match i {
                It::Name(s, v) => (h(s, nh), *v),
                It::Str(s, x) => (h(x, h(s, nh)), 1.0),
                It::Num(v) => {
                    k += 1;
                    (nh.wrapping_add(k - 1), *v)
                }
            };
            out.add(ns, mask(x, bits), val);
        }
    }
    out
}
fn doc_vw(d: &Doc) -> String {
    d.iter()
        .map(|(n, v)| {
            let f: String = v
                .iter()
                .map(|i| match i {
                    It::Name(s, v) => format!(" {s}:{v}"),
                    It::Str(s, x) => format!(" {s}:{x}"),
                    It::Num(v) => format!(" :{v}"),
                })
                .collect();
            format!("|{}{f} ", if n == " " { "" } else { n })
        })
        .collect()
}
fn doc_json(d: &Doc, ds: bool) -> String {
    d.iter()
        .map(|(n, v)| {
            let name = if n == " " { ":default" } else { n };
            let nums = v.iter().all(|i| matches!(i, It::Num(_)));
            let body: Vec<String> = v
                .iter()
                .map(|i| match i {
                    It::Name(s, v) => format!("\"{s}\":{v}"),
                    It::Str(s, x) => format!("\"{s}\":\"{x}\""),
                    It::Num(v) => format!("{v}"),
                })
                .collect();
            let _ = ds;
            if nums {
                format!("\"{name}\":[{}]", body.join(","))
            } else {
                format!("\"{name}\":{{{}}}", body.join(","))
            }
        })
        .collect::<Vec<_>>()
        .join(",")
}

/// Documents that are large in one direction.
fn large_doc(kind: usize, n: usize) -> Doc {
    let v = |i: usize| [1.0f32, -0.5, 0.25, 3.0, 1e-3][i % 5];
    match kind {
        0 => vec![("a".into(), (0..n).map(|i| It::Name(format!("f{i}"), v(i))).collect()), ("b".into(), vec![It::Num(2.0)])],
        1 => vec![("b".into(), vec![It::Name("x".into(), 1.5)]), ("a".into(), (0..n).map(|i| It::Num(v(i))).collect())],
        2 => (0..n).map(|i| (format!("n{i}"), vec![It::Name("x".into(), v(i))])).collect(),
        3 => vec![("a".into(), (0..n).map(|i| It::Str(format!("k{}", i), "v".repeat(1 + i % 7))).collect())],
        4 => vec![("a".into(), vec![It::Name("é".repeat(n), 2.0), It::Str("k".into(), "w".repeat(n)), It::Name("after".into(), 1.5)])],
        _ => vec![("n".repeat(n), vec![It::Num(0.5), It::Num(1.5), It::Name("q".into(), 0.5)].into_iter().filter(|i| !matches!(i, It::Num(_)) || n % 2 == 0).filter(|i| n % 2 == 1 || matches!(i, It::Num(_))).collect())],
    }
}

/// (text for one parse, features, label)
fn large_text(fmt: Fmt, cb: bool, kind: usize, n: usize, seed: u32, bits: u8) -> (String, Ex, Lab) {
    if !cb {
        let d = large_doc(kind, n);
        let f = Ex::Simple(doc_feats(&d, seed, bits));
        return match fmt {
            Fmt::Vw => (format!("1.5 2 {}", doc_vw(&d)).trim_end().to_string(), f, Lab::simple(1.5, 2.0)),
            _ => (format!("{{\"label\":{{\"value\":1.5,\"weight\":2}},\"features\":{{{}}}}}", doc_json(&d, false)), f, Lab::simple(1.5, 2.0)),
        };
    }
    let small: Doc = vec![("a".into(), vec![It::Name("x".into(), 1.0)]), ("b".into(), vec![It::Num(1.0), It::Num(2.0)])];
    // the large part in the shared features, in an action, or many actions
    let (shared, acts): (Doc, Vec<Doc>) = match kind {
        6 => (small.clone(), (0..n).map(|i| vec![("a".to_string(), vec![It::Name(format!("f{i}"), 1.0)])]).collect()),
        k if n % 2 == 0 => (large_doc(k, n), vec![small.clone(), vec![]]),
        k => (small.clone(), vec![small.clone(), large_doc(k, n), small.clone()]),
    };
    let a = acts.len() - 1;
    let ex = Ex::Cb(Some(doc_feats(&shared, seed, bits)), acts.iter().map(|d| doc_feats(d, seed, bits)).collect());
    let lab = Lab::cb(a, -1.5, 0.25);
    let text = match fmt {
        Fmt::Vw => {
            let mut l = vec![format!("shared {}", doc_vw(&shared))];
            for (i, d) in acts.iter().enumerate() {
                l.push(format!("{}{}", if i == a { "0:-1.5:0.25 " } else { "" }, if d.is_empty() { "|".to_string() } else { doc_vw(d) }));
            }
            l.iter().map(|x| x.trim_end()).collect::<Vec<_>>().join("\n")
        }
        Fmt::Json => format!(
            "{{\"label\":{{\"action\":{a},\"cost\":-1.5,\"probability\":0.25}},\"shared\":{{{}}},\"actions\":[{}]}}",
            doc_json(&shared, false),
            acts.iter().map(|d| format!("{{{}}}", doc_json(d, false))).collect::<Vec<_>>().join(",")
        ),
        Fmt::Ds => format!(
            "{{\"_label_cost\":-1.5,\"_label_probability\":0.25,\"_labelIndex\":{a},\"c\":{{{},\"_multi\":[{}]}}}}",
            doc_json(&shared, true),
            acts.iter().map(|d| format!("{{{}}}", doc_json(d, true))).collect::<Vec<_>>().join(",")
        ),
    };
    (text, ex, lab)
}

const READERS: [(Fmt, bool); 5] = [(Fmt::Vw, false), (Fmt::Vw, true), (Fmt::Json, false), (Fmt::Json, true), (Fmt::Ds, true)];
const KINDS: usize = 7;

fn parse_one(p: &AnyParser, text: &str) -> Result<(Features<'static>, Option<Label>), String> {
    guarded(|| p.p().parse(text))?.map_err(|e| format!("refused: {e}"))
}

pub fn c28(ctx: &Ctx) {
    let sz = ladder(12, ctx.b(300, 5000));
    ctx.bound(format!("5 readers x 7 directions (named features, numbers, namespaces, string values, name lengths, namespace name lengths, actions) x {} sizes up to {} x 3 seeds and widths", sz.len(), sz.last().unwrap()));
    ctx.explore("large-texts", |c, t| {
        let (fmt, cb) = *c.of(&READERS);
        let n = *c.of(&sz);
        let kind = c.choose(if cb { KINDS } else { KINDS - 1 });
        let (seed, bits) = *c.of(&[(0u32, 18u8), (2623688649, 31), (7, 5)]);
        let (text, ex, lab) = large_text(fmt, cb, kind, n, seed, bits);
        let what = || format!("{fmt:?} cb {cb}, {n} of kind {kind}, seed {seed}, {bits} bits");
        let p = AnyParser::fresh(fmt, cb, seed, bits);
        let (f, l) = parse_one(&p, &text).map_err(|m| format!("{}: {m}", what()))?;
        let (got, want) = (view(&f).norm_shared(), ex.sort().norm_shared());
        ensure!(got == want, "{}: other features than written: {}", what(), diff(&got, &want));
        ensure!(view_label(&l) == lab, "{}: label {:?}, want {lab:?}", what(), view_label(&l));
        consistent_features(&f).map_err(|m| format!("{}: {m}", what()))?;
        // and read from a file, with others around it
        let end = if cb && fmt == Fmt::Vw { "\n\n" } else { "\n" };
        let (other, ..) = large_text(fmt, cb, 0, 2, seed, bits);
        let cut = guarded(|| chunks(&p, &format!("{other}{end}{text}{end}{other}")))??;
        ensure!(cut.len() == 3, "{}: read as {} examples with one before and one after it", what(), cut.len());
        let (f, _) = parse_one(&p, &cut[1]).map_err(|m| format!("{} from a file: {m}", what()))?;
        ensure!(view(&f).norm_shared() == want, "{}: other features when read from a file", what());
        t.eval();
        t.distinct(&(&text, seed, bits));
        t.sample(|| what());
        Ok(())
    });
}

fn diff(a: &Ex, b: &Ex) -> String {
    let n = |e: &Ex| -> Vec<usize> {
        match e {
            Ex::Simple(f) => vec![f.0.values().map(|v| v.len()).sum()],
            Ex::Cb(s, a) => s.iter().chain(a).map(|f| f.0.values().map(|v| v.len()).sum()).collect(),
        }
    };
    format!("features per part {:?}, want {:?}", n(a), n(b))
}

pub fn c06(ctx: &Ctx) {
    let sz = ladder(12, ctx.b(300, 5000));
    ctx.bound(format!("the formats against each other: 7 directions x {} sizes up to {} x 9 seeds and widths", sz.len(), sz.last().unwrap()));
    ctx.explore("large", |c, t| {
        let cb = c.flag();
        let n = *c.of(&sz);
        let kind = c.choose(if cb { KINDS } else { KINDS - 1 });
        let (seed, bits) = *c.of(&crate::parse::EDGE);
        let mut first: Option<(Ex, Lab)> = None;
        for (fmt, x) in READERS {
            if x != cb {
                continue;
            }
            let (text, ..) = large_text(fmt, cb, kind, n, seed, bits);
            let (f, l) = parse_one(&AnyParser::fresh(fmt, cb, seed, bits), &text).map_err(|m| format!("{fmt:?}, {n} of kind {kind}: {m}"))?;
            let got = (view(&f).norm_shared(), view_label(&l));
            match &first {
                None => first = Some(got),
                Some(w) => {
                    ensure!(got.0 == w.0, "{fmt:?} and {:?}, {n} of kind {kind}, seed {seed}, {bits} bits: {}", Fmt::Vw, diff(&got.0, &w.0));
                    ensure!(got.1 == w.1, "{fmt:?} and {:?}, {n} of kind {kind}: labels {:?} / {:?}", Fmt::Vw, got.1, w.1);
                }
            }
        }
        t.eval();
        t.distinct(&(cb, n, kind, seed, bits));
        Ok(())
    });
}

pub fn c04(ctx: &Ctx) {
    let sz = ladder(4, ctx.b(66, 300));
    ctx.bound(format!("through one pool: all ordered pairs of large texts, 7 directions x {} sizes up to {}, the second parsed twice, against a fresh pool", sz.len(), sz.last().unwrap()));
    ctx.explore("recycle-large", |c, t| {
        let (fmt, cb) = *c.of(&READERS);
        let k = if cb { KINDS } else { KINDS - 1 };
        let (k1, n1, k2, n2) = (c.choose(k), *c.of(&sz), c.choose(k), *c.of(&sz));
        let pool: Arc<Pool<SparseFeatures>> = Arc::new(Pool::new());
        let p = AnyParser::new(fmt, cb, 0, 12, pool.clone());
        let what = || format!("{fmt:?} cb {cb}: {n2} of kind {k2} after {n1} of kind {k1}");
        let (text, ..) = large_text(fmt, cb, k1, n1, 0, 12);
        let (f, _) = parse_one(&p, &text).map_err(|m| format!("{}: {m}", what()))?;
        f.clear_and_return_object(&pool);
        let (text, ex, lab) = large_text(fmt, cb, k2, n2, 0, 12);
        let want = ex.sort().norm_shared();
        for round in 0..2 {
            let (f, l) = parse_one(&p, &text).map_err(|m| format!("{}: {m}", what()))?;
            let got = view(&f).norm_shared();
            ensure!(got == want, "{}, round {round}: {}", what(), diff(&got, &want));
            ensure!(view_label(&l) == lab, "{}: label {:?}", what(), view_label(&l));
            consistent_features(&f).map_err(|m| format!("{}: {m}", what()))?;
            f.clear_and_return_object(&pool);
            t.step();
        }
        t.eval();
        t.distinct(&(fmt as usize, cb, k1, n1, k2, n2));
        Ok(())
    });
}

pub fn c08(ctx: &Ctx) {
    let sz = ladder(12, ctx.b(300, 5000));
    ctx.bound(format!("names extracted from large lines (6 directions x {} sizes up to {}); inverse tables of as many features, apart or at one index", sz.len(), sz.last().unwrap()));
    ctx.explore("names-of-large-lines", |c, t| {
        let n = *c.of(&sz);
        let kind = c.choose(KINDS - 1);
        let (seed, bits) = *c.of(&[(0u32, 18u8), (2623688649, 31)]);
        let d = large_doc(kind, n);
        let text = doc_vw(&d).trim_end().to_string();
        let vp = VwTextParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, seed, bits, Arc::new(Pool::new()));
        let m = guarded(|| vp.extract_feature_names(&text))?.map_err(|e| format!("{n} of kind {kind}: {e}"))?;
        let mut got = Feats::default();
        for (k, v) in &m {
            let name = match k {
                ParsedNamespaceInfo::Named(n) => *n,
                ParsedNamespaceInfo::Default => ":default",
            };
            for x in v {
                let f = Feature::from_parsed_feature(x, name);
                got.add(ns_of(name, seed).0, u32::from(guarded(|| f.hash(seed))?.mask(FeatureMask::from_num_bits(bits))), 0.0);
            }
        }
        let mut want = doc_feats(&d, seed, bits);
        want.0.values_mut().flatten().for_each(|x| x.1 = 0);
        ensure!(got.sort() == want.sort(), "{n} of kind {kind}, seed {seed}: the names extracted do not denote the parsed features");
        t.eval();
        t.distinct(&(n, kind, seed));
        Ok(())
    });
    ctx.explore("large-table", |c, t| {
        let n = *c.of(&sz);
        let one = c.flag();
        let mut tab = InverseHashTable::new();
        let feat = |i: usize| Feature::Simple { namespace: "a".into(), name: format!("f{i}") };
        let at = |i: usize| if one { 7 } else { (i * 3) as u32 };
        for i in 0..n {
            tab.insert(at(i).into(), feat(i));
        }
        for i in 0..n {
            let s = tab.get(at(i).into()).ok_or_else(|| format!("feature {i} of {n} lost"))?;
            ensure!(s.contains(&feat(i)) && s.len() == if one { n } else { 1 }, "feature {i} of {n}: {} names at its index", s.len());
        }
        ensure!(tab.get(1.into()).is_none(), "the table invents entries");
        t.eval();
        t.distinct(&(n, one));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C05

pub fn c05(ctx: &Ctx) {
    let sz = ladder(9, ctx.b(130, 1030));
    ctx.bound(format!("containers of 1..4 namespaces, one of each of {} sizes up to {}; or that many namespaces: filling in five ways, appending, un-appending, removing, clearing, refilling", sz.len(), sz.last().unwrap()));
    ctx.explore("large-containers", |c, t| {
        let n = *c.of(&sz);
        let many = c.flag();
        let how = c.choose(5);
        let n2 = *c.of(&[1usize, 3, 40, n]);
        let ns = |k: usize| if k == 1 { Namespace::Default } else { Namespace::Named(NamespaceHash::from((k * 11) as u32)) };
        let list = |k: usize, salt: u32| -> Vec<(u32, f32)> { (0..k).map(|i| (i as u32 * 3 + salt, i as f32 * 0.5 - 1.0)).collect() };
        let content = |k: usize, salt: u32| -> Vec<(Namespace, Vec<(u32, f32)>)> {
            if many {
                (0..k).map(|j| (ns(j), list(1 + j % 3, salt + j as u32))).collect()
            } else {
                vec![(ns(0), list(k, salt)), (ns(1), list(2, salt)), (ns(2), list(k / 2, salt))]
            }
        };
        let fill = |s: &mut SparseFeatures, ct: &[(Namespace, Vec<(u32, f32)>)]| {
            for (n, l) in ct {
                let (i, v): (Vec<reductionml_core::FeatureIndex>, Vec<f32>) = l.iter().map(|x| (reductionml_core::FeatureIndex::from(x.0), x.1)).unzip();
                match how {
                    0 => s.get_or_create_namespace(*n).add_features(&i, &v),
                    1 => {
                        let d = s.get_or_create_namespace(*n);
                        i.iter().zip(&v).for_each(|(a, b)| d.add_feature(*a, *b));
                    }
                    2 => s.get_or_create_namespace_with_capacity(*n, l.len() / 2).add_features(&i, &v),
                    3 => {
                        let d = s.get_or_create_namespace(*n);
                        d.reserve(l.len());
                        d.add_features_with_iter(i.into_iter(), v.into_iter())
                    }
                    _ => {
                        let mut o = SparseFeatures::new();
                        o.get_or_create_namespace(*n).add_features(&i, &v);
                        s.append(&o)
                    }
                }
            }
        };
        let see = |s: &SparseFeatures| -> BTreeMap<Namespace, Vec<(u32, u32)>> {
            s.namespaces().map(|(n, i)| (n, i.map(|(i, v)| (u32::from(i), v.to_bits())).collect::<Vec<_>>())).filter(|x: &(Namespace, Vec<(u32, u32)>)| !x.1.is_empty()).collect()
        };
        let want = |parts: &[&[(Namespace, Vec<(u32, f32)>)]]| -> BTreeMap<Namespace, Vec<(u32, u32)>> {
            let mut m: BTreeMap<Namespace, Vec<(u32, u32)>> = BTreeMap::new();
            for (n, l) in parts.iter().flat_map(|p| p.iter()) {
                m.entry(*n).or_default().extend(l.iter().map(|x| (x.0, x.1.to_bits())));
            }
            m.retain(|_, v| !v.is_empty());
            m
        };
        let at = |m: &str| format!("{n}{} filled in way {how}, {n2} appended: {m}", if many { " namespaces" } else { " features" });
        let (a, b) = (content(n, 0), content(n2, 5));
        let mut s = SparseFeatures::new();
        fill(&mut s, &a);
        ensure!(see(&s) == want(&[&a]), "{}", at("other content after filling"));
        consistent(&s)?;
        let mut o = SparseFeatures::new();
        fill(&mut o, &b);
        let copy = s.clone();
        guarded(|| s.append(&o))?;
        ensure!(see(&s) == want(&[&a, &b]), "{}", at("other content after appending"));
        guarded(|| s.remove(&o))?;
        ensure!(see(&s) == want(&[&a]), "{}", at("other content after un-appending"));
        {
            use approx::AbsDiffEq;
            ensure!(s.abs_diff_eq(&copy, 0.0) && copy.abs_diff_eq(&s, 0.0), "{}", at("differs from the copy made before"));
            // one value, one index or one feature more: different
            for k in 0..3 {
                let mut d = copy.clone();
                let last = *see(&copy).keys().last().unwrap();
                let l = see(&copy)[&last].clone();
                let mut x = reductionml_core::sparse_namespaced_features::SparseFeaturesNamespace::new(last);
                for (q, (i, v)) in l.iter().enumerate() {
                    let end = q + 1 == l.len();
                    x.add_feature((i + (end && k == 0) as u32).into(), f32::from_bits(*v) + if end && k == 1 { 0.5 } else { 0.0 });
                }
                if k == 2 {
                    x.add_feature(1.into(), 1.0);
                }
                d.set_namespace(last, x);
                ensure!(!d.abs_diff_eq(&copy, 1e-3) && !copy.abs_diff_eq(&d, 1e-3), "{}", at("equals a container that differs in its last feature"));
            }
        }
        let gone = guarded(|| s.remove_namespace(ns(0)))?;
        ensure!(gone.map(|g| g.size()).unwrap_or(0) == want(&[&a]).get(&ns(0)).map_or(0, |v| v.len()), "{}", at("another namespace removed"));
        ensure!(see(&s) == want(&[&a[1..]]), "{}", at("other content after removing a namespace"));
        guarded(|| s.clear())?;
        ensure!(see(&s).is_empty() && s.all_features().next().is_none(), "{}", at("not empty after clearing"));
        fill(&mut s, &b);
        ensure!(see(&s) == want(&[&b]), "{}", at("other content after refilling"));
        consistent(&s)?;
        t.eval();
        t.step();
        t.distinct(&(n, many, how, n2));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C19

pub fn c19(ctx: &Ctx) {
    let sz: Vec<usize> = if ctx.quick() { vec![40, 300] } else { vec![40, 300, 3000] };
    ctx.bound(format!("models with {sz:?} learned features cut at every byte"));
    let ms: Vec<(usize, Vec<u8>)> = sz
        .iter()
        .map(|n| {
            let mut w = ws(&global(13, 1, true, &["ab"]), &coin(json!({})));
            let mut f: Features = mk(&wide_simple(*n, 0), 1, 13).into();
            w.learn(&mut f, &Label::Simple(SimpleLabel::new(1.0, 1.0)));
            (*n, bytes(&w).unwrap())
        })
        .collect();
    ctx.explore("prefixes-large", |c, t| {
        let (n, b) = c.of(&ms);
        let cut = c.choose(b.len());
        let r = guarded(|| reductionml_core::workspace::Workspace::create_from_model(&b[..cut]).map_err(|e| e.to_string())).map_err(|m| format!("a model of {n} features cut to {cut} of {} bytes: {m}", b.len()))?;
        ensure!(r.is_err(), "a model of {n} features cut to {cut} of {} bytes loads", b.len());
        t.eval();
        t.distinct(&(n, cut));
        Ok(())
    });
}
