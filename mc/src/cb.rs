//! Contextual bandits: C13 (reduction to regression), C14 (greedy, softmax), C27 (square-CB).
use crate::common::*;
use crate::ensure;
use crate::small::reference_min_prob;
use crate::stacks::*;
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use reductionml_core::workspace::Workspace;
use reductionml_core::{CBAdfFeatures, CBLabel, Features, Label, Prediction, SimpleLabel};
use serde_json::{json, Value};

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

/// Every number of two JSON values agrees within tol, everything else exactly. Weight tables may omit zero entries.
pub fn json_close(a: &Value, b: &Value, tol: f64) -> Result<(), String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            ensure!(close(x, y, tol), "{x} instead of {y}");
            Ok(())
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            x.iter().zip(y).enumerate().try_for_each(|(i, (x, y))| json_close(x, y, tol).map_err(|e| format!("[{i}]{e}")))
        }
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                match (x.get(k), y.get(k)) {
                    (Some(p), Some(q)) => json_close(p, q, tol).map_err(|e| format!(".{k}{e}"))?,
                    (Some(p), None) | (None, Some(p)) => {
                        let mut z = true;
                        fn zero(v: &Value, z: &mut bool) {
                            match v {
                                Value::Array(a) => a.iter().for_each(|x| zero(x, z)),
                                Value::Number(n) => *z &= n.as_f64().unwrap().abs() < 1e-9,
                                _ => *z = false,
                            }
                        }
                        zero(p, &mut z);
                        ensure!(z, ".{k} only on one side: {p}");
                    }
                    _ => unreachable!(),
                }
            }
            Ok(())
        }
        (x, y) => {
            ensure!(x == y, "{x} instead of {y}");
            Ok(())
        }
    }
}

/// The action's features joined with the shared ones, namespace by namespace.
pub fn join(f: &CBAdfFeatures, a: usize) -> SparseFeatures {
    let mut out = SparseFeatures::new();
    for s in [Some(&f.actions[a]), f.shared.as_ref()].into_iter().flatten() {
        for (ns, it) in s.namespaces() {
            let d = out.get_or_create_namespace(ns);
            for (i, v) in it {
                d.add_feature(i, v);
            }
        }
    }
    out
}

const TOL: f64 = 2e-4;

pub fn c13(ctx: &Ctx) {
    let bits = 5;
    let regs: Vec<(String, Value)> = regressors(ctx.b(0, 1)).into_iter().filter(|x| !x.0.starts_with("elemSelf")).collect();
    let mut gl = vec![
        global(bits, 0, true, &[]),
        global(bits, 3, true, &["ab", "aa", "as"]),
        global(bits, 0, false, &["sab", "bb"]),
    ];
    if !ctx.quick() {
        gl.push(global(2, 0, true, &["aab"]));
        gl.push(global(8, 99, true, &["abb", "cc"]));
    }
    let mut exs = CB.to_vec();
    exs.push("s|x:1;a|1:2 // b|0:1 / ");
    let ne = exs.len();
    let depth = ctx.b(2, 3);
    ctx.bound(format!("{} regressors x 2 estimators x {} global configurations x all histories of {depth} learned examples from {ne} bandit examples (1-3 actions, one of them without any namespace; shared part present, absent, empty or overlapping) and 3 labels; after each the scores of all examples and the regressor's exported state are compared", regs.len(), gl.len()));
    let run = |c: &mut Chooser, t: &mut Tally, depth: usize, regs: &[(String, Value)], gl: &[Value]| -> Result<(), String> {
        let (rn, reg) = c.of(regs).clone();
        let mtr = c.flag();
        let g = c.of(gl).clone();
        let seed = g["hashSeed"].as_u64().unwrap() as u32;
        let bits = g["numBits"].as_u64().unwrap() as u8;
        let mut w = ws(&g, &node("CbAdf", json!({"cbType": if mtr {"mtr"} else {"ips"}, "regressor": reg})));
        let mut r = ws(&g, &reg);
        let (mut asum, mut esum) = (0usize, 0usize);
        let mut hist: Vec<(usize, usize)> = vec![];
        let scores = |w: &Workspace, r: &Workspace, hist: &Vec<(usize, usize)>, t: &mut Tally| -> Result<(), String> {
            for e in 0..ne {
                let mut f = example(Kind::Scores, exs[e], seed, bits);
                let at = |m: String| format!("{rn} mtr={mtr} {g} after {hist:?}, scoring `{}`: {m}", exs[e]);
                let p = guarded(|| w.predict(&mut f)).map_err(at)?;
                let Prediction::ActionScores(p) = p else { return Err(at("not action scores".into())) };
                let cb = mkcb(exs[e], seed, bits);
                ensure!(p.0.len() == cb.actions.len(), "{}", at(format!("{} scores for {} actions", p.0.len(), cb.actions.len())));
                for (i, (a, s)) in p.0.iter().enumerate() {
                    ensure!(*a == i, "{}", at(format!("action {a} at position {i}")));
                    let mut j: Features = join(&cb, i).into();
                    let q = guarded(|| r.predict(&mut j)).map_err(|m| format!("harness regressor: {m}"))?;
                    let Prediction::Scalar(q) = q else { return Err("not scalar".into()) };
                    ensure!(
                        close(*s as f64, q.raw_prediction as f64, TOL),
                        "{}",
                        at(format!("action {i} scores {s}, the regressor on the joined example {}", q.raw_prediction))
                    );
                    t.distinct(&(e, i, s.to_bits()));
                }
            }
            Ok(())
        };
        scores(&w, &r, &hist, t)?;
        for _ in 0..depth {
            let e = c.choose(ne);
            let l = c.choose(3);
            hist.push((e, l));
            let at = |m: String| format!("{rn} mtr={mtr} {g} after {hist:?}: {m}");
            let mut f = example(Kind::Scores, exs[e], seed, bits);
            let lab = lab_for(Kind::Scores, &f, l);
            guarded(|| w.learn(&mut f, &lab)).map_err(at)?;
            let Label::CB(cl) = lab else { unreachable!() };
            let cb = mkcb(exs[e], seed, bits);
            asum += cb.actions.len();
            esum += 1;
            if mtr {
                let wt = 1.0 / cl.probability * (esum as f32 / asum as f32);
                let mut j: Features = join(&cb, cl.action).into();
                r.learn(&mut j, &Label::Simple(SimpleLabel::new(cl.cost, wt)));
            } else {
                for i in 0..cb.actions.len() {
                    let v = if i == cl.action { cl.cost / cl.probability } else { 0.0 };
                    let mut j: Features = join(&cb, i).into();
                    r.learn(&mut j, &Label::Simple(SimpleLabel::new(v, 1.0)));
                }
            }
            t.step();
            let (x, y) = (coins(&w)?, coins(&r)?);
            ensure!(x.len() == 1 && y.len() == 1, "harness: {} regressors found in the export", x.len());
            json_close(&x[0], &y[0], TOL).map_err(|m| at(format!("the regressor's state differs at {m}")))?;
            scores(&w, &r, &hist, t)?;
        }
        t.state(&(rn, mtr, bytes(&w)?));
        t.eval();
        t.sample(|| format!("mtr={mtr} {g} {hist:?}"));
        Ok(())
    };
    ctx.explore("reduced", |c, t| run(c, t, depth, &regs, &gl));
    if ctx.quick() {
        ctx.bound("the plain Coin regressor with 2 configurations to depth 3");
        ctx.explore("reduced-deep", |c, t| run(c, t, 3, &regs[..1], &gl[..2]));
    } else {
        ctx.bound("the plain Coin regressor with 2 configurations to depth 4");
        ctx.explore("reduced-deep", |c, t| run(c, t, 4, &regs[..1], &gl[..2]));
    }
}

/// Labels from the likely to the nearly impossible: what the regressor is handed is the label's, not a limited one.
pub fn c13_labels(ctx: &Ctx) {
    let probs = [1.0f32, 0.999, 0.6, 0.25, 0.05, 0.009, 2e-3, 1e-4, 1e-6, 1e-8];
    let costs = [0.0f32, 1.0, -1.0, 1e-7, -0.01, 3.5, -99.0, 1e3, -1e5, 1e7];
    let regs: Vec<(String, Value)> = regressors(0).into_iter().take(ctx.b(1, 3)).collect();
    ctx.bound(format!("{} probabilities down to 1e-8 x {} costs up to 1e7, twice in a row with every other pair, 2 estimators, {} regressors", probs.len(), costs.len(), regs.len()));
    ctx.explore("labels", |c, t| {
        let (rn, reg) = c.of(&regs).clone();
        let mtr = c.flag();
        let n = 1 + c.choose(2);
        let steps = [(c.choose(n), *c.of(&costs), *c.of(&probs)), (c.choose(n), *c.of(&costs), *c.of(&probs))];
        let g = global(4, 0, false, &[]);
        let mut w = ws(&g, &node("CbAdf", json!({"cbType": if mtr {"mtr"} else {"ips"}, "regressor": reg})));
        let mut r = ws(&g, &reg);
        let at = |m: String| format!("{rn} mtr={mtr}, {n} actions, labels (action, cost, probability) {steps:?}: {m}");
        for (k, (a, cost, pr)) in steps.iter().enumerate() {
            let mut f: Features = actions(n, false).into();
            guarded(|| w.learn(&mut f, &Label::CB(CBLabel::new(*a, *cost, *pr)))).map_err(at)?;
            let one = |i: usize| -> Features<'static> { actions(n, false).actions.swap_remove(i).into() };
            if mtr {
                let wt = 1.0 / pr * ((k + 1) as f32 / ((k + 1) * n) as f32);
                r.learn(&mut one(*a), &Label::Simple(SimpleLabel::new(*cost, wt)));
            } else {
                for i in 0..n {
                    r.learn(&mut one(i), &Label::Simple(SimpleLabel::new(if i == *a { cost / pr } else { 0.0 }, 1.0)));
                }
            }
            t.step();
            let (x, y) = (coins(&w)?, coins(&r)?);
            json_close(&x[0], &y[0], TOL).map_err(|m| at(format!("after {} labels the regressor's state differs at {m}", k + 1)))?;
        }
        t.eval();
        t.distinct(&(rn, mtr, n, format!("{steps:?}")));
        Ok(())
    });
}

/// A bandit workspace whose action i (one feature, index i, value 1) scores exactly `s[i]`.
pub fn with_scores(entry: &Value, s: &[f32], extra: &[(&str, Value)]) -> Result<Workspace, String> {
    with_scores_at(entry, s, extra, 4)
}
pub fn with_scores_in(entry: &Value, s: &[f32], bits: u8) -> Result<Workspace, String> {
    with_scores_at(entry, s, &[], bits)
}
fn with_scores_at(entry: &Value, s: &[f32], extra: &[(&str, Value)], bits: u8) -> Result<Workspace, String> {
    let g = global(bits, 0, false, &[]);
    let w = ws(&g, entry);
    let mut j = guarded(|| w.serialize_to_json().map_err(|e| e.to_string()))??;
    let mut n = 0;
    fn set(v: &mut Value, s: &[f32], extra: &[(&str, Value)], n: &mut usize) {
        match v {
            Value::Object(m) => {
                if m.contains_key("feature_state_size") && m.contains_key("weights") {
                    let mut t = serde_json::Map::new();
                    for (i, x) in s.iter().enumerate() {
                        t.insert(i.to_string(), json!([[x, 0.0, 0.0, 0.0, 0.0, 0.0]]));
                    }
                    m.insert("weights".into(), Value::Object(t));
                    *n += 1;
                    return;
                }
                for (k, x) in extra {
                    if m.contains_key(*k) {
                        m.insert(k.to_string(), x.clone());
                    }
                }
                m.values_mut().for_each(|x| set(x, s, extra, n));
            }
            Value::Array(a) => a.iter_mut().for_each(|x| set(x, s, extra, n)),
            _ => {}
        }
    }
    set(&mut j, s, extra, &mut n);
    assert_eq!(n, 1, "one weight table expected in {j}");
    guarded(|| Workspace::deserialize_from_json(&j).map_err(|e| e.to_string()))?
}

pub fn actions(n: usize, shared: bool) -> CBAdfFeatures {
    let acts = (0..n)
        .map(|i| {
            let mut f = SparseFeatures::new();
            f.get_or_create_namespace(Namespace::Default).add_feature((i as u32).into(), 1.0);
            f
        })
        .collect();
    CBAdfFeatures { shared: if shared { Some(SparseFeatures::new()) } else { None }, actions: acts }
}

pub fn probs(w: &Workspace, n: usize, shared: bool) -> Result<Vec<f32>, String> {
    let mut f: Features = actions(n, shared).into();
    let p = guarded(|| w.predict(&mut f))?;
    let Prediction::ActionProbs(p) = p else { return Err("not action probabilities".into()) };
    ensure!(p.0.iter().map(|x| x.0).eq(0..n), "actions {:?} instead of 0..{n} in order", p.0);
    Ok(p.0.iter().map(|x| x.1).collect())
}

fn valid(p: &[f32]) -> Result<(), String> {
    ensure!(p.iter().all(|x| x.is_finite() && *x >= 0.0), "not a distribution: {p:?}");
    let s: f64 = p.iter().map(|x| *x as f64).sum();
    ensure!((s - 1.0).abs() < 1e-4, "probabilities {p:?} sum to {s}");
    Ok(())
}

fn argmin(s: &[f32]) -> usize {
    let mut b = 0;
    for i in 1..s.len() {
        if s[i] < s[b] {
            b = i;
        }
    }
    b
}

pub fn ref_greedy(s: &[f32], eps: f32) -> Vec<f64> {
    let mut p = vec![eps as f64 / s.len() as f64; s.len()];
    p[argmin(s)] += 1.0 - eps as f64;
    p
}
pub fn ref_softmax(s: &[f32], lambda: f32, eps: f32) -> Vec<f64> {
    let b = s[argmin(s)];
    // weights below the smallest positive f32 are zero and stay without support
    let e: Vec<f64> = s.iter().map(|x| (-(lambda as f64) * (*x - b) as f64).exp()).map(|x| if x < 1e-50 { 0.0 } else { x }).collect();
    let t: f64 = e.iter().sum();
    reference_min_prob(eps as f64, false, &e.iter().map(|x| x / t).collect::<Vec<_>>())
}
pub fn ref_square(s: &[f32], gamma: f64, eps: f32) -> Vec<f64> {
    let b = argmin(s);
    let n = s.len() as f64;
    let mut p: Vec<f64> = s.iter().map(|x| 1.0 / (n + gamma * (*x as f64 - s[b] as f64))).collect();
    p[b] = 0.0;
    p[b] = 1.0 - p.iter().sum::<f64>();
    reference_min_prob(eps as f64, false, &p)
}

pub fn same_dist(p: &[f32], want: &[f64], tol: f64) -> Result<(), String> {
    valid(p)?;
    ensure!(p.len() == want.len(), "{} probabilities", p.len());
    ensure!(
        p.iter().zip(want).all(|(a, b)| (*a as f64 - b).abs() < tol),
        "probabilities {p:?}, expected {want:?}"
    );
    Ok(())
}

const VALS: [f32; 9] = [0.0, 1.0, -1.0, 0.5, 2.0, 1000.0, -3.0, -1e30, 0.125];

fn score_vec(c: &mut Chooser, n: usize, k: usize) -> Vec<f32> {
    (0..n).map(|_| VALS[c.choose(k)]).collect()
}

pub fn c14(ctx: &Ctx) {
    let maxn = ctx.b(4, 5);
    let k = ctx.b(7, 9);
    let eps = [0.0f32, 0.05, 0.25, 0.5, 1.0];
    let lam = [0.0f32, 0.5, 1.0, 4.0, 20.0, -1.0];
    let cb = |dbg: bool| {
        let c = node("CbAdf", json!({}));
        if dbg {
            debug(c)
        } else {
            c
        }
    };
    ctx.bound(format!("all score vectors of 1..={maxn} actions over {:?}, epsilon in {eps:?}, lambda in {lam:?} x minimum in {{0, 0.1, 1}}", &VALS[..k]));
    ctx.explore("greedy-grid", |c, t| {
        let n = 1 + c.choose(maxn);
        let e = *c.of(&eps);
        let sh = c.flag();
        let s = score_vec(c, n, k);
        let w = with_scores(&node("CbExploreAdfGreedy", json!({"epsilon": e, "cbAdf": cb(false)})), &s, &[])?;
        let p = probs(&w, n, sh).map_err(|m| format!("scores {s:?} epsilon {e}: {m}"))?;
        same_dist(&p, &ref_greedy(&s, e), 1e-5).map_err(|m| format!("scores {s:?} epsilon {e}: {m}"))?;
        t.eval();
        t.distinct(&(s.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), e.to_bits()));
        t.sample(|| format!("greedy scores {s:?} eps {e} -> {p:?}"));
        Ok(())
    });
    ctx.explore("softmax-grid", |c, t| {
        let n = 1 + c.choose(maxn);
        let l = *c.of(&lam);
        let e = *c.of(&[0.0f32, 0.1, 1.0]);
        let s = score_vec(c, n, k);
        // negative lambda turns the preference around; only where no weight overflows
        if l < 0.0 && s.iter().any(|x| (x - s[argmin(&s)]) * -l > 20.0) {
            return Ok(());
        }
        let w = with_scores(&node("CbExploreAdfSoftmax", json!({"lambda": l, "uniformEpsilon": e, "cbAdf": cb(false)})), &s, &[])?;
        let at = |m: String| format!("scores {s:?} lambda {l} minimum {e}: {m}");
        let p = probs(&w, n, true).map_err(at)?;
        same_dist(&p, &ref_softmax(&s, l, e), 2e-5).map_err(at)?;
        t.eval();
        t.distinct(&(s.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), l.to_bits(), e.to_bits()));
        t.sample(|| format!("softmax scores {s:?} lambda {l} min {e} -> {p:?}"));
        Ok(())
    });
    // Parameters far from one, with scores of matching size, so that no probability is all or nothing
    let big = [1e-6f32, 1e-3, 0.01, 60.0, 100.0, 1000.0, 1e5, 1e8, 1e20];
    let units = [0.0f32, 1.0, -0.5, 3.0, 10.0, 0.25];
    let ns = ctx.b(3, 4);
    ctx.bound(format!("lambda in {big:?} x all vectors of 1..={ns} scores of {units:?} divided by it x minimum in {{0, 0.1}}"));
    ctx.explore("softmax-scaled", |c, t| {
        let (l, e) = (*c.of(&big), *c.of(&[0.0f32, 0.1]));
        let n = 1 + c.choose(ns);
        let s: Vec<f32> = (0..n).map(|_| *c.of(&units) / l).collect();
        let w = with_scores(&node("CbExploreAdfSoftmax", json!({"lambda": l, "uniformEpsilon": e, "cbAdf": cb(false)})), &s, &[])?;
        let at = |m: String| format!("scores {s:?} lambda {l} minimum {e}: {m}");
        let p = probs(&w, n, true).map_err(at)?;
        same_dist(&p, &ref_softmax(&s, l, e), 2e-5).map_err(at)?;
        t.eval();
        t.distinct(&(s.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), l.to_bits(), e.to_bits()));
        Ok(())
    });
    // Scores that are nearly the same: neighbours in single precision, around bases from the subnormal to the large
    let bases = [0.0f32, 1e-40, 1e-30, 1e-9, 1e-7, 0.1, 0.99999994, 1.0, 3.0, 1e4, 2e7];
    let gaps = [0i32, 1, -1, 2, 7];
    let nn = ctx.b(3, 4);
    ctx.bound(format!("{} bases x 2 signs x all vectors of 2..={nn} scores that are 0, 1, 2 or 7 representable numbers away, or 1e-8 or 1e-6", bases.len()));
    ctx.explore("near-ties", |c, t| {
        let b = *c.of(&bases) * if c.flag() { -1.0 } else { 1.0 };
        let n = 2 + c.choose(nn - 1);
        let e = *c.of(&[0.0f32, 0.25]);
        let s: Vec<f32> = (0..n)
            .map(|_| match c.choose(gaps.len() + 2) {
                i if i < gaps.len() => {
                    // walk over the representable numbers, through zero
                    let o = b.to_bits() as i32;
                    let o = if o < 0 { i32::MIN - o } else { o } + gaps[i];
                    f32::from_bits(if o < 0 { (i32::MIN - o) as u32 } else { o as u32 })
                }
                i => b + [1e-8, 1e-6][i - gaps.len()],
            })
            .collect();
        let w = with_scores(&node("CbExploreAdfGreedy", json!({"epsilon": e, "cbAdf": cb(false)})), &s, &[])?;
        // what the bandit itself makes of them: a table may not hold every one of them
        let bare = with_scores(&cb(false), &s, &[])?;
        let mut f: Features = actions(n, false).into();
        let Prediction::ActionScores(sc) = guarded(|| bare.predict(&mut f))? else { return Err("not action scores".into()) };
        let sc: Vec<f32> = sc.0.iter().map(|x| x.1).collect();
        let p = probs(&w, n, false).map_err(|m| format!("scores {sc:?} epsilon {e}: {m}"))?;
        same_dist(&p, &ref_greedy(&sc, e), 1e-5).map_err(|m| format!("scores {sc:?} epsilon {e}: {m}"))?;
        t.eval();
        t.distinct(&(sc.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), e.to_bits()));
        Ok(())
    });
    // Through training: exploration is a pure function of the bandit's scores, and learning is passed on.
    let ne = CB.len();
    let depth = ctx.b(2, 3);
    let conf: Vec<(Value, Box<dyn Fn(&[f32]) -> Vec<f64> + Sync>)> = vec![
        (json!({"typename": "CbExploreAdfGreedy", "config": {}}), Box::new(|s| ref_greedy(s, 0.05))),
        (json!({"typename": "CbExploreAdfGreedy", "config": {"epsilon": 0.3}}), Box::new(|s| ref_greedy(s, 0.3))),
        (json!({"typename": "CbExploreAdfSoftmax", "config": {}}), Box::new(|s| ref_softmax(s, 1.0, 0.0))),
        (json!({"typename": "CbExploreAdfSoftmax", "config": {"lambda": 3.0, "uniformEpsilon": 0.2}}), Box::new(|s| ref_softmax(s, 3.0, 0.2))),
    ];
    ctx.bound(format!("all histories of {depth} learned examples from {ne} examples and 3 labels under 4 exploration settings x 2 estimators x with/without a Debug layer, compared with a bare bandit"));
    ctx.explore("through-training", |c, t| {
        let (mut e, f) = {
            let x = c.of(&conf);
            (x.0.clone(), &x.1)
        };
        let ty = *c.of(&["ips", "mtr"]);
        let bare = node("CbAdf", json!({"cbType": ty}));
        e["config"]["cbAdf"] = if c.flag() { debug(bare.clone()) } else { bare.clone() };
        let g = global(5, 0, true, &["ab"]);
        let (mut a, mut b) = (ws(&g, &e), ws(&g, &bare));
        let mut hist = vec![];
        for i in 0..=depth {
            for x in 0..ne {
                let at = |m: String| format!("{e} after {hist:?}, example `{}`: {m}", CB[x]);
                let mut f1 = example(Kind::Probs, CB[x], 0, 5);
                let mut f2 = example(Kind::Probs, CB[x], 0, 5);
                let p = guarded(|| a.predict(&mut f1)).map_err(at)?;
                let Prediction::ActionScores(s) = guarded(|| b.predict(&mut f2)).map_err(at)? else { return Err("scores".into()) };
                let Prediction::ActionProbs(p) = p else { return Err(at("not probabilities".into())) };
                ensure!(p.0.iter().map(|x| x.0).eq(0..s.0.len()), "{}", at(format!("actions {:?}", p.0)));
                let s: Vec<f32> = s.0.iter().map(|x| x.1).collect();
                same_dist(&p.0.iter().map(|x| x.1).collect::<Vec<_>>(), &f(&s), 2e-5).map_err(|m| at(format!("scores {s:?}: {m}")))?;
                t.distinct(&(&e.to_string(), s.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
            }
            if i == depth {
                break;
            }
            let x = c.choose(ne);
            let l = c.choose(3);
            hist.push((x, l));
            let mut f1 = example(Kind::Probs, CB[x], 0, 5);
            let mut f2 = example(Kind::Probs, CB[x], 0, 5);
            let lab = lab_for(Kind::Probs, &f1, l);
            guarded(|| a.learn(&mut f1, &lab))?;
            guarded(|| b.learn(&mut f2, &lab))?;
            t.step();
            ensure!(coins(&a)? == coins(&b)?, "{e} after {hist:?}: learning was not passed on unchanged");
        }
        t.state(&(&e.to_string(), bytes(&a)?));
        t.eval();
        t.sample(|| format!("{e} {hist:?}"));
        Ok(())
    });
}

pub fn c27(ctx: &Ctx) {
    let maxn = ctx.b(3, 4);
    let k = ctx.b(5, 7);
    let scale = [10.0f32, 0.0, 1.0, 250.0];
    let expo = [0.5f32, 0.0, 1.0, 2.0];
    let eps = [0.0f32, 0.1, 1.0];
    let learns = ctx.b(3, 6);
    let neutral = |c: f32, p: f32| -> (Features<'static>, Label) {
        // an example whose chosen action has no features: learning it leaves every weight alone
        let f = CBAdfFeatures { shared: Some(SparseFeatures::new()), actions: vec![SparseFeatures::new()] };
        (f.into(), Label::CB(CBLabel::new(0, c, p)))
    };
    ctx.bound(format!("all score vectors of 1..={maxn} actions over {:?} x scale {scale:?} x exponent {expo:?} x minimum {eps:?} x 0..={learns} learned examples", &VALS[..k]));
    ctx.explore("schedule-grid", |c, t| {
        let (sc, ex, e) = (*c.of(&scale), *c.of(&expo), *c.of(&eps));
        let n = 1 + c.choose(maxn);
        let s = score_vec(c, n, k);
        let m = c.choose(learns + 1);
        let mode = c.choose(3);
        let mut w = with_scores(&node("CbExploreAdfSquareCb", json!({"gammaScale": sc, "gammaExponent": ex, "uniformEpsilon": e})), &s, &[])?;
        for i in 0..m {
            let (mut f, l) = neutral([0.0, 1.0, -2.0][i % 3], [0.5, 0.01, 1.0][(i + n) % 3]);
            match (mode + i) % 3 {
                0 => guarded(|| w.learn(&mut f, &l))?,
                1 => {
                    guarded(|| w.predict_then_learn(&mut f, &l))?;
                }
                _ => {
                    guarded(|| w.predict(&mut f))?;
                    guarded(|| w.learn(&mut f, &l))?
                }
            }
            t.step();
        }
        let gamma = sc as f64 * (m as f64).powf(ex as f64);
        let at = |x: String| format!("scores {s:?} scale {sc} exponent {ex} minimum {e} after {m} learned examples: {x}");
        let p = probs(&w, n, true).map_err(at)?;
        same_dist(&p, &ref_square(&s, gamma, e), 3e-5).map_err(at)?;
        t.eval();
        t.state(&(s.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), sc.to_bits(), ex.to_bits(), e.to_bits(), m));
        t.distinct(&p.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        t.sample(|| at(format!("{p:?}")));
        Ok(())
    });
    // Parameters far from one, with scores of matching size
    let big = [1e-6f32, 1e-3, 100.0, 1000.0, 1e5, 1e8, 1e20];
    let units = [0.0f32, 1.0, -0.5, 3.0, 100.0];
    ctx.bound(format!("scale in {big:?} and exponent in {{0, 0.1, 1.5, 3, -1}} x all vectors of 1..=3 scores of {units:?} divided by the factor they give after 2 or 5 examples"));
    ctx.explore("scaled", |c, t| {
        let (sc, ex, e) = (*c.of(&big), *c.of(&[0.0f32, 0.1, 1.5, 3.0, -1.0]), *c.of(&[0.0f32, 0.1]));
        let m = *c.of(&[2usize, 5]);
        let gamma = sc as f64 * (m as f64).powf(ex as f64);
        let n = 1 + c.choose(3);
        let s: Vec<f32> = (0..n).map(|_| *c.of(&units) / gamma as f32).collect();
        let mut w = with_scores(&node("CbExploreAdfSquareCb", json!({"gammaScale": sc, "gammaExponent": ex, "uniformEpsilon": e})), &s, &[])?;
        for i in 0..m {
            let (mut f, l) = neutral([1.0, -1.0][i % 2], 0.5);
            guarded(|| w.learn(&mut f, &l))?;
            t.step();
        }
        let at = |x: String| format!("scores {s:?} scale {sc} exponent {ex} minimum {e} after {m} learned examples: {x}");
        let p = probs(&w, n, true).map_err(at)?;
        same_dist(&p, &ref_square(&s, gamma, e), 3e-5).map_err(at)?;
        t.eval();
        t.distinct(&p.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        Ok(())
    });
    let total = ctx.b(66_000, 300_000);
    ctx.bound(format!("{total} learned examples in a row, the distribution compared after each of the first 300, every 997th after that and around the powers of two and ten"));
    ctx.explore("schedule-long", |c, t| {
        let (sc, ex, e) = (*c.of(&[10.0f32, 1.0]), *c.of(&[0.5f32, 1.0, 0.0]), *c.of(&[0.0f32, 0.1]));
        let s = [0.5f32, 0.499, 0.75];
        let mode = c.choose(2);
        let mut w = with_scores(&node("CbExploreAdfSquareCb", json!({"gammaScale": sc, "gammaExponent": ex, "uniformEpsilon": e})), &s, &[])?;
        for m in 0..=total {
            let near = |b: usize| (0..20).any(|k| m.abs_diff(b.saturating_pow(k)) <= 1);
            if m < 300 || m % 997 == 0 || near(2) || near(10) {
                let gamma = sc as f64 * (m as f64).powf(ex as f64);
                let p = probs(&w, 3, true)?;
                same_dist(&p, &ref_square(&s, gamma, e), 3e-5).map_err(|x| format!("scores {s:?} scale {sc} exponent {ex} minimum {e} after {m} learned examples: {x}"))?;
                t.step();
                t.distinct(&p.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
            }
            let (mut f, l) = neutral(0.0, 0.5);
            if mode == 0 {
                guarded(|| w.learn(&mut f, &l))?;
            } else {
                guarded(|| w.predict_then_learn(&mut f, &l))?;
            }
        }
        t.eval();
        Ok(())
    });
    let far = ctx.b(20_000_000, 40_000_000);
    ctx.bound(format!("and {far} examples once"));
    ctx.explore("schedule-far", |c, t| {
        let (sc, ex, e) = *c.of(&[(0.5f32, 0.5f32, 0.0f32), (2.0, 0.25, 0.1)]);
        let s = [0.5f32, 0.499, 0.75];
        let mut w = with_scores(&node("CbExploreAdfSquareCb", json!({"gammaScale": sc, "gammaExponent": ex, "uniformEpsilon": e})), &s, &[])?;
        let (mut f, l) = neutral(0.0, 0.5);
        for m in 0..=far {
            if m % 500_000 == 0 {
                let gamma = sc as f64 * (m as f64).powf(ex as f64);
                let p = probs(&w, 3, true)?;
                same_dist(&p, &ref_square(&s, gamma, e), 3e-5).map_err(|x| format!("scores {s:?} scale {sc} exponent {ex} minimum {e} after {m} learned examples: {x}"))?;
                t.step();
            }
            w.learn(&mut f, &l);
        }
        t.eval();
        Ok(())
    });
    let ne = CB.len();
    let depth = ctx.b(3, 4);
    ctx.bound(format!("all histories of {depth} learned examples from {ne} examples and 3 labels under 3 settings, compared with a bare bandit fed probability one"));
    let conf = [(10.0f32, 0.5f32, 0.0f32), (2.0, 1.0, 0.1), (30.0, 0.0, 0.0)];
    ctx.explore("through-training", |c, t| {
        let (sc, ex, e) = *c.of(&conf);
        let cfg = if (sc, ex, e) == conf[0] { json!({}) } else { json!({"gammaScale": sc, "gammaExponent": ex, "uniformEpsilon": e}) };
        let g = global(5, 0, true, &["ab"]);
        let (mut a, mut b) = (ws(&g, &node("CbExploreAdfSquareCb", cfg.clone())), ws(&g, &node("CbAdf", json!({}))));
        let mut hist = vec![];
        for i in 0..=depth {
            let gamma = sc as f64 * (i as f64).powf(ex as f64);
            for x in 0..ne {
                let at = |m: String| format!("{cfg} after {hist:?}, example `{}`: {m}", CB[x]);
                let mut f1 = example(Kind::Probs, CB[x], 0, 5);
                let mut f2 = example(Kind::Probs, CB[x], 0, 5);
                let Prediction::ActionProbs(p) = guarded(|| a.predict(&mut f1)).map_err(at)? else { return Err(at("not probabilities".into())) };
                let Prediction::ActionScores(s) = guarded(|| b.predict(&mut f2)).map_err(at)? else { return Err("scores".into()) };
                ensure!(p.0.iter().map(|x| x.0).eq(0..s.0.len()), "{}", at(format!("actions {:?}", p.0)));
                let s: Vec<f32> = s.0.iter().map(|x| x.1).collect();
                let p: Vec<f32> = p.0.iter().map(|x| x.1).collect();
                same_dist(&p, &ref_square(&s, gamma, e), 3e-5).map_err(|m| at(format!("scores {s:?}: {m}")))?;
                t.distinct(&p.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
            }
            if i == depth {
                break;
            }
            let x = c.choose(ne);
            let l = c.choose(3);
            let ptl = (x + l) % 2 == 0;
            hist.push((x, l));
            let mut f1 = example(Kind::Probs, CB[x], 0, 5);
            let mut f2 = example(Kind::Probs, CB[x], 0, 5);
            let lab = lab_for(Kind::Probs, &f1, l);
            let Label::CB(mut one) = lab else { unreachable!() };
            one.probability = 1.0;
            if ptl {
                guarded(|| a.predict_then_learn(&mut f1, &lab))?;
            } else {
                guarded(|| a.learn(&mut f1, &lab))?;
            }
            guarded(|| b.learn(&mut f2, &Label::CB(one)))?;
            t.step();
            ensure!(coins(&a)? == coins(&b)?, "{cfg} after {hist:?}: learning was not passed on with probability one");
        }
        t.state(&(&cfg.to_string(), bytes(&a)?));
        t.eval();
        t.sample(|| format!("{cfg} {hist:?}"));
        Ok(())
    });
}
