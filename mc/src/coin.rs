//! C11 (interaction expansion), C12 (coin betting), C16 (binary), C17 (elementwise interaction).
use crate::cb::{close, json_close};
use crate::common::*;
use crate::ensure;
use crate::model::*;
use crate::refmodel::*;
use crate::stacks::*;
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use reductionml_core::weights::{foreach_feature, foreach_feature_with_state, foreach_feature_with_state_mut, Weights};
use reductionml_core::workspace::Workspace;
use reductionml_core::{BinaryLabel, FeatureIndex, Features, Label, ModelIndex, Prediction, SimpleLabel};
use serde_json::{json, Value};

// ------------------------------------------------------------------------------------------------ C11

/// A weight table whose entry names its own index.
pub struct Named(Vec<Vec<f32>>);
impl Named {
    pub fn new(bits: u8) -> Named {
        Named((0..=(1u32 << bits)).map(|i| vec![i as f32; 6]).collect())
    }
}
impl Weights for Named {
    fn weight_at(&self, i: FeatureIndex, _: ModelIndex) -> f32 {
        self.0[u32::from(i) as usize][0]
    }
    fn weight_at_mut(&mut self, i: FeatureIndex, _: ModelIndex) -> &mut f32 {
        &mut self.0[u32::from(i) as usize][0]
    }
    fn state_at(&self, i: FeatureIndex, _: ModelIndex) -> &[f32] {
        &self.0[u32::from(i) as usize]
    }
    fn state_at_mut(&mut self, i: FeatureIndex, _: ModelIndex) -> &mut [f32] {
        &mut self.0[u32::from(i) as usize]
    }
}

pub fn bag(v: &[(u32, f32)]) -> Vec<(u32, u32)> {
    let mut b: Vec<(u32, u32)> = v.iter().map(|x| (x.0, x.1.to_bits())).collect();
    b.sort();
    b
}

pub fn split_inter(it: &[Vec<Namespace>]) -> (Vec<(Namespace, Namespace)>, Vec<(Namespace, Namespace, Namespace)>) {
    (
        it.iter().filter(|x| x.len() == 2).map(|x| (x[0], x[1])).collect(),
        it.iter().filter(|x| x.len() == 3).map(|x| (x[0], x[1], x[2])).collect(),
    )
}

fn all_inter(letters: &str, len: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..len {
        v = v.iter().flat_map(|s| letters.chars().map(move |c| format!("{s}{c}"))).collect();
    }
    v
}

/// Feature lists of one namespace; values are dyadic, so products are exact.
fn lists(ns: usize, n: usize) -> Vec<String> {
    let v = [["0:1", "1:2", "2:0.5", "3:-1"], ["0:-4", "1:0", "5:8", "6:2"], ["x:0.25", "y:-2", "z:16", "x:1"]][ns];
    (0..=n).map(|k| v[..k].join(" ")).collect()
}

pub fn c11(ctx: &Ctx) {
    let maxf = ctx.b(3, 4);
    let mut inters: Vec<Vec<String>> = vec![vec![]];
    let (p, q) = (all_inter("ab_", 2), all_inter("ab_", 3));
    inters.extend(p.iter().map(|x| vec![x.clone()]));
    inters.extend(q.iter().map(|x| vec![x.clone()]));
    // two interactions at once, three at once
    let all: Vec<&String> = p.iter().chain(&q).collect();
    for x in &all {
        for y in &all {
            inters.push(vec![x.to_string(), y.to_string()]);
        }
    }
    for x in ctx.some(&p, 4) {
        for y in ctx.some(&q, 9) {
            for z in &p {
                inters.push(vec![x.to_string(), y.to_string(), z.to_string()]);
            }
        }
    }
    let setups = if ctx.quick() { vec![(5u8, 0u32), (3, 7)] } else { vec![(5u8, 0u32), (3, 7), (8, 1)] };
    ctx.bound(format!("feature sets over namespaces a, b and the default one with 0..={maxf} features each (absent, empty, filled), {} interaction lists (all pairs and triples over the three, every ordered two of them, three of them), (bits, seed) in {setups:?}, constant on and off; plain, state and mutable-state visitors and the regressor itself", inters.len()));
    ctx.explore("visits", |c, t| {
        let it = c.of(&inters);
        let (bits, seed) = *c.of(&setups);
        let constant = c.flag();
        let mut spec = vec![];
        for (k, ns) in ["a", "b", ":default"].iter().enumerate() {
            let l = lists(k, maxf);
            let i = c.choose(l.len() + 1);
            if i > 0 {
                spec.push(format!("{ns}|{}", l[i - 1]));
            }
        }
        let spec = spec.join(";");
        let f = mk(&spec, seed, bits);
        let hashed: Vec<Vec<Namespace>> = it.iter().map(|x| inter_ns(x, seed)).collect();
        let want = expand(&f, &hashed, bits, constant);
        let wb = bag(&want);
        let at = |m: String| format!("`{spec}` interactions {it:?} bits {bits} seed {seed} constant {constant}: {m}");
        let (pairs, triples) = split_inter(&hashed);
        let mut table = Named::new(bits);
        let mut got: Vec<(u32, f32)> = vec![];
        guarded(|| foreach_feature(0.into(), &f, &table, &pairs, &triples, bits, constant, |v, w| got.push((w as u32, v)))).map_err(at)?;
        ensure!(bag(&got) == wb, "{}", at(format!("foreach_feature visits {:?}, expected {:?}", sorted(&got), sorted(&want))));
        got.clear();
        guarded(|| foreach_feature_with_state(0.into(), &f, &table, &pairs, &triples, bits, constant, |v, w: &[f32]| got.push((w[0] as u32, v)))).map_err(at)?;
        ensure!(bag(&got) == wb, "{}", at(format!("foreach_feature_with_state visits {:?}, expected {:?}", sorted(&got), sorted(&want))));
        got.clear();
        guarded(|| {
            foreach_feature_with_state_mut(0.into(), &f, &mut table, &pairs, &triples, bits, constant, |v, w: &mut [f32]| got.push((w[0] as u32, v)))
        })
        .map_err(at)?;
        ensure!(bag(&got) == wb, "{}", at(format!("foreach_feature_with_state_mut visits {:?}, expected {:?}", sorted(&got), sorted(&want))));
        t.eval();
        t.distinct(&(&wb, it));
        t.sample(|| at(format!("{want:?}")));
        Ok(())
    });
    // Through configuration and model: weight i is i+1, so the raw prediction identifies the expansion.
    let maxf = ctx.b(1, 3);
    ctx.explore("through-model", |c, t| {
        let it = c.of(&inters);
        let (bits, seed) = *c.of(&setups[..2]);
        let constant = c.flag();
        let names: Vec<&str> = it.iter().map(|x| x.as_str()).collect();
        let g = global(bits, seed, constant, &names);
        let w = weighted(&g, bits, |i| (i + 1) as f32)?;
        let mut spec = vec![];
        for (k, ns) in ["a", "b", ":default"].iter().enumerate() {
            let l = lists(k, maxf);
            let i = c.choose(l.len());
            if i > 0 {
                spec.push(format!("{ns}|{}", l[i]));
            }
        }
        let spec = spec.join(";");
        let f = mk(&spec, seed, bits);
        let hashed: Vec<Vec<Namespace>> = it.iter().map(|x| inter_ns(x, seed)).collect();
        let want: f64 = expand(&f, &hashed, bits, constant).iter().map(|x| (x.0 + 1) as f64 * x.1 as f64).sum();
        let mut ff: Features = f.into();
        let Prediction::Scalar(p) = guarded(|| w.predict(&mut ff))? else { return Err("not scalar".into()) };
        ensure!(close(p.raw_prediction as f64, want, 1e-6), "`{spec}` {g}: raw prediction {} with weight i+1 at index i, expected {want}", p.raw_prediction);
        t.eval();
        t.distinct(&(&spec, it, bits, constant));
        Ok(())
    });
}

fn sorted(v: &[(u32, f32)]) -> Vec<(u32, f32)> {
    let mut v = v.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

/// A coin workspace with chosen weights.
pub fn weighted(g: &Value, bits: u8, f: impl Fn(u32) -> f32) -> Result<Workspace, String> {
    let w = ws(g, &coin(json!({})));
    let mut j = guarded(|| w.serialize_to_json().map_err(|e| e.to_string()))??;
    fn set(v: &mut Value, t: &Value, n: &mut usize) {
        match v {
            Value::Object(m) if m.contains_key("feature_state_size") && m.contains_key("weights") => {
                m.insert("weights".into(), t.clone());
                *n += 1;
            }
            Value::Object(m) => m.values_mut().for_each(|x| set(x, t, n)),
            Value::Array(a) => a.iter_mut().for_each(|x| set(x, t, n)),
            _ => {}
        }
    }
    let t: serde_json::Map<String, Value> = (0..(1u32 << bits)).map(|i| (i.to_string(), json!([[f(i), 0.0, 0.0, 0.0, 0.0, 0.0]]))).collect();
    let mut n = 0;
    set(&mut j, &Value::Object(t), &mut n);
    assert_eq!(n, 1);
    guarded(|| Workspace::deserialize_from_json(&j).map_err(|e| e.to_string()))?
}

// ------------------------------------------------------------------------------------------------ C12

pub const COIN_EX: &[&str] = &[
    "a|x:1",
    "a|x:-2 y:0.5",
    "a|x:1 y:-1;b|0:3 1:0.25",
    "a|",
    "a|x:0 y:100;b|0:0.001",
    "b|0:1 1:1;a|x:1 x:0.5",
];
pub const COIN_LAB: &[(f32, f32)] = &[(1.0, 1.0), (0.0, 1.0), (-3.0, 0.5), (50.0, 4.0), (0.25, 2.0)];

struct Hyper {
    cfg: Value,
    alpha: f64,
    beta: f64,
    loss: Loss,
    link: bool,
}

fn hypers() -> Vec<Hyper> {
    let h = |cfg: Value, alpha: f64, beta: f64, loss, link| Hyper { cfg, alpha, beta, loss, link };
    vec![
        h(json!({}), 4.0, 1.0, Loss::Squared, false),
        h(json!({"alpha": 0.5, "beta": 10.0, "lossFunction": {"Squared": {}}}), 0.5, 10.0, Loss::Squared, false),
        h(json!({"linkFunction": "Logistic", "beta": 0.01}), 4.0, 0.01, Loss::Squared, true),
        h(json!({"lossFunction": {"Logistic": {}}}), 4.0, 1.0, Loss::Logistic, false),
        h(json!({"lossFunction": {"Logistic": {}}, "linkFunction": "Logistic", "alpha": 1.0}), 1.0, 1.0, Loss::Logistic, true),
    ]
}

/// Agreement up to rounding: a small relative error, or a multiple of what plain f32 arithmetic loses.
pub fn agree(real: f64, m64: f64, m32: f64) -> bool {
    if !m64.is_finite() || !m32.is_finite() {
        return true;
    }
    (real - m64).abs() <= 1e-4 * (1.0 + m64.abs()) + 50.0 * (m32 - m64).abs()
}

pub fn c12(ctx: &Ctx) {
    let hy = hypers();
    let gl = [(5u8, 0u32, true, vec!["ab"]), (5, 3, false, vec!["aa"]), (2, 0, true, vec![])];
    let ne = ctx.b(4, COIN_EX.len());
    let nl = ctx.b(3, COIN_LAB.len());
    let depth = ctx.b(3, 3);
    ctx.bound(format!("{} hyper-parameter settings (both losses, both links) x {} global configurations x all histories of {depth} weighted examples from {:?} x labels (value, weight) {:?}; weights, normalisation, label range and predictions of {} examples compared with the f64 model after every step", hy.len(), gl.len(), &COIN_EX[..ne], &COIN_LAB[..nl], COIN_EX.len()));
    let run = |c: &mut Chooser, t: &mut Tally, ne: usize, nl: usize, depth: usize, nh: usize, ng: usize| -> Result<(), String> {
        let hp = c.of(&hy[..nh]);
        let (bits, seed, constant, inter) = c.of(&gl[..ng]);
        let (bits, seed, constant) = (*bits, *seed, *constant);
        let g = global(bits, seed, constant, inter);
        let hashed: Vec<Vec<Namespace>> = inter.iter().map(|x| inter_ns(x, seed)).collect();
        let mut w = ws(&g, &coin(hp.cfg.clone()));
        let mut m64 = CoinModel::<f64>::new(hp.alpha, hp.beta, hp.loss, hp.link);
        let mut m32 = CoinModel::<f32>::new(hp.alpha, hp.beta, hp.loss, hp.link);
        let mut hist: Vec<(usize, usize)> = vec![];
        for step in 0..=depth {
            let at = |m: String| format!("Coin {} {g} after {:?}: {m}", hp.cfg, hist.iter().map(|x| (COIN_EX[x.0], COIN_LAB[x.1])).collect::<Vec<_>>());
            for e in COIN_EX {
                let f = mk(e, seed, bits);
                let ex = expand(&f, &hashed, bits, constant);
                let mut ff: Features = f.into();
                let Prediction::Scalar(p) = guarded(|| w.predict(&mut ff)).map_err(at)? else { return Err(at("not scalar".into())) };
                let ((a, ar), (b, br)) = (m64.predict(&ex), m32.predict(&ex));
                ensure!(agree(p.raw_prediction as f64, ar, br as f64), "{}", at(format!("raw prediction of `{e}` is {}, the model says {ar}", p.raw_prediction)));
                ensure!(agree(p.prediction as f64, a, b as f64), "{}", at(format!("prediction of `{e}` is {}, the model says {a}", p.prediction)));
                t.distinct(&(p.prediction.to_bits(), p.raw_prediction.to_bits()));
            }
            let cs = coins(&w).map_err(at)?;
            assert_eq!(cs.len(), 1);
            check_state(&cs[0], &m64, &m32).map_err(at)?;
            t.step();
            if step == depth {
                break;
            }
            let (e, l) = (c.choose(ne), c.choose(nl));
            hist.push((e, l));
            let f = mk(COIN_EX[e], seed, bits);
            let ex = expand(&f, &hashed, bits, constant);
            let (mut y, wt) = COIN_LAB[l];
            if hp.loss == Loss::Logistic {
                y = y.clamp(-1.0, 1.0);
            }
            let mut ff: Features = f.into();
            guarded(|| w.learn(&mut ff, &Label::Simple(SimpleLabel::new(y, wt))))?;
            m64.learn(&ex, y, wt);
            m32.learn(&ex, y, wt);
        }
        t.state(&bytes(&w)?);
        t.eval();
        t.sample(|| format!("{} {g} {hist:?}", hp.cfg));
        Ok(())
    };
    ctx.explore("histories", |c, t| run(c, t, ne, nl, depth, 5, 3));
    let d = ctx.b(5, 6);
    ctx.bound(format!("deeper: histories of {d} over 2 examples and 2 labels, 4 settings"));
    ctx.explore("deep-histories", |c, t| run(c, t, 2, 2, d, 4, 2));
    // Examples without features and without a constant: nothing is learned but the label range.
    ctx.explore("empty", |c, t| {
        let g = global(4, 0, false, &[]);
        let mut w = ws(&g, &coin(json!({})));
        for k in c.seq(COIN_LAB.len(), 1, 2) {
            let mut f: Features = SparseFeatures::new().into();
            let (y, wt) = COIN_LAB[k];
            guarded(|| w.learn(&mut f, &Label::Simple(SimpleLabel::new(y, wt))))?;
            let Prediction::Scalar(p) = guarded(|| w.predict(&mut f))? else { return Err("not scalar".into()) };
            ensure!(p.raw_prediction == 0.0 && p.prediction.is_finite(), "an empty example predicts {p:?}");
            t.step();
        }
        t.eval();
        Ok(())
    });
}

pub fn check_state(c: &Value, a: &CoinModel<f64>, b: &CoinModel<f32>) -> Result<(), String> {
    check_state_by(c, a, b, agree)
}

/// The same for values of any size: relative to the number itself.
pub fn check_scaled(c: &Value, a: &CoinModel<f64>, b: &CoinModel<f32>, rel: f64) -> Result<(), String> {
    check_state_by(c, a, b, |r, x, y| !x.is_finite() || !y.is_finite() || (r - x).abs() <= rel * x.abs() + 50.0 * (y - x).abs() + 1e-37)
}

fn check_state_by(c: &Value, a: &CoinModel<f64>, b: &CoinModel<f32>, agree: impl Fn(f64, f64, f64) -> bool) -> Result<(), String> {
    let num = |v: &Value| v.as_f64().unwrap_or(f64::NAN);
    let eq = |name: &str, v: &Value, x: f64, y: f32| -> Result<(), String> {
        ensure!(agree(num(v), x, y as f64), "{name} is {v}, the model says {x}");
        Ok(())
    };
    eq("min_label", &c["min_label"], a.lo, b.lo)?;
    eq("max_label", &c["max_label"], a.hi, b.hi)?;
    eq("normalized_sum_norm_x", &c["model_states"][0]["normalized_sum_norm_x"], a.norm_sum, b.norm_sum)?;
    eq("total_weight", &c["model_states"][0]["total_weight"], a.weight_sum, b.weight_sum)?;
    eq("average_squared_norm_x", &c["average_squared_norm_x"], a.avg, b.avg)?;
    let tab = c["weights"]["weights"].as_object().ok_or("no weight table in the export")?;
    let zero = vec![json!(0.0); 6];
    for (i, x) in &a.w {
        let y = &b.w[i];
        let row = tab.get(&i.to_string()).and_then(|r| r[0].as_array()).unwrap_or(&zero);
        for (k, (name, p, q)) in [
            ("weight", x.x, y.x),
            ("sum of gradients", x.theta, y.theta),
            ("sum of absolute gradients", x.g, y.g),
            ("largest value", x.m, y.m),
            ("wealth", x.wealth, y.wealth),
            ("largest gradient", x.l, y.l),
        ]
        .iter()
        .enumerate()
        {
            eq(&format!("{name} of feature {i}"), &row[k], *p, *q)?;
        }
    }
    for i in tab.keys() {
        ensure!(a.w.contains_key(&i.parse().unwrap()), "feature {i} has state although it never occurred");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C16

pub fn c16(ctx: &Ctx) {
    let mut regs = regressors(1);
    regs.push(("coin-beta".into(), coin(json!({"beta": 0.1, "alpha": 1.0, "linkFunction": "Identity"}))));
    let gl = globals(ctx.b(0, 1));
    let depth = ctx.b(3, 4);
    let ne = SIMPLE.len();
    ctx.bound(format!("{} regressors below Binary (with and without Debug in between) x {} global configurations x all histories of {depth} boolean examples over {ne} feature sets, learned alone or after predicting", regs.len(), gl.len()));
    ctx.explore("labels", |c, t| {
        let reg = c.of(&regs).1.clone();
        let g = c.of(&gl).1.clone();
        let dbg = c.flag();
        let (bits, seed) = (g["numBits"].as_u64().unwrap() as u8, g["hashSeed"].as_u64().unwrap() as u32);
        let mut b = ws(&g, &node("Binary", json!({"regressor": if dbg { debug(reg.clone()) } else { reg.clone() }})));
        let mut r = ws(&g, &reg);
        let mut hist = vec![];
        for step in 0..=depth {
            let at = |m: String| format!("{reg} {g} after {hist:?}: {m}");
            for s in SIMPLE {
                let (mut f1, mut f2): (Features, Features) = (mk(s, seed, bits).into(), mk(s, seed, bits).into());
                let p = guarded(|| b.predict(&mut f1)).map_err(at)?;
                let q = guarded(|| r.predict(&mut f2)).map_err(at)?;
                let (Prediction::Binary(p), Prediction::Scalar(q)) = (p, q) else { return Err(at("prediction types".into())) };
                ensure!(p.0 == (q.prediction > 0.0), "{}", at(format!("`{s}` is classified {}, the regressor predicts {}", p.0, q.prediction)));
                t.distinct(&(q.prediction.to_bits(), p.0));
            }
            if step == depth {
                break;
            }
            let e = c.choose(ne);
            let l = c.flag();
            let ptl = (e + step) % 2 == 1;
            hist.push((e, l, ptl));
            let (mut f1, mut f2): (Features, Features) = (mk(SIMPLE[e], seed, bits).into(), mk(SIMPLE[e], seed, bits).into());
            let bl = Label::Binary(BinaryLabel(l));
            let sl = Label::Simple(SimpleLabel::new(if l { 1.0 } else { -1.0 }, 1.0));
            if ptl {
                let q = guarded(|| r.predict(&mut f2))?;
                let p = guarded(|| b.predict_then_learn(&mut f1, &bl))?;
                let (Prediction::Binary(p), Prediction::Scalar(q)) = (p, q) else { return Err("prediction types".into()) };
                ensure!(p.0 == (q.prediction > 0.0), "{reg} {hist:?}: `{}` is classified {} when learning, the regressor predicts {}", SIMPLE[e], p.0, q.prediction);
            } else {
                guarded(|| b.learn(&mut f1, &bl))?;
            }
            guarded(|| r.learn(&mut f2, &sl))?;
            t.step();
            let (x, y) = (coins(&b)?, coins(&r)?);
            ensure!(x == y, "{reg} {g} after {hist:?}: the regressor below differs from one trained on plus and minus one");
        }
        t.state(&(&reg.to_string(), bytes(&b)?));
        t.eval();
        t.sample(|| format!("{reg} {g} {hist:?}"));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C17

/// Namespace names whose hashes lie next to the 32-bit limit for seed 0 (found once by search).
const EDGE_NS: &[(&str, u32)] = &[("ns", 2641386966)];

fn anon(f: &mut SparseFeatures, ns: Namespace, nh: u32, xs: &[(u32, f32)], bits: u8) {
    let d = f.get_or_create_namespace(ns);
    for (p, v) in xs {
        d.add_feature(mask(nh.wrapping_add(*p), bits).into(), *v);
    }
}

pub fn c17(ctx: &Ctx) {
    // (seed, one, two): ordinary names, the default namespace, a namespace with itself, hashes next to the limit
    let pairs: Vec<(u32, &str, &str)> = vec![
        (0, "a", "b"),
        (5, "b", "a"),
        (0, "a", "a"),
        (0, ":default", "a"),
        (2623688649, "a", "b"),
        (2623491786, "a", "b"),
        (EDGE_NS[0].1, "ns", "a"),
        (EDGE_NS[0].1, "ns", "ns"),
    ];
    let widths: &[u8] = if ctx.quick() { &[2, 5, 16] } else { &[2, 3, 5, 12, 18] };
    let maxpos = ctx.b(3, 4);
    let vals = [1.0f32, -2.0, 0.5, 3.0];
    ctx.bound(format!("namespace pairs (seed, one, two) {pairs:?} x widths {widths:?} x all pairs of position subsets of 0..{maxpos} x 2 value patterns x absent namespaces x keeping originals or not x (with, without) an unrelated namespace; predict, learn, predict, predict-then-learn, predict compared with a plain regressor fed the products"));
    ctx.explore("products", |c, t| {
        let (seed, one, two) = *c.of(&pairs);
        let bits = *c.of(widths);
        let keep = c.flag();
        let other = c.flag();
        let self_pair = one == two;
        // subset of positions, or the namespace missing altogether
        let maxpos = maxpos.min(1 << bits);
        let pat = c.choose(2);
        let pick = |c: &mut Chooser| -> Option<Vec<u32>> {
            let k = c.choose((1 << maxpos) + 1);
            if k == 1 << maxpos {
                None
            } else {
                Some((0..maxpos as u32).filter(|i| k >> i & 1 == 1).collect())
            }
        };
        let p1 = pick(c);
        let p2 = if self_pair { p1.clone() } else { pick(c) };
        let val = |side: usize, p: u32| vals[(p as usize * (1 + pat) + side) % 4];
        let (n1, h1) = ns_of(one, seed);
        let (n2, h2) = ns_of(two, seed);
        let make = || {
            let mut f = SparseFeatures::new();
            if let Some(p) = &p1 {
                anon(&mut f, n1, h1, &p.iter().map(|i| (*i, val(0, *i))).collect::<Vec<_>>(), bits);
            }
            if !self_pair {
                if let Some(p) = &p2 {
                    anon(&mut f, n2, h2, &p.iter().map(|i| (*i, val(1, *i))).collect::<Vec<_>>(), bits);
                }
            }
            if other {
                let (n, hh) = ns_of("other", seed);
                anon(&mut f, n, hh, &[(0, 1.0), (3, -1.0)], bits);
            }
            f
        };
        let h12 = (h1 as u64 * h2 as u64) as u32;
        let reference = || {
            let mut f = make();
            if !keep {
                f.remove_namespace(n1);
                f.remove_namespace(n2);
            }
            let both: Vec<(u32, f32)> = match (&p1, &p2) {
                (Some(a), Some(b)) => a.iter().filter(|i| b.contains(i)).map(|i| (*i, val(0, *i) * if self_pair { val(0, *i) } else { val(1, *i) })).collect(),
                _ => vec![],
            };
            // presented in a namespace of its own
            anon(&mut f, Namespace::Named(h("a name nobody else uses", 99).into()), h12, &both, bits);
            f
        };
        // Where two features share an index the result depends on the order of namespaces, which is nobody's promise.
        let shared_index = {
            let mut idx: Vec<u32> = expand(&reference(), &[], bits, true).iter().map(|x| x.0).collect();
            let n = idx.len();
            idx.sort();
            idx.dedup();
            idx.len() != n
        };
        let g = global(bits, seed, true, &[]);
        let at = |m: String| format!("{one} x {two} seed {seed} bits {bits} keep {keep} positions {p1:?} / {p2:?}: {m}");
        let mut w = try_ws(&g, &elem(one, two, keep, coin(json!({})))).map_err(at)?;
        let mut r = ws(&g, &coin(json!({})));
        let mut f: Features = make().into();
        let before = look(&f);
        let lab = [Label::Simple(SimpleLabel::new(2.0, 1.0)), Label::Simple(SimpleLabel::new(-1.0, 2.0))];
        for step in 0..5 {
            let mut q: Features = reference().into();
            let (x, y) = match step {
                0 | 2 | 4 => {
                    let a = guarded(|| w.predict(&mut f)).map_err(at)?;
                    (Some(a), Some(r.predict(&mut q)))
                }
                1 => {
                    guarded(|| w.learn(&mut f, &lab[0])).map_err(at)?;
                    r.learn(&mut q, &lab[0]);
                    (None, None)
                }
                _ => {
                    let a = guarded(|| w.predict_then_learn(&mut f, &lab[1])).map_err(at)?;
                    (Some(a), Some(r.predict_then_learn(&mut q, &lab[1])))
                }
            };
            ensure!(look(&f) == before, "{}", at(format!("features not restored: {before} became {}", look(&f))));
            consistent_features(&f).map_err(at)?;
            if let (Some(Prediction::Scalar(x)), Some(Prediction::Scalar(y)), false) = (x, y, shared_index) {
                ensure!(
                    close(x.raw_prediction as f64, y.raw_prediction as f64, 1e-5) && close(x.prediction as f64, y.prediction as f64, 1e-5),
                    "{}",
                    at(format!("step {step} predicts {x:?}, a regressor fed the products {y:?}"))
                );
                t.distinct(&(x.raw_prediction.to_bits(), &p1, &p2));
            }
            t.step();
        }
        let (x, y) = (coins(&w)?, coins(&r)?);
        ensure!(x.len() == 1 && y.len() == 1, "harness: regressors in export");
        if shared_index {
            return Ok(());
        }
        json_close(&x[0], &y[0], 1e-5).map_err(|m| at(format!("the regressor's state differs at {m}")))?;
        t.eval();
        t.state(&bytes(&w)?);
        t.sample(|| at(String::new()));
        Ok(())
    });
}
