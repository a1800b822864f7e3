//! Reduction stacks and example alphabets; C09, C10, C18, C25 (histories over every stack).
use crate::common::*;
use crate::ensure;
use crate::model::*;
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use reductionml_core::workspace::Workspace;
use reductionml_core::{CBAdfFeatures, CBLabel, Features, Label, Prediction, SimpleLabel};
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Scalar,
    Binary,
    Scores,
    Probs,
}
impl Kind {
    pub fn cb(self) -> bool {
        matches!(self, Kind::Scores | Kind::Probs)
    }
}

#[derive(Clone, Debug)]
pub struct Stack {
    pub name: String,
    pub entry: Value,
    pub kind: Kind,
}

pub fn node(t: &str, c: Value) -> Value {
    json!({"typename": t, "config": c})
}
pub fn debug(next: Value) -> Value {
    node("Debug", json!({"id": "d", "next": next}))
}
pub fn coin(c: Value) -> Value {
    node("Coin", c)
}
pub fn elem(one: &str, two: &str, keep: bool, reg: Value) -> Value {
    let ns = |n: &str| if n == ":default" { json!("Default") } else { json!({"Name": n}) };
    node("ElementwiseInteraction", json!({"one": ns(one), "two": ns(two), "keepOriginalFeatures": keep, "regressor": reg}))
}

pub fn global(bits: u8, seed: u32, constant: bool, inter: &[&str]) -> Value {
    // "ab", "aab": one letter per namespace, '_' is the default namespace
    let it: Vec<Value> = inter
        .iter()
        .map(|s| Value::Array(s.chars().map(|c| if c == '_' { json!("Default") } else { json!({"Name": c.to_string()}) }).collect()))
        .collect();
    json!({"numBits": bits, "hashSeed": seed, "constantFeatureEnabled": constant, "interactions": it})
}

pub fn try_ws(global: &Value, entry: &Value) -> Result<Workspace, String> {
    let c = json!({"globalConfig": global, "entryReduction": entry});
    guarded(|| Workspace::new(c.try_into().map_err(|e| format!("{e}"))?).map_err(|e| format!("{e}")))?
}
pub fn ws(global: &Value, entry: &Value) -> Workspace {
    try_ws(global, entry).unwrap_or_else(|e| panic!("workspace {entry}: {e}"))
}

/// Regressors: what can sit where a scalar-predicting layer over simple features is required.
pub fn regressors(level: usize) -> Vec<(String, Value)> {
    let c = || coin(json!({}));
    let mut v = vec![
        ("coin".to_string(), c()),
        ("elem".to_string(), elem("a", "b", false, c())),
        ("coinLogLink".to_string(), coin(json!({"linkFunction": "Logistic", "alpha": 2.0}))),
        ("elemKeep".to_string(), elem("a", "b", true, c())),
        ("dbg-coin".to_string(), debug(c())),
    ];
    if level >= 1 {
        v.extend([
            ("coinLogLoss".to_string(), coin(json!({"lossFunction": {"Logistic": {}}, "beta": 0.5}))),
            ("elemSelf".to_string(), elem("a", "a", true, c())),
            ("dbg-elem-dbg-coin".to_string(), debug(elem("b", "a", false, debug(coin(json!({"alpha": 1.0})))))),
            ("elem-elem".to_string(), elem("a", "b", true, elem("b", "a", false, c()))),
        ]);
    }
    v
}

/// Every well-typed stack over the regressors: [Debug] [Binary | CbAdf [explore]] regressor.
pub fn stacks(level: usize) -> Vec<Stack> {
    let mut v = vec![];
    for (n, r) in regressors(level) {
        v.push(Stack { name: n.clone(), entry: r.clone(), kind: Kind::Scalar });
        let b = node("Binary", json!({"regressor": r}));
        v.push(Stack { name: format!("binary/{n}"), entry: b.clone(), kind: Kind::Binary });
        if level >= 1 {
            v.push(Stack { name: format!("dbg/binary/{n}"), entry: debug(b), kind: Kind::Binary });
        }
        for ty in ["ips", "mtr"] {
            let cb = node("CbAdf", json!({"cbType": ty, "regressor": r}));
            v.push(Stack { name: format!("{ty}/{n}"), entry: cb.clone(), kind: Kind::Scores });
            let mut ex = vec![
                ("greedy", node("CbExploreAdfGreedy", json!({"epsilon": 0.25, "cbAdf": cb}))),
                ("softmax", node("CbExploreAdfSoftmax", json!({"lambda": 2.0, "uniformEpsilon": 0.1, "cbAdf": cb}))),
            ];
            if ty == "mtr" {
                ex.push(("squarecb", node("CbExploreAdfSquareCb", json!({"gammaScale": 5.0, "uniformEpsilon": 0.05, "cbAdf": cb}))));
            }
            for (en, e) in ex {
                v.push(Stack { name: format!("{en}/{ty}/{n}"), entry: e, kind: Kind::Probs });
            }
            if level >= 1 {
                v.push(Stack {
                    name: format!("dbg/greedy/dbg/{ty}/{n}"),
                    entry: debug(node("CbExploreAdfGreedy", json!({"cbAdf": debug(cb)}))),
                    kind: Kind::Probs,
                });
            }
        }
    }
    v
}

/// `ns|tok:val tok;ns|…` — digits are anonymous offsets, other tokens are named; a namespace may be empty.
pub fn mk(spec: &str, seed: u32, bits: u8) -> SparseFeatures {
    let mut f = SparseFeatures::new();
    for seg in spec.split(';').map(|s| s.trim()).filter(|s| !s.is_empty()) {
        let (name, rest) = seg.split_once('|').unwrap();
        let (ns, nh) = ns_of(name, seed);
        let d = f.get_or_create_namespace(ns);
        for tok in rest.split_whitespace() {
            let (k, v) = tok.split_once(':').unwrap_or((tok, "1"));
            let idx = match k.parse::<u32>() {
                Ok(n) => nh.wrapping_add(n),
                Err(_) => h(k, nh),
            };
            d.add_feature(mask(idx, bits).into(), v.parse().unwrap());
        }
    }
    f
}

/// `shared // action / action`; without `//` there is no shared part.
pub fn mkcb(spec: &str, seed: u32, bits: u8) -> CBAdfFeatures {
    let (shared, acts) = match spec.split_once("//") {
        Some((s, a)) => (Some(mk(s, seed, bits)), a),
        None => (None, spec),
    };
    CBAdfFeatures { shared, actions: acts.split('/').map(|a| mk(a, seed, bits)).collect() }
}

pub fn example(kind: Kind, spec: &str, seed: u32, bits: u8) -> Features<'static> {
    if kind.cb() {
        mkcb(spec, seed, bits).into()
    } else {
        mk(spec, seed, bits).into()
    }
}

pub const SIMPLE: &[&str] = &[
    "a|0:1 1:2;b|0:3 1:1",
    "a|1:1 3:2;b|1:4 2:1 3:-1;c|x:2",
    "a|;b|0:1",
    "a|0:0.5;b|0:-2;:default|z:1;c|",
];
pub const CB: &[&str] = &[
    "s|x:1;a|0:1 1:1 // b|0:2 / b|1:1;a|2:1",
    "a|0:1;b|0:1;c|y / b|1:2;a|1:1 / a|;b|2:1",
    "// a|1:1;b|1:1.5",
    "c|;a|0:1;b|0:-1;c|x // b|1:1;s|x:2 / a|1:1;c|x:3;b|3:1 / b|",
];

/// Further shapes: namespaces missing on either side, nothing at all, larger than the rest, repeated features,
/// extreme values.
const SIMPLE_MORE: &[&str] = &[
    "a|0:1 2:2;c|x",
    "b|1:2",
    "",
    "a|",
    "a|0:1 0:2;b|0:1 0:3",
    "a|0:1e-20 1:1e10;b|1:-1e-10 0:1;:default|0:0 z:-0.0",
    "a|5:1 6:1 7:1 8:1 9:1;b|4:1 5:2 6:3 7:4 9:5 10:6",
];
const CB_MORE: &[&str] = &[
    "a|1:1;c|x // c|y / b|1:2 / a|1:2;b|1:1",
    "a|0:2 / b|0:1 / c|z / ",
    " // a|0:1;b|0:2",
    "b|0:1 2:1;s|x // a|0:1 1:1 2:1 / a|;b|5:1 / a|2:1 / a|2:2 / a|2:3",
    "c|x y",
    "s|x:-1;s|y:0 // s|x:1 / s|x:1",
];
pub fn more(kind: Kind) -> Vec<&'static str> {
    let (a, b) = if kind.cb() { (CB, CB_MORE) } else { (SIMPLE, SIMPLE_MORE) };
    a.iter().chain(b).copied().collect()
}

pub fn specs(kind: Kind) -> &'static [&'static str] {
    if kind.cb() {
        CB
    } else {
        SIMPLE
    }
}

/// Label number `k` for an example of `n` actions.
pub fn label(kind: Kind, k: usize, n: usize) -> Label {
    match kind {
        Kind::Scalar => {
            let (v, w) = [(1.0, 1.0), (-2.0, 0.5), (0.0, 1.0)][k];
            Label::Simple(SimpleLabel::new(v, w))
        }
        Kind::Binary => Label::Binary((k == 0).into()),
        _ => {
            let (a, c, p) = [(0, 1.0, 0.5), (n - 1, 0.0, 1.0), (n / 2, -1.0, 0.25)][k];
            Label::CB(CBLabel::new(a, c, p))
        }
    }
}
pub fn nlabels(kind: Kind) -> usize {
    if kind == Kind::Binary {
        2
    } else {
        3
    }
}
pub fn nactions(f: &Features) -> usize {
    match view(f) {
        Ex::Cb(_, a) => a.len(),
        _ => 1,
    }
}

/// Bitwise view of a prediction.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum PV {
    Scalar(u32, u32),
    Binary(bool),
    Scores(Vec<(usize, u32)>),
    Probs(Vec<(usize, u32)>),
}
pub fn pv(p: &Prediction) -> PV {
    // one NaN is as good as another
    let b = |x: f32| if x.is_nan() { f32::NAN.to_bits() } else { x.to_bits() };
    match p {
        Prediction::Scalar(s) => PV::Scalar(b(s.prediction), b(s.raw_prediction)),
        Prediction::Binary(x) => PV::Binary(x.0),
        Prediction::ActionScores(v) => PV::Scores(v.0.iter().map(|x| (x.0, b(x.1))).collect()),
        Prediction::ActionProbs(v) => PV::Probs(v.0.iter().map(|x| (x.0, b(x.1))).collect()),
    }
}
pub fn kind_of(p: &PV) -> Kind {
    match p {
        PV::Scalar(..) => Kind::Scalar,
        PV::Binary(_) => Kind::Binary,
        PV::Scores(_) => Kind::Scores,
        PV::Probs(_) => Kind::Probs,
    }
}

pub fn bytes(w: &Workspace) -> Result<Vec<u8>, String> {
    guarded(|| w.serialize_model().map_err(|e| format!("saving failed: {e}")))?
}

/// All objects of the exported model that are coin regressors (they have weights and a label range).
pub fn coins(w: &Workspace) -> Result<Vec<Value>, String> {
    let j = guarded(|| w.serialize_to_json().map_err(|e| format!("export failed: {e}")))??;
    let mut out = vec![];
    fn walk(v: &Value, out: &mut Vec<Value>) {
        match v {
            Value::Object(m) => {
                if m.contains_key("min_label") && m.contains_key("weights") {
                    out.push(v.clone());
                } else {
                    m.values().for_each(|x| walk(x, out));
                }
            }
            Value::Array(a) => a.iter().for_each(|x| walk(x, out)),
            _ => {}
        }
    }
    walk(&j, &mut out);
    Ok(out)
}

/// Features as the caller sees them: content per namespace, those without features left out, order kept.
pub fn look(f: &Features) -> String {
    use reductionml_core::utils::AsInner;
    let one = |s: &SparseFeatures| -> Vec<(Namespace, Vec<(u32, u32)>)> {
        s.namespaces()
            .map(|(n, i)| (n, i.map(|(i, v)| (u32::from(i), v.to_bits())).collect::<Vec<_>>()))
            .filter(|x: &(Namespace, Vec<(u32, u32)>)| !x.1.is_empty())
            .collect()
    };
    if let Some(s) = AsInner::<SparseFeatures>::as_inner(f) {
        return format!("{:?}", one(s));
    }
    let c: &CBAdfFeatures = f.as_inner().unwrap();
    format!("{:?} {:?}", c.shared.as_ref().map(one), c.actions.iter().map(one).collect::<Vec<_>>())
}

const BITS: u8 = 5;

pub fn globals(level: usize) -> Vec<(&'static str, Value)> {
    let mut v = vec![("plain", global(BITS, 0, true, &[])), ("inter", global(BITS, 7, true, &["ab", "aa", "abs"]))];
    if level >= 1 {
        v.push(("noconst", global(4, 1, false, &["bs", "aab", "bcc"])));
        v.push(("onebit", global(1, 0, true, &[])));
    }
    v
}

pub struct Setup {
    pub stack: Stack,
    pub g: Value,
    pub bits: u8,
    pub seed: u32,
}
pub fn pick_setup(c: &mut Chooser, all: &[Stack], gl: &[(&'static str, Value)]) -> Setup {
    let stack = c.of(all).clone();
    let g = c.of(gl).1.clone();
    let bits = g["numBits"].as_u64().unwrap() as u8;
    let seed = g["hashSeed"].as_u64().unwrap() as u32;
    Setup { stack, g, bits, seed }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Predict(usize),
    Learn(usize, usize),
    Ptl(usize, usize),
}
/// 0..E predict, then learn and predict-then-learn for every example and label.
pub fn op(kind: Kind, k: usize, ne: usize) -> Op {
    let nl = nlabels(kind);
    if k < ne {
        Op::Predict(k)
    } else {
        let r = k - ne;
        let (e, l, p) = (r / (2 * nl), (r / 2) % nl, r % 2);
        if p == 0 {
            Op::Learn(e, l)
        } else {
            Op::Ptl(e, l)
        }
    }
}
pub fn nops(kind: Kind, ne: usize) -> usize {
    ne + ne * 2 * nlabels(kind)
}

pub fn lab_for(kind: Kind, f: &Features, l: usize) -> Label {
    label(kind, l, nactions(f))
}

// ------------------------------------------------------------------------------------------------ C09

pub fn c09(ctx: &Ctx) {
    let level = ctx.b(0, 1);
    let (all, gl) = (stacks(level), globals(level));
    let ne = 4;
    let depth = 2;
    ctx.bound(format!("{} stacks x {} global configurations x all histories of {} operations (predict, learn, predict-then-learn over {} reused examples and 2-3 labels)", all.len(), gl.len(), depth, ne));
    let body = |depth: usize, c: &mut Chooser, t: &mut Tally| -> Result<(), String> {
        let s = pick_setup(c, &all, &gl);
        let kind = s.stack.kind;
        let sp = specs(kind);
        let mut reused: Vec<Features> = sp[..ne].iter().map(|x| example(kind, x, s.seed, s.bits)).collect();
        let before: Vec<String> = reused.iter().map(look).collect();
        let mut w = ws(&s.g, &s.stack.entry);
        let mut fresh_w = ws(&s.g, &s.stack.entry);
        let mut hist = vec![];
        for _ in 0..depth {
            let o = op(kind, c.choose(nops(kind, ne)), ne);
            hist.push(o);
            let at = |m: String| format!("{} after {hist:?}: {m}", s.stack.name);
            let b0 = bytes(&w)?;
            match o {
                Op::Predict(e) => {
                    let p1 = guarded(|| pv(&w.predict(&mut reused[e]))).map_err(at)?;
                    let p2 = guarded(|| pv(&w.predict(&mut reused[e]))).map_err(at)?;
                    let mut fe = example(kind, sp[e], s.seed, s.bits);
                    let p3 = guarded(|| pv(&fresh_w.predict(&mut fe))).map_err(at)?;
                    ensure!(p1 == p2, "{}", at(format!("repeating a prediction changed it: {p1:?} / {p2:?}")));
                    ensure!(p1 == p3, "{}", at(format!("reused example predicts {p1:?}, fresh copy {p3:?}")));
                    ensure!(bytes(&w)? == b0, "{}", at("predicting changed the saved model".into()));
                    t.distinct(&(&s.stack.name, &hist, p1));
                }
                Op::Learn(e, l) | Op::Ptl(e, l) => {
                    let lab = lab_for(kind, &reused[e], l);
                    let mut fe = example(kind, sp[e], s.seed, s.bits);
                    if let Op::Ptl(..) = o {
                        let p1 = guarded(|| pv(&w.predict_then_learn(&mut reused[e], &lab))).map_err(at)?;
                        let p3 = guarded(|| pv(&fresh_w.predict_then_learn(&mut fe, &lab))).map_err(at)?;
                        ensure!(p1 == p3, "{}", at(format!("reused example predicts {p1:?}, fresh copy {p3:?}")));
                    } else {
                        guarded(|| w.learn(&mut reused[e], &lab)).map_err(at)?;
                        guarded(|| fresh_w.learn(&mut fe, &lab)).map_err(at)?;
                    }
                    ensure!(
                        look(&fe) == before[e],
                        "{}",
                        at(format!("features not restored: {} became {}", before[e], look(&fe)))
                    );
                }
            }
            for (e, f) in reused.iter().enumerate() {
                ensure!(look(f) == before[e], "{}", at(format!("features of example {e} not restored: {} became {}", before[e], look(f))));
                consistent_features(f).map_err(at)?;
            }
            let b1 = bytes(&w)?;
            ensure!(b1 == bytes(&fresh_w)?, "{}", at("reusing example objects led to another model than fresh copies".into()));
            t.state(&(&s.stack.name, &s.g.to_string(), &b1));
            t.step();
        }
        t.eval();
        t.sample(|| format!("{} {} {hist:?}", s.stack.name, s.g));
        Ok(())
    };
    ctx.explore("reuse", |c, t| body(depth, c, t));
    ctx.bound("every operation on each of the 10-11 example shapes (namespaces missing, empty, repeated, larger) after each of them was learned");
    ctx.explore("reuse-shapes", |c, t| {
        let s = pick_setup(c, &all, &gl);
        let sp = more(s.stack.kind);
        deep_reuse(&s, &sp, 2, sp.len(), 1, c, t)
    });
    if !ctx.quick() {
        // a third operation over fewer stacks
        let (all, gl) = (stacks(0), globals(0));
        ctx.bound(format!("{} stacks x {} configurations with histories of 3", all.len(), gl.len()));
        ctx.explore("reuse-deep", |c, t| {
            let s = pick_setup(c, &all, &gl);
            deep_reuse(&s, specs(s.stack.kind), 3, 3, 3, c, t)
        });
    }
}

fn deep_reuse(s: &Setup, sp: &[&str], depth: usize, ne: usize, nl: usize, c: &mut Chooser, t: &mut Tally) -> Result<(), String> {
    let kind = s.stack.kind;
    let mut reused: Vec<Features> = sp[..ne].iter().map(|x| example(kind, x, s.seed, s.bits)).collect();
    let before: Vec<String> = reused.iter().map(look).collect();
    let mut w = ws(&s.g, &s.stack.entry);
    let mut fw = ws(&s.g, &s.stack.entry);
    let mut hist = vec![];
    for _ in 0..depth {
        let o = if nl > 1 {
            op(kind, c.choose(nops(kind, ne)), ne)
        } else {
            let (e, k) = (c.choose(ne), c.choose(3));
            [Op::Predict(e), Op::Learn(e, 0), Op::Ptl(e, 0)][k]
        };
        hist.push(o);
        let at = |m: String| format!("{} after {hist:?}: {m}", s.stack.name);
        let (Op::Predict(e) | Op::Learn(e, _) | Op::Ptl(e, _)) = o;
        let mut fe = example(kind, sp[e], s.seed, s.bits);
        match o {
            Op::Predict(_) => {
                let a = guarded(|| pv(&w.predict(&mut reused[e]))).map_err(at)?;
                let b = guarded(|| pv(&fw.predict(&mut fe))).map_err(at)?;
                ensure!(a == b, "{}", at(format!("reused example predicts {a:?}, fresh copy {b:?}")));
            }
            Op::Learn(_, l) => {
                let lab = lab_for(kind, &fe, l);
                guarded(|| w.learn(&mut reused[e], &lab)).map_err(at)?;
                guarded(|| fw.learn(&mut fe, &lab)).map_err(at)?;
            }
            Op::Ptl(_, l) => {
                let lab = lab_for(kind, &fe, l);
                let a = guarded(|| pv(&w.predict_then_learn(&mut reused[e], &lab))).map_err(at)?;
                let b = guarded(|| pv(&fw.predict_then_learn(&mut fe, &lab))).map_err(at)?;
                ensure!(a == b, "{}", at(format!("reused example predicts {a:?}, fresh copy {b:?}")));
            }
        }
        t.step();
        ensure!(look(&reused[e]) == before[e], "{}", at(format!("features not restored: {} became {}", before[e], look(&reused[e]))));
    }
    ensure!(bytes(&w)? == bytes(&fw)?, "{} {hist:?}: reusing example objects led to another model than fresh copies", s.stack.name);
    t.eval();
    t.distinct(&(&s.stack.name, &hist));
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C10

/// Inserts Debug layers at every position chosen by the mask (bit per layer, top down).
pub fn with_debug(v: &Value, m: &mut u32, used: &mut u32) -> Value {
    let here = *m & 1 == 1;
    *m >>= 1;
    *used += 1;
    let mut n = v.clone();
    for k in ["regressor", "cbAdf", "next"] {
        if let Some(ch) = v["config"].get(k) {
            n["config"][k] = with_debug(ch, m, used);
        }
    }
    if here {
        debug(n)
    } else {
        n
    }
}

pub fn c10(ctx: &Ctx) {
    let level = ctx.b(0, 1);
    let (all, gl) = (stacks(level), globals(level));
    let ne = ctx.b(3, 4);
    let depth = ctx.b(3, 3);
    ctx.bound(format!("{} stacks x {} global configurations x all histories of {} labelled examples from {} examples and 2-3 labels, combined operation against the two separate ones at every step", all.len(), gl.len(), depth, ne));
    ctx.explore("combined", |c, t| {
        let s = pick_setup(c, &all, &gl);
        let kind = s.stack.kind;
        let sp = specs(kind);
        let mut a = ws(&s.g, &s.stack.entry);
        let mut b = ws(&s.g, &s.stack.entry);
        let mut hist = vec![];
        for _ in 0..depth {
            let e = c.choose(ne);
            let l = c.choose(nlabels(kind));
            hist.push((e, l));
            let at = |m: String| format!("{} after {hist:?}: {m}", s.stack.name);
            let mut f1 = example(kind, sp[e], s.seed, s.bits);
            let mut f2 = example(kind, sp[e], s.seed, s.bits);
            let lab = lab_for(kind, &f1, l);
            let pa = guarded(|| pv(&a.predict_then_learn(&mut f1, &lab))).map_err(at)?;
            let pb = guarded(|| pv(&b.predict(&mut f2))).map_err(at)?;
            guarded(|| b.learn(&mut f2, &lab)).map_err(at)?;
            t.step();
            ensure!(pa == pb, "{}", at(format!("predict-then-learn returns {pa:?}, predicting first {pb:?}")));
            ensure!(kind_of(&pa) == kind, "{}", at(format!("prediction has another type than the stack: {pa:?}")));
            t.distinct(&(&s.stack.name, &hist, pa));
        }
        let bb = bytes(&a)?;
        ensure!(bb == bytes(&b)?, "{} {hist:?}: predict-then-learn leaves another model than learning alone", s.stack.name);
        t.state(&(&s.stack.name, bb));
        t.eval();
        t.sample(|| format!("{} {} {hist:?}", s.stack.name, s.g));
        Ok(())
    });
    ctx.bound("the combined operation on each of the 10-11 example shapes after each of them was learned");
    ctx.explore("combined-shapes", |c, t| {
        let s = pick_setup(c, &all, &gl);
        let kind = s.stack.kind;
        let sp = more(kind);
        let mut a = ws(&s.g, &s.stack.entry);
        let mut b = ws(&s.g, &s.stack.entry);
        let mut hist = vec![];
        for i in 0..2 {
            let e = c.choose(sp.len());
            hist.push(sp[e]);
            let at = |m: String| format!("{} after {hist:?}: {m}", s.stack.name);
            let mut f1 = example(kind, sp[e], s.seed, s.bits);
            let mut f2 = example(kind, sp[e], s.seed, s.bits);
            let lab = lab_for(kind, &f1, i);
            let pa = guarded(|| pv(&a.predict_then_learn(&mut f1, &lab))).map_err(at)?;
            let pb = guarded(|| pv(&b.predict(&mut f2))).map_err(at)?;
            guarded(|| b.learn(&mut f2, &lab)).map_err(at)?;
            t.step();
            ensure!(pa == pb, "{}", at(format!("predict-then-learn returns {pa:?}, predicting first {pb:?}")));
            t.distinct(&(&s.stack.name, &hist, pa));
        }
        ensure!(bytes(&a)? == bytes(&b)?, "{} {hist:?}: predict-then-learn leaves another model than learning alone", s.stack.name);
        t.eval();
        Ok(())
    });
    // Observing layers change nothing.
    let base: Vec<Stack> = stacks(0).into_iter().filter(|s| !s.name.contains("dbg")).collect();
    let gl = globals(0);
    let depth = ctx.b(2, 3);
    ctx.bound(format!("{} stacks, Debug layers inserted at every subset of positions, histories of {depth} of mixed operations", base.len()));
    ctx.explore("observing-layers", |c, t| {
        let s = pick_setup(c, &base, &gl);
        let kind = s.stack.kind;
        let mut used = 0;
        with_debug(&s.stack.entry, &mut 0, &mut used);
        let m0 = 1 + c.choose((1 << used) - 1) as u32;
        let entry = with_debug(&s.stack.entry, &mut m0.clone(), &mut 0);
        // SquareCB only looks for its estimator type directly below itself, which is not claimed here
        let sp = specs(kind);
        let mut a = ws(&s.g, &s.stack.entry);
        let mut b = ws(&s.g, &entry);
        let mut hist = vec![];
        for _ in 0..depth {
            let o = op(kind, c.choose(nops(kind, 2)), 2);
            hist.push(o);
            let at = |m: String| format!("{entry} after {hist:?}: {m}");
            let (Op::Predict(e) | Op::Learn(e, _) | Op::Ptl(e, _)) = o;
            let mut f1 = example(kind, sp[e], s.seed, s.bits);
            let mut f2 = example(kind, sp[e], s.seed, s.bits);
            match o {
                Op::Predict(_) => {
                    let (x, y) = (guarded(|| pv(&a.predict(&mut f1))).map_err(at)?, guarded(|| pv(&b.predict(&mut f2))).map_err(at)?);
                    ensure!(x == y, "{}", at(format!("prediction {y:?}, without Debug layers {x:?}")));
                }
                Op::Learn(_, l) => {
                    let lab = lab_for(kind, &f1, l);
                    guarded(|| a.learn(&mut f1, &lab)).map_err(at)?;
                    guarded(|| b.learn(&mut f2, &lab)).map_err(at)?;
                }
                Op::Ptl(_, l) => {
                    let lab = lab_for(kind, &f1, l);
                    let x = guarded(|| pv(&a.predict_then_learn(&mut f1, &lab))).map_err(at)?;
                    let y = guarded(|| pv(&b.predict_then_learn(&mut f2, &lab))).map_err(at)?;
                    ensure!(x == y, "{}", at(format!("prediction {y:?}, without Debug layers {x:?}")));
                }
            }
            t.step();
        }
        ensure!(coins(&a)? == coins(&b)?, "{entry} {hist:?}: Debug layers changed what was learned");
        t.eval();
        t.distinct(&(entry.to_string(), &hist));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C18 and C25

#[derive(Clone, Copy, PartialEq)]
pub enum Trip {
    Binary,
    Json,
}

pub fn trip(w: &Workspace, how: Trip) -> Result<Workspace, String> {
    match how {
        Trip::Binary => {
            let b = bytes(w)?;
            guarded(|| Workspace::create_from_model(&b).map_err(|e| format!("a saved model is refused: {e}")))?
        }
        Trip::Json => {
            let j = guarded(|| w.serialize_to_json().map_err(|e| format!("export failed: {e}")))??;
            let text = serde_json::to_string(&j).unwrap();
            let back: Value = serde_json::from_str(&text).map_err(|e| format!("exported text is not JSON: {e}"))?;
            guarded(|| Workspace::deserialize_from_json(&back).map_err(|e| format!("an exported model is refused: {e}")))?
        }
    }
}

pub fn c18(ctx: &Ctx, how: Trip) {
    let level = ctx.b(0, 1);
    let (all, gl) = (stacks(level), globals(level));
    let ne = if ctx.quick() { 2 } else { 3 };
    let depth = 3;
    let some = how == Trip::Json && ctx.quick();
    let what = if how == Trip::Binary { "binary save/load" } else { "JSON export/import through text" };
    ctx.bound(format!("{} stacks x {} global configurations x all histories of {depth} labelled examples from {ne} examples and 2-3 labels, {what} at {} of the {} points", all.len(), gl.len(), if some { "each and at all" } else { "every subset" }, depth + 1));
    ctx.explore("round-trips", |c, t| {
        let s = pick_setup(c, &all, &gl);
        let kind = s.stack.kind;
        let sp = specs(kind);
        let mut a = ws(&s.g, &s.stack.entry);
        let mut b = ws(&s.g, &s.stack.entry);
        let mut hist = vec![];
        let plan = if some { Some(c.choose(depth + 2)) } else { None };
        let step = |a: &mut Workspace, b: &mut Workspace, hist: &Vec<(usize, usize)>, c: &mut Chooser, t: &mut Tally| -> Result<(), String> {
            let go = match plan {
                Some(k) => k == hist.len() || k == depth + 1,
                None => c.flag(),
            };
            if go {
                let before = bytes(b)?;
                let n = trip(b, how).map_err(|m| format!("{} after {hist:?}: {m}", s.stack.name))?;
                let after = bytes(&n)?;
                ensure!(before == after, "{} after {hist:?}: saving, loading and saving again gives other bytes", s.stack.name);
                ensure!(before == bytes(&b)?, "{} after {hist:?}: saving twice gives other bytes", s.stack.name);
                ensure!(
                    serde_json::to_value(n.global_config()).unwrap() == serde_json::to_value(b.global_config()).unwrap(),
                    "{} after {hist:?}: configuration not preserved",
                    s.stack.name
                );
                ensure!(n.get_entry_reduction().typename() == b.get_entry_reduction().typename(), "entry type not preserved");
                if how == Trip::Json {
                    // stable text, and independent of the binary form
                    ensure!(
                        n.serialize_to_json().map_err(|e| e.to_string())? == b.serialize_to_json().map_err(|e| e.to_string())?,
                        "{} after {hist:?}: exporting again gives other JSON",
                        s.stack.name
                    );
                }
                *b = n;
            }
            for e in 0..ne {
                let mut f1 = example(kind, sp[e], s.seed, s.bits);
                let mut f2 = example(kind, sp[e], s.seed, s.bits);
                let x = guarded(|| pv(&a.predict(&mut f1)))?;
                let y = guarded(|| pv(&b.predict(&mut f2)))?;
                ensure!(x == y, "{} after {hist:?}: predicts {y:?}, never saved {x:?}", s.stack.name);
                t.distinct(&(&s.stack.name, &hist, e, x));
            }
            t.step();
            Ok(())
        };
        step(&mut a, &mut b, &hist, c, t)?;
        for _ in 0..depth {
            let e = c.choose(ne);
            let l = c.choose(nlabels(kind));
            hist.push((e, l));
            let mut f1 = example(kind, sp[e], s.seed, s.bits);
            let mut f2 = example(kind, sp[e], s.seed, s.bits);
            let lab = lab_for(kind, &f1, l);
            guarded(|| a.learn(&mut f1, &lab))?;
            guarded(|| b.learn(&mut f2, &lab))?;
            step(&mut a, &mut b, &hist, c, t)?;
        }
        let ba = bytes(&a)?;
        ensure!(ba == bytes(&b)?, "{} after {hist:?}: another model than the one never saved", s.stack.name);
        t.state(&(&s.stack.name, ba));
        t.eval();
        t.sample(|| format!("{} {} {hist:?}", s.stack.name, s.g));
        Ok(())
    });
    ctx.bound("one round trip after learning two of the 10-11 example shapes, then one more");
    ctx.explore("round-trip-shapes", |c, t| {
        let s = pick_setup(c, &all, &gl);
        let kind = s.stack.kind;
        let sp = more(kind);
        let mut a = ws(&s.g, &s.stack.entry);
        let mut hist = vec![];
        let mut b = None;
        for i in 0..2 {
            let e = c.choose(sp.len());
            hist.push(sp[e]);
            let mut f = example(kind, sp[e], s.seed, s.bits);
            let lab = lab_for(kind, &f, i);
            guarded(|| a.learn(&mut f, &lab))?;
            if i == 0 {
                let n = match trip(&a, how) {
                    // JSON cannot express the infinite state extreme values lead to: an error is right then
                    Err(m) if how == Trip::Json && sp[e].contains("1e") && m.starts_with("export failed") => {
                        t.note("export refused");
                        return Ok(());
                    }
                    r => r.map_err(|m| format!("{} after {hist:?}: {m}", s.stack.name))?,
                };
                ensure!(bytes(&n)? == bytes(&a)?, "{} after {hist:?}: another model after the round trip", s.stack.name);
                b = Some(n);
            } else {
                let mut f = example(kind, sp[e], s.seed, s.bits);
                guarded(|| b.as_mut().unwrap().learn(&mut f, &lab))?;
            }
        }
        ensure!(bytes(&a)? == bytes(b.as_ref().unwrap())?, "{} after {hist:?}: another model than the one never saved", s.stack.name);
        t.eval();
        t.step();
        t.distinct(&(&s.stack.name, &hist));
        Ok(())
    });
    let n = ctx.b(600, 20_000);
    ctx.bound(format!("{n} learned examples in a row, the first example alternating with each example and label, round trips at the powers of two"));
    ctx.explore("round-trip-long", |c, t| {
        let s = pick_setup(c, &all, &gl[..1]);
        let kind = s.stack.kind;
        let sp = specs(kind);
        let pat = [(0, 0), (c.choose(sp.len()), c.choose(nlabels(kind)))];
        let mut a = ws(&s.g, &s.stack.entry);
        let mut b = ws(&s.g, &s.stack.entry);
        for i in 1..=n {
            let (e, l) = pat[i % 2];
            for w in [&mut a, &mut b] {
                let mut f = example(kind, sp[e], s.seed, s.bits);
                let lab = lab_for(kind, &f, l);
                guarded(|| w.learn(&mut f, &lab))?;
            }
            if i.is_power_of_two() || i == n {
                b = trip(&b, how).map_err(|m| format!("{} after {i} examples {pat:?}: {m}", s.stack.name))?;
                ensure!(bytes(&a)? == bytes(&b)?, "{} after {i} examples {pat:?}: another model than the one never saved", s.stack.name);
                t.step();
            }
        }
        t.eval();
        t.state(&(&s.stack.name, bytes(&a)?));
        Ok(())
    });
}
