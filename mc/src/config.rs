//! C20: which configurations are accepted, what they mean, and that what is accepted works.
use crate::common::*;
use crate::ensure;
use crate::stacks::*;
use reductionml_core::workspace::{Configuration, Workspace};
use serde_json::{json, Map, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum L {
    Simple,
    Binary,
    Cb,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum P {
    Scalar,
    Binary,
    Scores,
    Probs,
}
/// label, whether features are bandit features, prediction
type Ty = (L, bool, P);

/// The type of a stack, written from the documentation of the layers; None if it is ill-typed.
fn typed(v: &Value) -> Option<Ty> {
    let c = &v["config"];
    let child = |key: &str, default: Ty| if c[key].is_null() { Some(default) } else { typed(&c[key]) };
    let scalar = (L::Simple, false, P::Scalar);
    let scores = (L::Cb, true, P::Scores);
    match v["typename"].as_str()? {
        "Coin" => Some(scalar),
        "ElementwiseInteraction" => child("regressor", scalar).filter(|t| !t.1),
        "Binary" => child("regressor", scalar).filter(|t| t.0 == L::Simple && t.2 == P::Scalar).map(|t| (L::Binary, t.1, P::Binary)),
        "CbAdf" => child("regressor", scalar).filter(|t| *t == scalar).map(|_| scores),
        "CbExploreAdfGreedy" | "CbExploreAdfSoftmax" => child("cbAdf", scores).filter(|t| *t == scores).map(|_| (L::Cb, true, P::Probs)),
        "CbExploreAdfSquareCb" => {
            if c["cbAdf"]["typename"] == "CbAdf" && c["cbAdf"]["config"]["cbType"] == "ips" {
                return None;
            }
            child("cbAdf", scores).filter(|t| *t == scores).map(|_| (L::Cb, true, P::Probs))
        }
        "Debug" => {
            if c["next"].is_null() {
                None
            } else {
                typed(&c["next"])
            }
        }
        _ => None,
    }
}
fn kind(t: Ty) -> Kind {
    match t.2 {
        P::Scalar => Kind::Scalar,
        P::Binary => Kind::Binary,
        P::Scores => Kind::Scores,
        P::Probs => Kind::Probs,
    }
}

fn create(cfg: &Value) -> Result<Result<Workspace, String>, String> {
    guarded(|| {
        let c: Result<Configuration, _> = cfg.clone().try_into();
        c.and_then(Workspace::new).map_err(|e| e.to_string())
    })
}
fn create_text(text: &str, yaml: bool) -> Result<Result<Workspace, String>, String> {
    guarded(|| {
        let c = if yaml { Configuration::from_yaml_str(text) } else { Configuration::from_json_str(text) };
        c.and_then(Workspace::new).map_err(|e| e.to_string())
    })
}

/// Learn and predict the whole alphabet; the transcript of predictions and the final model.
fn exercise(w: &mut Workspace, k: Kind) -> Result<(Vec<PV>, Vec<u8>), String> {
    let bits = w.global_config().num_bits();
    let seed = w.global_config().hash_seed();
    let mut out = vec![];
    for (e, s) in specs(k).iter().enumerate() {
        let mut f = example(k, s, seed, bits);
        let l1 = lab_for(k, &f, e % nlabels(k));
        let l2 = lab_for(k, &f, (e + 1) % nlabels(k));
        guarded(|| {
            out.push(pv(&w.predict(&mut f)));
            w.learn(&mut f, &l1);
            out.push(pv(&w.predict_then_learn(&mut f, &l2)));
            out.push(pv(&w.predict(&mut f)));
        })
        .map_err(|m| format!("accepted, but on {s:?} {m}"))?;
    }
    for p in &out {
        ensure!(kind_of(p) == k, "accepted as {k:?}, but predicts {p:?}");
    }
    Ok((out, bytes(w)?))
}

fn same(a: &mut Workspace, b: &mut Workspace, k: Kind) -> Result<(), String> {
    ensure!(bytes(a)? == bytes(b)?, "the workspaces differ from the start");
    ensure!(exercise(a, k)? == exercise(b, k)?, "the workspaces differ after learning");
    Ok(())
}

/// One chain element; the layer below goes into its child slot.
const NODES: &[(&str, &str)] = &[
    ("Coin", ""),
    ("Binary", "regressor"),
    ("ElementwiseInteraction", "regressor"),
    ("CbAdf", "regressor"),
    ("CbAdf/ips", "regressor"),
    ("CbExploreAdfGreedy", "cbAdf"),
    ("CbExploreAdfSoftmax", "cbAdf"),
    ("CbExploreAdfSquareCb", "cbAdf"),
    ("Debug", "next"),
    ("Nonsense", "next"),
];

fn opts(t: &str) -> Map<String, Value> {
    let mut m = Map::new();
    if t == "CbAdf/ips" {
        m.insert("cbType".into(), json!("ips"));
    }
    if t == "ElementwiseInteraction" {
        m.insert("one".into(), json!({"Name": "a"}));
        m.insert("two".into(), json!({"Name": "b"}));
    }
    m
}
fn tname(t: &str) -> &str {
    t.split('/').next().unwrap()
}

fn to_yaml(v: &Value, flow: bool) -> String {
    if flow {
        // JSON is YAML
        v.to_string()
    } else {
        serde_yaml::to_string(v).unwrap()
    }
}

pub fn c20(ctx: &Ctx) {
    let depth = ctx.b(5, 6);
    ctx.bound(format!(
        "every chain of 1 to {depth} layers over {:?}, the lowest with its default child or none; accepted ones learn and predict the whole example alphabet, and once more from block and flow YAML text",
        NODES.iter().map(|n| n.0).collect::<Vec<_>>()
    ));
    ctx.explore("trees", |c, t| {
        let n = 1 + c.choose(depth);
        // built from the top; a Coin ends the chain
        let mut names = vec![];
        for _ in 0..n {
            let (name, slot) = *c.of(NODES);
            names.push((name, slot));
            if slot.is_empty() {
                break;
            }
        }
        if names.len() < n {
            return Ok(()); // the shorter chain is a path of its own
        }
        let mut v = Value::Null;
        for (i, (name, slot)) in names.iter().enumerate().rev() {
            let mut o = opts(name);
            if !v.is_null() {
                o.insert(slot.to_string(), v.clone());
            }
            v = if o.is_empty() && i == names.len() - 1 && c.flag() {
                json!({"typename": tname(name)})
            } else {
                json!({"typename": tname(name), "config": o})
            };
        }
        if names.last().unwrap().0 == "Debug" {
            t.note("a Debug layer with nothing below has no documented meaning; left out");
            return Ok(());
        }
        let cfg = json!({"globalConfig": {"numBits": 5, "hashSeed": 7, "interactions": [[{"Name": "a"}, "Default"]]}, "entryReduction": v});
        let want = typed(&v);
        let got = create(&cfg).map_err(|e| format!("{v}: {e}"))?;
        t.eval();
        t.distinct(&v.to_string());
        t.sample(|| format!("{v}: {want:?}"));
        match (want, got) {
            (None, Err(_)) => Ok(()),
            (None, Ok(_)) => Err(format!("{v}: accepted, but it is ill-typed")),
            (Some(ty), Err(e)) => Err(format!("{v}: well-typed as {ty:?}, but refused: {e}")),
            (Some(ty), Ok(mut w)) => {
                let a = exercise(&mut w, kind(ty)).map_err(|e| format!("{v}: {e}"))?;
                for (text, yaml) in [(to_yaml(&cfg, false), true), (to_yaml(&cfg, true), true), (cfg.to_string(), false)] {
                    let mut w2 = create_text(&text, yaml)
                        .map_err(|e| format!("{v}: from text, {e}"))?
                        .map_err(|e| format!("{v}: accepted, but refused as text (yaml: {yaml}): {e}"))?;
                    let b = exercise(&mut w2, kind(ty)).map_err(|e| format!("{v}: {e}"))?;
                    ensure!(a == b, "{v}: behaves otherwise when read from text (yaml: {yaml})");
                }
                t.state(&a.1);
                t.step();
                Ok(())
            }
        }
    });

    // (layer, option, value, valid, documented default)
    let j = |x: &str| serde_json::from_str::<Value>(x).unwrap();
    let num_bad = ["\"1\"", "true", "[]", "{}", "null"];
    let mut cases: Vec<(&str, &str, Value, bool)> = vec![];
    let mut add = |l: &'static str, o: &'static str, good: &[&str], bad: &[&str]| {
        good.iter().for_each(|g| cases.push((l, o, j(g), true)));
        bad.iter().for_each(|g| cases.push((l, o, j(g), false)));
    };
    for o in ["alpha", "beta"] {
        add("Coin", o, &["1", "4", "0.5", "1e-3", "100"], &num_bad);
    }
    for o in ["l1Lambda", "l2Lambda"] {
        add("Coin", o, &["0", "0.5"], &num_bad);
    }
    add("Coin", "lossFunction", &["{\"Squared\": {}}", "{\"Logistic\": {}}"], &["\"squared\"", "{}", "1", "{\"Hinge\": {}}", "null", "{\"Squared\": {}, \"Logistic\": {}}"]);
    add("Coin", "linkFunction", &["\"Identity\"", "\"Logistic\""], &["\"identity\"", "\"\"", "1", "null", "\"Probit\""]);
    add("Binary", "regressor", &["{\"typename\": \"Coin\"}", "{\"typename\": \"Coin\", \"config\": null}", "{\"typename\": \"Coin\", \"config\": {\"alpha\": 2}}"], &["null", "{}", "\"Coin\"", "{\"typename\": \"coin\"}", "{\"typename\": \"\"}", "{\"typename\": 3}", "{\"typename\": \"Coin\", \"config\": 3}", "{\"typename\": \"Coin\", \"config\": {\"alhpa\": 2}}", "{\"config\": {}}", "{\"typename\": \"CbAdf\"}"]);
    add("CbAdf", "cbType", &["\"ips\"", "\"mtr\""], &["\"dr\"", "\"MTR\"", "1", "null"]);
    add("CbAdf", "regressor", &["{\"typename\": \"Coin\"}", "{\"typename\": \"ElementwiseInteraction\"}"], &["null", "{}", "{\"typename\": \"Binary\"}", "{\"typename\": \"CbAdf\"}"]);
    let probs_bad = ["-0.1", "1.001", "2", "-1", "1e9", "\"0.1\"", "null", "[0.1]"];
    let probs = ["0", "0.05", "0.5", "1", "1e-6"];
    add("CbExploreAdfGreedy", "epsilon", &probs, &probs_bad);
    add("CbExploreAdfSoftmax", "uniformEpsilon", &probs, &probs_bad);
    add("CbExploreAdfSquareCb", "uniformEpsilon", &probs, &probs_bad);
    add("CbExploreAdfSoftmax", "lambda", &["0", "1", "0.25", "10"], &num_bad);
    add("CbExploreAdfSquareCb", "gammaScale", &["0", "1", "0.25", "1000"], &num_bad);
    add("CbExploreAdfSquareCb", "gammaExponent", &["0", "1", "0.25"], &num_bad);
    for l in ["CbExploreAdfGreedy", "CbExploreAdfSoftmax"] {
        add(l, "cbAdf", &["{\"typename\": \"CbAdf\"}", "{\"typename\": \"CbAdf\", \"config\": {\"cbType\": \"ips\"}}"], &["null", "{}", "{\"typename\": \"Coin\"}"]);
    }
    add("CbExploreAdfSquareCb", "cbAdf", &["{\"typename\": \"CbAdf\"}", "{\"typename\": \"CbAdf\", \"config\": {\"cbType\": \"mtr\"}}"], &["{\"typename\": \"CbAdf\", \"config\": {\"cbType\": \"ips\"}}", "null", "{}", "{\"typename\": \"Coin\"}"]);
    for o in ["one", "two"] {
        add("ElementwiseInteraction", o, &["\"Default\"", "{\"Name\": \"a\"}", "{\"Name\": \"\"}", "{\"Name\": \"\u{e9} x\"}"], &["\"default\"", "\"a\"", "{\"name\": \"a\"}", "{}", "1", "null"]);
    }
    add("ElementwiseInteraction", "keepOriginalFeatures", &["true", "false"], &["1", "\"true\"", "null"]);
    for o in ["prediction", "label", "features"] {
        add("Debug", o, &["false"], &["1", "\"true\"", "null"]);
    }
    add("Debug", "id", &["\"\"", "\"x\""], &["1", "null"]);
    add("Debug", "indent", &["0", "1"], &["-1", "1.5", "\"1\"", "null"]);
    // global options, under the pseudo layer ""
    add("", "numBits", &["1", "2", "5", "12", "18", "20"], &["32", "33", "40", "63", "64", "128", "255", "256", "-1", "1.5", "\"18\"", "null"]);
    add("", "hashSeed", &["0", "1", "4294967295"], &["4294967296", "-1", "0.5", "\"0\"", "null"]);
    add("", "constantFeatureEnabled", &["true", "false"], &["0", "\"yes\"", "null"]);
    add(
        "",
        "interactions",
        &[
            "[]", "[[\"Default\",\"Default\"]]", "[[{\"Name\":\"a\"},{\"Name\":\"b\"}]]", "[[{\"Name\":\"a\"},{\"Name\":\"b\"},\"Default\"]]",
            "[[{\"Name\":\"a\"},{\"Name\":\"a\"},{\"Name\":\"a\"}],[{\"Name\":\"b\"},{\"Name\":\"b\"}]]", "[[{\"Name\":\"a\"},{\"Name\":\"b\"}],[{\"Name\":\"a\"},{\"Name\":\"b\"}]]",
        ],
        &[
            "[[]]", "[[\"Default\"]]", "[[{\"Name\":\"a\"}]]", "[[\"Default\",\"Default\",\"Default\",\"Default\"]]", "[[\"Default\",\"Default\"],[]]", "[[\"a\",\"b\"]]", "[\"ab\"]", "null",
            "[[\"Default\",\"Default\",\"Default\",\"Default\",\"Default\"],[\"Default\",\"Default\"]]", "{}", "[[{\"Name\":1},\"Default\"]]", "[[\"Default\",\"Default\"],[\"Default\",\"Default\",\"Default\"],[\"Default\"]]",
        ],
    );
    for l in ["Coin", "Binary", "CbAdf", "CbExploreAdfGreedy", "CbExploreAdfSoftmax", "CbExploreAdfSquareCb", "ElementwiseInteraction", "Debug", ""] {
        add(l, "unheardOf", &[], &["1", "null", "{}"]);
    }
    add("Coin", "loss_function", &[], &["{\"Squared\": {}}"]);
    add("Coin", "Alpha", &[], &["1"]);
    add("", "num_bits", &[], &["18"]);
    // a stack around the layer under test: (layers above)
    let above: &[&[&str]] = &[&[], &["Debug"], &["wrap"]];
    ctx.bound(format!("{} option values of all layers and the global configuration, valid and invalid, at the top, below a Debug layer and below another layer; all pairs of options of the same layer{}", cases.len(), if ctx.quick() { "" } else { ", and all pairs with a global option" }));
    let build = |l: &str, o: &[(&str, &Value)], wrap: &[&str]| -> Value {
        let mut v = match l {
            "" => json!({"typename": "Coin"}),
            "Debug" => json!({"typename": "Debug", "config": {"next": {"typename": "Coin"}}}),
            "ElementwiseInteraction" => json!({"typename": l, "config": {"one": {"Name": "a"}, "two": {"Name": "b"}}}),
            _ => json!({"typename": l, "config": {}}),
        };
        if !l.is_empty() {
            for (k, x) in o {
                v["config"][*k] = (*x).clone();
            }
        }
        for w in wrap {
            v = match (*w, l) {
                ("Debug", _) => json!({"typename": "Debug", "config": {"next": v}}),
                (_, "CbAdf") => json!({"typename": "CbExploreAdfSoftmax", "config": {"cbAdf": v}}),
                (_, "Coin") | (_, "ElementwiseInteraction") => json!({"typename": "Binary", "config": {"regressor": v}}),
                (_, "Debug") => json!({"typename": "CbAdf", "config": {"regressor": v}}),
                (_, _) => json!({"typename": "Debug", "config": {"next": {"typename": "Debug", "config": {"next": v}}}}),
            };
        }
        v
    };
    ctx.explore("options", |c, t| {
        let a = c.of(&cases).clone();
        let second: Vec<&(&str, &str, Value, bool)> = cases.iter().filter(|x| (x.0 == a.0 && x.1 > a.1) || (!ctx.quick() && x.0.is_empty() && !a.0.is_empty())).collect();
        let b = match c.choose(second.len() + 1) {
            0 => None,
            k => Some(second[k - 1].clone()),
        };
        let wrap = *c.of(above);
        let mut layer: Vec<(&str, &Value)> = vec![];
        let mut g = json!({"numBits": 5});
        for x in std::iter::once(&a).chain(b.iter()) {
            if x.0.is_empty() {
                g[x.1] = x.2.clone();
            } else {
                layer.push((x.1, &x.2));
            }
        }
        let v = build(a.0, &layer, wrap);
        let cfg = json!({"globalConfig": g, "entryReduction": v});
        let valid = a.3 && b.as_ref().map(|x| x.3).unwrap_or(true);
        let want = if valid { typed(&v) } else { None };
        let got = create(&cfg).map_err(|e| format!("{cfg}: {e}"))?;
        t.eval();
        t.distinct(&cfg.to_string());
        match (want, got) {
            (None, Err(_)) => {
                for (text, yaml) in [(to_yaml(&cfg, false), true), (cfg.to_string(), false)] {
                    let r = create_text(&text, yaml).map_err(|e| format!("{cfg}: from text, {e}"))?;
                    ensure!(r.is_err(), "{cfg}: refused, but accepted as text (yaml: {yaml})");
                }
                Ok(())
            }
            (None, Ok(_)) => Err(format!("{cfg}: accepted, though invalid")),
            (Some(ty), Err(e)) => Err(format!("{cfg}: valid, of type {ty:?}, but refused: {e}")),
            (Some(ty), Ok(mut w)) => {
                if b.is_some() && wrap.len() > 1 {
                    return Ok(());
                }
                let mut w2 = create_text(&to_yaml(&cfg, false), true).map_err(|e| format!("{cfg}: from text, {e}"))?.map_err(|e| format!("{cfg}: accepted, but refused as YAML: {e}"))?;
                same(&mut w, &mut w2, kind(ty)).map_err(|e| format!("{cfg} as JSON and YAML: {e}"))?;
                t.step();
                Ok(())
            }
        }
    });

    // Every subset of options left out, against the documented defaults spelled out.
    let coin_d = json!({"alpha": 4.0, "beta": 1.0, "l1Lambda": 0.0, "l2Lambda": 0.0, "lossFunction": {"Squared": {}}, "linkFunction": "Identity"});
    let coin_n = json!({"typename": "Coin", "config": coin_d});
    let cb_n = json!({"typename": "CbAdf", "config": {"cbType": "mtr", "regressor": coin_n}});
    let defaults: Vec<(&str, Value)> = vec![
        ("Coin", coin_d.clone()),
        ("Binary", json!({"regressor": coin_n})),
        ("ElementwiseInteraction", json!({"one": "Default", "two": "Default", "keepOriginalFeatures": false, "regressor": coin_n})),
        ("CbAdf", json!({"cbType": "mtr", "regressor": coin_n})),
        ("CbExploreAdfGreedy", json!({"epsilon": 0.05, "cbAdf": cb_n})),
        ("CbExploreAdfSoftmax", json!({"lambda": 1.0, "uniformEpsilon": 0.0, "cbAdf": cb_n})),
        ("CbExploreAdfSquareCb", json!({"gammaScale": 10.0, "gammaExponent": 0.5, "uniformEpsilon": 0.0, "cbAdf": cb_n})),
        ("Debug", json!({"id": "", "prediction": false, "label": false, "features": false, "indent": 0})),
        ("", json!({"numBits": 18, "hashSeed": 0, "constantFeatureEnabled": true, "interactions": []})),
    ];
    ctx.bound("for every layer and the global configuration every subset of its options left out, compared bit by bit with the documented defaults spelled out, over a learning history");
    ctx.explore("defaults", |c, t| {
        let (l, d) = c.of(&defaults);
        let o = d.as_object().unwrap();
        let left: Map<String, Value> = o.iter().filter(|_| c.flag()).map(|(k, v)| (k.clone(), v.clone())).collect();
        let whole = left.is_empty() && *l != "Debug" && c.flag();
        let node = |m: &Map<String, Value>| {
            let mut m = m.clone();
            if *l == "Debug" {
                m.insert("next".into(), coin_n.clone());
            }
            if l.is_empty() {
                json!({"typename": "Coin"})
            } else {
                json!({"typename": l, "config": m})
            }
        };
        let g = |m: &Map<String, Value>| if l.is_empty() { Value::Object(m.clone()) } else { json!({"numBits": 5}) };
        let full = json!({"globalConfig": g(o), "entryReduction": node(o)});
        let mut part = json!({"globalConfig": g(&left), "entryReduction": node(&left)});
        if whole && !l.is_empty() {
            part["entryReduction"].as_object_mut().unwrap().remove("config");
        }
        if whole && l.is_empty() {
            part["$schema"] = json!("https://example.org/schema.json");
        }
        let at = |e: String| format!("{part}: {e}");
        let ty = typed(&full["entryReduction"]).unwrap();
        let mut a = create(&full).map_err(at)?.map_err(|e| at(format!("the defaults spelled out are refused: {e}")))?;
        let mut b = create(&part).map_err(at)?.map_err(|e| at(format!("refused: {e}")))?;
        if l.is_empty() {
            ensure!(serde_json::to_value(b.global_config()).unwrap() == *d, "{}", at("global defaults differ".into()));
        }
        same(&mut a, &mut b, kind(ty)).map_err(at)?;
        t.eval();
        t.step();
        t.distinct(&part.to_string());
        Ok(())
    });

    // Documents that are no configuration at all.
    let docs = ["", " ", "{", "null", "[]", "1", "\"x\"", "{}", "{\"globalConfig\": {}}", "{\"entryReduction\": {\"typename\": \"Coin\"}}", "a: b: c", "- x", ":", "{\"globalConfig\": {}, \"entryReduction\": \"Coin\"}", "globalConfig: {}\nentryReduction:\n  typename: Coin\nextra: 1", "{\"globalConfig\": {}, \"entryReduction\": {\"typename\": \"Coin\"}, \"extra\": 1}", "globalConfig:\n  numBits: 3\n  numBits: 4\nentryReduction:\n  typename: Coin\n", "*x", "&a [*a]", "!tag {}", "%YAML", "\u{0}", "\t- x"];
    ctx.bound(format!("{} documents that are no configuration, as YAML and JSON, and every prefix of a configuration text", docs.len()));
    let longest = ctx.b(40, 300);
    ctx.bound(format!("lists of up to {longest} interactions, one of them of 0, 1 or 4 namespaces, or none, at the front, in the middle or last"));
    ctx.explore("long-interactions", |c, t| {
        let n = 1 + c.choose(longest);
        let bad = c.choose(4);
        let at = *c.of(&[0, n / 2, n - 1]);
        let mut v: Vec<Value> = (0..n).map(|i| if i % 3 == 2 { json!([{"Name": "a"}, "Default", {"Name": "b"}]) } else { json!([{"Name": "a"}, {"Name": format!("n{i}")}]) }).collect();
        match bad {
            0 => {}
            1 => v[at] = json!([]),
            2 => v[at] = json!(["Default"]),
            _ => v[at] = json!(["Default", "Default", {"Name": "a"}, "Default"]),
        }
        let cfg = json!({"globalConfig": {"numBits": 3, "interactions": v}, "entryReduction": {"typename": "Coin"}});
        let r = create(&cfg).map_err(|e| format!("{n} interactions, the {at}th of kind {bad}: {e}"))?;
        ensure!(r.is_ok() == (bad == 0), "{n} interactions, the {at}th of kind {bad} (0: all valid): accepted: {}", r.is_ok());
        t.eval();
        t.distinct(&(n, bad, at));
        Ok(())
    });
    let good = "globalConfig:\n  numBits: 3\n  interactions: [[Default, {Name: a}]]\nentryReduction:\n  typename: CbExploreAdfGreedy\n  config:\n    cbAdf:\n      typename: CbAdf\n      config: {cbType: ips}\n";
    let goodj = json!({"globalConfig": {"numBits": 3}, "entryReduction": {"typename": "Binary", "config": {"regressor": {"typename": "Coin"}}}}).to_string();
    ctx.explore("not-configurations", |c, t| {
        match c.choose(3) {
            0 => {
                let d = *c.of(&docs);
                let yaml = c.flag();
                let r = create_text(d, yaml).map_err(|e| format!("{d:?} (yaml: {yaml}): {e}"))?;
                ensure!(r.is_err(), "{d:?} accepted as a configuration (yaml: {yaml})");
            }
            1 => {
                let cut = c.choose(good.len() + 1);
                let r = create_text(&good[..cut], true).map_err(|e| format!("{:?}: {e}", &good[..cut]))?;
                ensure!(cut < good.len() || r.is_ok(), "{good:?} refused");
            }
            _ => {
                let cut = c.choose(goodj.len() + 1);
                let r = create_text(&goodj[..cut], false).map_err(|e| format!("{:?}: {e}", &goodj[..cut]))?;
                ensure!(r.is_ok() == (cut == goodj.len()), "{:?}: accepted: {}", &goodj[..cut], r.is_ok());
            }
        }
        t.eval();
        Ok(())
    });
}
