//! `mc ORACLE`: a line server that runs the core library directly, for the Python and command line engines to
//! compare with. Each line holds a JSON array of operations, each answer a JSON array of results. Features never
//! come from a pool that was used before, and predicting and learning are separate calls.
use crate::common::*;
use crate::model::*;
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::sparse_namespaced_features::SparseFeatures;
use reductionml_core::workspace::{Configuration, Workspace};
use reductionml_core::{CBLabel, Features, FeaturesType, Label, Prediction, SimpleLabel};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::sync::Arc;

struct P {
    fmt: Fmt,
    cb: bool,
    seed: u32,
    bits: u8,
}

#[derive(Default)]
struct S {
    ws: BTreeMap<u64, Workspace>,
    ps: BTreeMap<u64, P>,
    fs: BTreeMap<u64, Features<'static>>,
    ls: BTreeMap<u64, Option<Label>>,
    saved: BTreeMap<u64, Vec<u8>>,
    js: BTreeMap<u64, Value>,
    pools: BTreeMap<u64, Arc<Pool<SparseFeatures>>>,
    kept: BTreeMap<(u64, u64), AnyParser>, // one parser for each parser number and pool
}

fn fmt(s: &str) -> Fmt {
    match s {
        "vw" => Fmt::Vw,
        "json" => Fmt::Json,
        _ => Fmt::Ds,
    }
}

fn f(x: f32) -> Value {
    if x.is_finite() {
        json!(x as f64)
    } else {
        json!(format!("{x}").to_lowercase())
    }
}

fn pred(p: &Prediction) -> Value {
    match p {
        Prediction::Scalar(s) => json!({"Scalar": [f(s.prediction), f(s.raw_prediction)]}),
        Prediction::ActionScores(a) => json!({"ActionScores": a.0.iter().map(|(i, v)| json!([i, f(*v)])).collect::<Vec<_>>()}),
        Prediction::ActionProbs(a) => json!({"ActionProbs": a.0.iter().map(|(i, v)| json!([i, f(*v)])).collect::<Vec<_>>()}),
        Prediction::Binary(b) => json!({ "Binary": b }),
    }
}

fn lab(l: &Option<Label>) -> Value {
    match l {
        None => Value::Null,
        Some(Label::Simple(s)) => json!({"Simple": [f(s.value()), f(s.weight())]}),
        Some(Label::CB(c)) => json!({"CB": [c.action(), f(c.cost()), f(c.probability())]}),
        Some(Label::Binary(b)) => json!({ "Binary": b }),
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn num(o: &Value, k: &str) -> f32 {
    match &o[k] {
        Value::String(s) => s.parse().unwrap(),
        v => v.as_f64().unwrap() as f32,
    }
}

impl S {
    fn run(&mut self, o: &Value) -> Result<Value, String> {
        let n = |k: &str| o[k].as_u64().unwrap_or(0);
        let e = |x: reductionml_core::error::Error| x.to_string();
        match o["op"].as_str().unwrap() {
            "reset" => {
                *self = S::default();
                Ok(Value::Null)
            }
            "new" => {
                let text = match &o["config"] {
                    Value::String(s) => s.clone(),
                    v => v.to_string(),
                };
                let w = guarded(|| Workspace::new(Configuration::from_json_str(&text).map_err(|x| x.to_string())?).map_err(e))??;
                self.ws.insert(n("w"), w);
                Ok(Value::Null)
            }
            "load" => {
                let d = match o["hex"].as_str() {
                    Some(h) => unhex(h),
                    None => self.saved[&n("s")].clone(),
                };
                let w = guarded(|| Workspace::create_from_model(&d).map_err(e))??;
                self.ws.insert(n("w"), w);
                Ok(Value::Null)
            }
            "load_json" => {
                let d = match o.get("json") {
                    Some(h) => h.clone(),
                    None => self.js[&n("s")].clone(),
                };
                let w = guarded(|| Workspace::deserialize_from_json(&d).map_err(e))??;
                self.ws.insert(n("w"), w);
                Ok(Value::Null)
            }
            "save" => {
                let w = &self.ws[&n("w")];
                let d = guarded(|| w.serialize_model().map_err(e))??;
                let r = json!(hex(&d));
                self.saved.insert(n("s"), d);
                Ok(r)
            }
            "save_json" => {
                let w = &self.ws[&n("w")];
                let d = guarded(|| w.serialize_to_json().map_err(e))??;
                self.js.insert(n("s"), d.clone());
                Ok(d)
            }
            "parser" => {
                let w = &self.ws[&n("w")];
                let cb = w.get_entry_reduction().types().input_features_type() == FeaturesType::SparseCBAdf;
                let p = P { fmt: fmt(o["format"].as_str().unwrap()), cb, seed: w.global_config().hash_seed(), bits: w.global_config().num_bits() };
                self.ps.insert(n("p"), p);
                Ok(Value::Null)
            }
            "parser_of" => {
                let p = P {
                    fmt: fmt(o["format"].as_str().unwrap()),
                    cb: o["cb"].as_bool().unwrap(),
                    seed: n("seed") as u32,
                    bits: n("bits") as u8,
                };
                self.ps.insert(n("p"), p);
                Ok(Value::Null)
            }
            "parse" => {
                let p = &self.ps[&n("p")];
                let text = o["text"].as_str().unwrap();
                let new = |pool| AnyParser::new(p.fmt, p.cb, p.seed, p.bits, pool);
                let fresh;
                let ap = match o["pool"].as_u64() {
                    Some(k) => {
                        let pool = self.pools.entry(k).or_insert_with(|| Arc::new(Pool::new())).clone();
                        &*self.kept.entry((n("p"), k)).or_insert_with(|| new(pool))
                    }
                    None => {
                        fresh = new(Arc::new(Pool::new()));
                        &fresh
                    }
                };
                let (fs, l) = guarded(|| ap.p().parse(text))??;
                let r = lab(&l);
                self.fs.insert(n("f"), fs);
                self.ls.insert(n("f"), l);
                Ok(r)
            }
            // the lines a file is cut into
            "chunks" => {
                let p = &self.ps[&n("p")];
                let ap = AnyParser::new(p.fmt, p.cb, p.seed, p.bits, Arc::new(Pool::new()));
                Ok(json!(guarded(|| chunks(&ap, o["text"].as_str().unwrap()))??))
            }
            "simple" => {
                let l = Some(Label::Simple(SimpleLabel::new(num(o, "value"), num(o, "weight"))));
                let r = lab(&l);
                self.ls.insert(n("f"), l);
                Ok(r)
            }
            "cb" => {
                let l = Some(Label::CB(CBLabel::new(n("action") as usize, num(o, "cost"), num(o, "prob"))));
                let r = lab(&l);
                self.ls.insert(n("f"), l);
                Ok(r)
            }
            "predict" => {
                let w = self.ws.get_mut(&n("w")).unwrap();
                let fs = self.fs.get_mut(&n("f")).unwrap();
                let p = guarded(|| w.predict(fs))?;
                Ok(pred(&p))
            }
            "learn" => {
                let w = self.ws.get_mut(&n("w")).unwrap();
                let fs = self.fs.get_mut(&n("f")).unwrap();
                let l = self.ls[&n("l")].as_ref().ok_or("no label")?;
                guarded(|| w.learn(fs, l))?;
                Ok(Value::Null)
            }
            "recycle" => {
                let pool = &self.pools[&n("pool")];
                if let Some(f) = self.fs.remove(&n("f")) {
                    f.clear_and_return_object(pool);
                }
                Ok(Value::Null)
            }
            "drop" => {
                self.fs.remove(&n("f"));
                Ok(Value::Null)
            }
            "empty" => {
                let fs: Features = if o["cb"].as_bool().unwrap() {
                    reductionml_core::CBAdfFeatures::default().into()
                } else {
                    SparseFeatures::new().into()
                };
                self.fs.insert(n("f"), fs);
                self.ls.entry(n("f")).or_insert(None);
                Ok(Value::Null)
            }
            "types" => {
                let t = self.ws[&n("w")].get_entry_reduction().types().clone();
                Ok(json!([
                    format!("{:?}", t.input_label_type()),
                    format!("{:?}", t.output_prediction_type()),
                    format!("{:?}", t.input_features_type()),
                    t.output_label_type().map(|x| format!("{x:?}")),
                    t.input_prediction_type().map(|x| format!("{x:?}")),
                    t.output_features_type().map(|x| format!("{x:?}")),
                ]))
            }
            // features as the numbers the metrics are defined over
            "count" => {
                let c = match &self.fs[&n("f")] {
                    Features::SparseSimple(s) => s.all_features().count(),
                    Features::SparseCBAdf(s) => {
                        s.shared.as_ref().map_or(0, |x| x.all_features().count())
                            + s.actions.iter().map(|x| x.all_features().count()).sum::<usize>()
                    }
                    _ => 0,
                };
                Ok(json!(c))
            }
            x => panic!("unknown operation {x}"),
        }
    }
}

pub fn serve() {
    let mut s = S::default();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let ops: Vec<Value> = serde_json::from_str(&line).unwrap();
        let res: Vec<Value> = ops
            .iter()
            .map(|o| match s.run(o) {
                Ok(v) => json!({ "ok": v }),
                Err(x) => json!({ "err": x }),
            })
            .collect();
        serde_json::to_writer(&mut out, &res).unwrap();
        writeln!(out).unwrap();
        out.flush().unwrap();
    }
}
