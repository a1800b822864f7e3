//! C19: truncated and corrupted models.
use crate::common::*;
use crate::ensure;
use crate::stacks::*;
use reductionml_core::workspace::Workspace;
use serde_json::{json, Value};

fn load(b: &[u8]) -> Result<Result<Workspace, String>, String> {
    guarded(|| Workspace::create_from_model(b).map_err(|e| e.to_string()))
}

struct Saved {
    name: String,
    bytes: Vec<u8>,
    json: Value,
}

/// Models of every stack, fresh and after some learning.
fn models(level: usize, bits: &[u8], learned: &[usize]) -> Vec<Saved> {
    let mut out = vec![];
    for s in stacks(level) {
        for b in bits {
            for inter in [&[][..], &["ab", "aab"][..]] {
                for n in learned {
                    let mut w = ws(&global(*b, 3, true, inter), &s.entry);
                    let sp = specs(s.kind);
                    for k in 0..*n {
                        let mut f = example(s.kind, sp[k % sp.len()], 3, *b);
                        let lab = lab_for(s.kind, &f, k % nlabels(s.kind));
                        w.learn(&mut f, &lab);
                    }
                    out.push(Saved {
                        name: format!("{} bits {b} interactions {inter:?} after {n} examples", s.name),
                        bytes: bytes(&w).unwrap(),
                        json: w.serialize_to_json().unwrap(),
                    });
                }
            }
        }
    }
    out
}

#[derive(Clone, Debug)]
enum Seg {
    Key(String),
    Idx(usize),
}
fn paths(v: &Value, at: &mut Vec<Seg>, out: &mut Vec<Vec<Seg>>) {
    out.push(at.clone());
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(Seg::Key(k.clone()));
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(Seg::Idx(i));
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn at_mut<'a>(v: &'a mut Value, p: &[Seg]) -> &'a mut Value {
    p.iter().fold(v, |v, s| match s {
        Seg::Key(k) => &mut v[k.as_str()],
        Seg::Idx(i) => &mut v[*i],
    })
}

pub fn c19(ctx: &Ctx) {
    let level = ctx.b(0, 1);
    let ms = models(level, if ctx.quick() { &[3] } else { &[1, 4] }, if ctx.quick() { &[0, 3] } else { &[0, 1, 5] });
    ctx.bound(format!("{} saved models (every stack x interactions x learned examples), every proper prefix of each", ms.len()));
    ctx.explore("prefixes", |c, t| {
        let m = c.of(&ms);
        ensure!(load(&m.bytes).map(|r| r.is_ok()) == Ok(true), "harness: the complete model does not load");
        let cut = c.choose(m.bytes.len());
        let r = load(&m.bytes[..cut]).map_err(|e| format!("{}: loading the first {cut} of {} bytes {e}", m.name, m.bytes.len()))?;
        if let Ok(w) = r {
            let same = bytes(&w).map(|b| b == m.bytes);
            return Err(format!("{}: the first {cut} of {} bytes load as a workspace (same model: {same:?})", m.name, m.bytes.len()));
        }
        t.eval();
        t.step();
        t.distinct(&m.bytes[..cut]);
        t.sample(|| format!("{}: {cut} of {} bytes", m.name, m.bytes.len()));
        Ok(())
    });

    // Single damaged bytes: never an abort. What loads must save again.
    let few: Vec<&Saved> = ms.iter().step_by(if ctx.quick() { ms.len() / 6 } else { ms.len() / 40 }).collect();
    let vals: Vec<u8> = if ctx.quick() { vec![0, 1, 2, 4, 0x7f, 0x80, 0xff] } else { (0..=255).collect() };
    ctx.bound(format!("{} of the models with every single byte replaced by each of {} values, every byte deleted, every byte duplicated: an error or a workspace, never an abort", few.len(), vals.len()));
    ctx.explore("damaged-bytes", |c, t| {
        let m = c.of(&few);
        let at = c.choose(m.bytes.len());
        let how = c.choose(vals.len() + 2);
        let mut b = m.bytes.clone();
        let what = if how == vals.len() {
            b.remove(at);
            "deleted".to_string()
        } else if how == vals.len() + 1 {
            b.insert(at, b[at]);
            "duplicated".to_string()
        } else {
            b[at] = vals[how];
            format!("set to {}", vals[how])
        };
        let r = load(&b).map_err(|e| format!("{}: byte {at} {what}: loading {e}", m.name))?;
        if b == m.bytes {
            ensure!(r.is_ok(), "{}: unchanged bytes refused", m.name);
            return Ok(());
        }
        if let Ok(w) = r {
            t.note("damaged byte not noticed (no checksum), workspace loaded");
            let again = bytes(&w).map_err(|e| format!("{}: byte {at} {what}: loaded, but {e}", m.name))?;
            let back = load(&again).map_err(|e| format!("{}: byte {at} {what}: loaded and saved, but loading again {e}", m.name))?;
            ensure!(back.is_ok(), "{}: byte {at} {what}: loaded and saved, but refused when loaded again", m.name);
        }
        t.eval();
        t.step();
        t.distinct(&b);
        Ok(())
    });

    // Bytes that are no model.
    let small: Vec<u8> = if ctx.quick() { vec![0, 1, 2, 4, 8, 16, 36, 40, 0x24, 0x28, 0x7b, 0xff] } else { (0..=255).step_by(4).chain([1, 2, 5, 37, 41, 106, 107, 0xff]).collect() };
    let len = ctx.b(4, 3);
    ctx.bound(format!("all byte strings up to 2 bytes, and up to {len} bytes over {} values", small.len()));
    ctx.explore("tiny-files", |c, t| {
        let b: Vec<u8> = if c.flag() {
            let n = c.choose(3);
            (0..n).map(|_| c.choose(256) as u8).collect()
        } else {
            let n = 3 + c.choose(len - 2);
            (0..n).map(|_| *c.of(&small)).collect()
        };
        let r = load(&b).map_err(|e| format!("bytes {b:?}: {e}"))?;
        ensure!(r.is_err(), "bytes {b:?} load as a workspace");
        t.eval();
        t.distinct(&b);
        t.sample(|| format!("{b:?}"));
        Ok(())
    });

    let js: Vec<&Saved> = few.iter().cloned().take(ctx.b(6, 40)).collect();
    let trees: Vec<Vec<Vec<Seg>>> = js
        .iter()
        .map(|m| {
            let mut out = vec![];
            paths(&m.json, &mut vec![], &mut out);
            out
        })
        .collect();
    let subs = [json!(null), json!(false), json!(0), json!(-1), json!(3), json!(1.5), json!(1e300), json!(""), json!("x"), json!([]), json!([[]]), json!([0]), json!({}), json!({"0": 1})];
    ctx.bound(format!("{} models as flexbuffers and JSON with every value of the tree deleted or replaced by each of {} others, or an entry added", js.len(), subs.len()));
    ctx.explore("foreign-values", |c, t| {
        let mi = c.choose(js.len());
        let m = js[mi];
        let pi = c.choose(trees[mi].len());
        let p = &trees[mi][pi];
        let how = c.choose(subs.len() + 2);
        // the same damage in the importer's form and in the binary form
        let mut v = m.json.clone();
        if how == subs.len() {
            if p.is_empty() {
                return Ok(());
            }
            let (up, last) = (&p[..p.len() - 1], &p[p.len() - 1]);
            match (at_mut(&mut v, up), last) {
                (Value::Object(o), Seg::Key(k)) => {
                    o.remove(k);
                }
                (Value::Array(a), Seg::Idx(i)) => {
                    a.remove(*i);
                }
                _ => unreachable!(),
            }
        } else if how == subs.len() + 1 {
            match at_mut(&mut v, p) {
                Value::Object(o) => {
                    let x = o.values().next().cloned().unwrap_or(json!(1));
                    o.insert("99".into(), x);
                }
                Value::Array(a) => {
                    let x = a.first().cloned().unwrap_or(json!(1));
                    a.push(x);
                }
                _ => return Ok(()),
            }
        } else {
            *at_mut(&mut v, p) = subs[how].clone();
        }
        let what = || format!("{}: value at {:?} {}", m.name, p, if how >= subs.len() { "deleted or extended".to_string() } else { format!("replaced by {}", subs[how]) });
        let r = guarded(|| Workspace::deserialize_from_json(&v).map_err(|e| e.to_string())).map_err(|e| format!("{}: importing {e}", what()))?;
        if p.is_empty() && how < subs.len() {
            ensure!(r.is_err(), "{}: imported", what());
        }
        // a document of the wrong kind, in the binary container
        let mut s = flexbuffers::FlexbufferSerializer::new();
        serde::Serialize::serialize(&v, &mut s).unwrap();
        let r2 = load(s.view()).map_err(|e| format!("{}: loading {e}", what()))?;
        // the exported form spells weights differently, so a document in it is no saved model
        ensure!(r2.is_err(), "{}: the exported form loads as a saved model", what());
        t.eval();
        t.step();
        t.distinct(&v.to_string());
        Ok(())
    });
}
