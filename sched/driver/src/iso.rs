//! C30: threads that each create, train and query a workspace of their own, sharing an object pool.
use super::{watchdog, Tally};
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::parsers::{DsJsonParserFactory, JsonParserFactory, TextModeParser, TextModeParserFactory, VwTextParserFactory};
use reductionml_core::sparse_namespaced_features::SparseFeatures;
use reductionml_core::workspace::{Configuration, Workspace};
use sched_rt as rt;
use serde_json::{json, Value};
use shim_std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;
use std::time::{Duration, Instant};

const COIN: &str = r#"{"globalConfig":{"numBits":BITS,"hashSeed":SEED},"entryReduction":{"typename":"Coin","config":{}}}"#;
const NESTED: &str = r#"{"globalConfig":{"numBits":BITS,"hashSeed":SEED,"interactions":[["Default",{"Name":"n"}]]},"entryReduction":{"typename":"ElementwiseInteraction","config":{"one":{"Name":"n"},"two":"Default","regressor":{"typename":"Debug","config":{"next":{"typename":"Coin"}}}}}}"#;
const BANDIT: &str = r#"{"globalConfig":{"numBits":BITS,"hashSeed":SEED},"entryReduction":{"typename":"CbExploreAdfGreedy","config":{"epsilon":0.2}}}"#;
const SQUARE: &str = r#"{"globalConfig":{"numBits":BITS,"hashSeed":SEED},"entryReduction":{"typename":"CbExploreAdfSquareCb","config":{}}}"#;

const JOINED: &str = r#"{"globalConfig":{"numBits":BITS,"hashSeed":SEED,"constantFeatureEnabled":false,"interactions":[[{"Name":"n"},{"Name":"n"}]]},"entryReduction":{"typename":"ElementwiseInteraction","config":{"one":"Default","two":{"Name":"n"},"keepOriginalFeatures":true,"regressor":{"typename":"Coin","config":{"alpha":1.0,"linkFunction":"Logistic"}}}}}"#;

/// configuration, seed, bits, format, lines; no two tasks agree on everything one of them could leave to the other
#[derive(Clone, Copy)]
struct Task(&'static str, u32, u8, u8, &'static [&'static str]);
const VW: &[&str] = &["1 | a:1 b |n c", "-1 |n :1 :2 | a"];
const VW1: &[&str] = &["0.5 |n c d:2"];
const JS: &[&str] = &[r#"{"label":1,"features":{"n":{"a":1,"c":"v"},":default":[1,2]}}"#];
const DS: &[&str] = &[super::CBGOOD[2], super::CBGOOD[3]];
const DS1: &[&str] = &[super::CBSMALL[0]];
fn tasks() -> Vec<(&'static str, Task)> {
    vec![
        ("coin", Task(COIN, 0, 3, 0, VW1)),
        ("coin seeded", Task(COIN, 7, 5, 0, VW1)),
        ("coin two examples", Task(COIN, 3, 2, 0, VW)),
        ("nested", Task(NESTED, 1, 6, 0, VW1)),
        ("joined", Task(JOINED, 0, 4, 0, VW1)),
        ("json", Task(COIN, 0, 4, 1, JS)),
        ("bandit", Task(BANDIT, 0, 5, 2, DS1)),
        ("square", Task(SQUARE, 5, 3, 2, DS1)),
        ("bandit two examples", Task(BANDIT, 9, 7, 2, DS)),
    ]
}

fn work(t: &Task, pool: &Arc<Pool<SparseFeatures>>, again: bool) -> Result<Vec<String>, String> {
    let e = |x: reductionml_core::error::Error| x.to_string();
    let text = t.0.replace("SEED", &t.1.to_string()).replace("BITS", &t.2.to_string());
    let mut w = Workspace::new(Configuration::from_json_str(&text).map_err(e)?).map_err(e)?;
    let ty = w.get_entry_reduction().types().clone();
    let (ft, lt, bits) = (ty.input_features_type(), ty.input_label_type(), w.global_config().num_bits());
    let mut out = vec![];
    let vw = VwTextParserFactory::default().create(ft, lt, t.1, bits, pool.clone());
    let js = JsonParserFactory::default().create(ft, lt, t.1, bits, pool.clone());
    for l in t.4 {
        let (mut f, label) = match t.3 {
            0 => vw.parse_chunk(l),
            1 => js.parse_chunk(l),
            _ => DsJsonParserFactory::default().create(ft, lt, t.1, bits, pool.clone()).parse_chunk(l),
        }
        .map_err(e)?;
        out.push(format!("{:?}", w.predict(&mut f)));
        w.learn(&mut f, label.as_ref().ok_or("no label")?);
        out.push(format!("{:?}", w.predict(&mut f)));
        f.clear_and_return_object(pool);
    }
    let d = w.serialize_model().map_err(e)?;
    if again {
        w = Workspace::create_from_model(&d).map_err(e)?;
    }
    out.push(format!("{:?}", w.serialize_model().map_err(e)?));
    Ok(out)
}

pub fn jobs(only: &Option<(String, Vec<u32>)>, thorough: bool) -> Vec<(Value, Vec<String>)> {
    let mut v = vec![];
    let ts = tasks();
    let mut sets: Vec<Vec<usize>> = vec![];
    for i in 0..ts.len() {
        for j in i..ts.len() {
            if thorough || i < 6 || j < 8 {
                sets.push(vec![i, j]); // the longest bandit programs only when there is time
            }
        }
    }
    sets.push(vec![0, 1, 5]);
    if thorough {
        sets.push(vec![0, 1, 6]);
        sets.push(vec![0, 3, 5]);
        sets.push(vec![1, 4, 5]);
        sets.push(vec![1, 5, 7]);
    }
    for s in sets {
        for again in [false, true] {
            if again && !thorough && s[0] != s[1] {
                continue;
            }
            let name = format!("threads {:?}{}", s.iter().map(|i| ts[*i].0).collect::<Vec<_>>(), if again { ", reloaded" } else { "" });
            let mut schedule = Value::Null;
            if let Some((n, c)) = only {
                if *n != name {
                    continue;
                }
                schedule = json!(c);
            }
            v.push((json!({"kind": "iso", "property": "C30", "name": name, "tasks": s, "again": again, "schedule": schedule}), vec![]));
        }
    }
    v
}

pub fn child(job: &Value) -> Value {
    watchdog(job.clone());
    let ts = tasks();
    let set: Vec<usize> = job["tasks"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let again = job["again"].as_bool().unwrap();
    let deadline = Instant::now() + Duration::from_millis(job["millis"].as_u64().unwrap());
    rt::UNLOCK_POINTS.store(true, SeqCst);
    rt::SYMMETRY.store(false, SeqCst); // the threads do different things
    let mut ex = rt::Explorer::new();
    let mut t = Tally::default();
    // what each does alone; this also brings lazily made globals into being
    let mut alone = vec![];
    for i in &set {
        let got = Mutex::new(None);
        let run = ex.replay(vec![], || {
            let pool = Arc::new(Pool::new());
            *got.lock().unwrap() = Some(work(&ts[*i].1, &pool, again));
            0
        });
        match (run.end, got.into_inner().unwrap()) {
            (rt::End::Exit(0), Some(Ok(x))) => alone.push(x),
            (end, got) => {
                t.violations.push(json!({"space": job["name"], "choices": [], "detail": format!("a workspace alone fails: {end:?} {got:?} {:?}", run.panics)}));
                return t.report(&ex);
            }
        }
    }
    let forced: Option<Vec<u32>> = job["schedule"].as_array().map(|f| f.iter().map(|x| x.as_u64().unwrap() as u32).collect());
    loop {
        let results: Mutex<Vec<Option<Result<Vec<String>, String>>>> = Mutex::new(vec![None; set.len()]);
        let program = || {
            let pool: Arc<Pool<SparseFeatures>> = Arc::new(Pool::new());
            shim_std::thread::scope(|s| {
                for (k, i) in set.iter().enumerate() {
                    let (pool, results, task) = (pool.clone(), &results, ts[*i].1);
                    s.spawn(move || {
                        let r = work(&task, &pool, again);
                        results.lock().unwrap()[k] = Some(r);
                    });
                }
            });
            0
        };
        let run = match &forced {
            Some(f) => ex.replay(f.clone(), program),
            None => match ex.next(program) {
                Some(r) => r,
                None => {
                    t.complete = true;
                    break;
                }
            },
        };
        if run.end == rt::End::Pruned {
            continue;
        }
        if let rt::End::Diverged(m) = &run.end {
            t.errors.push(format!("divergence: {m}"));
            break;
        }
        t.runs += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        std::hash::Hash::hash(&run.trace, &mut h);
        t.distinct.insert(std::hash::Hasher::finish(&h));
        let results = results.into_inner().unwrap();
        let bad = if let Some(r) = run.races.first() {
            Some(format!("data race: {r}"))
        } else if run.end != rt::End::Exit(0) {
            Some(format!("{:?} {:?}", run.end, run.panics))
        } else {
            results.iter().zip(&alone).find_map(|(g, a)| match g {
                Some(Ok(x)) if x == a => None,
                g => Some(format!("a workspace's results depend on the other thread: {g:?} instead of {a:?}")),
            })
        };
        if t.sample.is_null() {
            t.sample = json!({"space": job["name"], "schedule": run.schedule.len(), "trace": run.trace.iter().take(60).collect::<Vec<_>>(), "results": alone.iter().map(|a| a[0].clone()).collect::<Vec<_>>()});
        }
        if let Some(d) = bad {
            if t.violations.len() < 3 {
                t.violations.push(json!({"space": job["name"], "choices": run.schedule, "detail": d.chars().take(1500).collect::<String>()}));
            }
            t.bad += 1;
            if t.bad > 20 {
                break;
            }
        }
        if forced.is_some() || Instant::now() > deadline {
            break;
        }
    }
    t.report(&ex)
}
