//! sched <property> <tier> --secs N --out FILE [--only SPACE c1,c2,...]
//!
//! Explores every schedule of the real command-line trainer (C01, C02) and of programs over the real object pool (C03).
//! Each space is explored by a child process; the child's own arguments are the trainer's arguments, because the
//! trainer reads them itself.
mod iso;
mod pool;
mod selftest;

use sched_rt as rt;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::io::{Seek, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}
extern "C" {
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
}
use std::os::fd::AsRawFd;

/// Only one thread of a child runs at a time: on one processor it hands over faster.
fn pin(slot: u64) {
    let mut m = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, 128, m.as_mut_ptr()) <= 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[slot as usize % cpus.len()];
        let mut m = [0u64; 16];
        m[c / 64] |= 1 << (c % 64);
        sched_setaffinity(0, 128, m.as_ptr());
    }
}

fn main() {
    if let Ok(p) = std::env::var("SCHED_CHILD") {
        std::panic::set_hook(Box::new(|_| {}));
        let job: Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
        let out = PathBuf::from(job["out"].as_str().unwrap());
        pin(job["slot"].as_u64().unwrap_or(0));
        let r = match job["kind"].as_str() {
            Some("pool") => pool::child(&job),
            Some("iso") => iso::child(&job),
            _ => cli_child(&job),
        };
        write_out(&out, &r);
        std::process::exit(0);
    }
    if std::env::args().nth(1).as_deref() == Some("SELFTEST") {
        std::panic::set_hook(Box::new(|_| {}));
        std::process::exit(selftest::run(std::env::args().nth(2).as_deref() == Some("thorough")));
    }
    parent();
}

fn write_out(out: &Path, r: &Value) {
    let tmp = out.with_extension("tmp");
    std::fs::write(&tmp, r.to_string()).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

// ---- what is explored ------------------------------------------------------------------------------------

const REGRESSION: &str = r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Coin","config":{}}}"#;
const CB: &str = r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbExploreAdfGreedy","config":{"epsilon":0.2,"cbAdf":{"typename":"CbAdf","config":{"cbType":"mtr","regressor":{"typename":"Coin","config":{}}}}}}}"#;
const GOOD: [&str; 6] = ["1 | a:1 b", "-1 | b:0.5", "0.5 |n a c:2", "2 | a b c", "-0.5 | c", "1 |n c:3 |m a"];
const CBGOOD: [&str; 4] = [
    r#"{"_label_cost":-1,"_label_probability":0.5,"_label_Action":1,"_labelIndex":0,"a":[1,2],"c":{"_multi":[{"x":1},{"y":"k"}]},"p":[0.5,0.5]}"#,
    r#"{"_label_cost":0,"_label_probability":0.25,"_label_Action":2,"_labelIndex":1,"a":[2,1],"c":{"u":{"v":1},"_multi":[{"x":2},{"x":1},{}]},"p":[0.25,0.5,0.25]}"#,
    r#"{"_label_cost":-0.5,"_label_probability":0.8,"_label_Action":1,"_labelIndex":0,"a":[1],"c":{"_multi":[{"z":1}]},"p":[0.8]}"#,
    r#"{"_label_cost":1,"_label_probability":0.5,"_label_Action":2,"_labelIndex":1,"a":[1,2],"c":{"w":1,"_multi":[{"x":1},{"y":"k"}]},"p":[0.5,0.5]}"#,
];

/// One action each and nothing shared: the fewest containers per example.
const CBSMALL: [&str; 3] = [
    r#"{"_label_cost":-0.5,"_label_probability":0.8,"_label_Action":1,"_labelIndex":0,"a":[1],"c":{"_multi":[{"z":1}]},"p":[0.8]}"#,
    r#"{"_label_cost":1,"_label_probability":0.5,"_label_Action":1,"_labelIndex":0,"a":[1],"c":{"_multi":[{"z":2,"y":1}]},"p":[0.5]}"#,
    r#"{"_label_cost":0.25,"_label_probability":0.4,"_label_Action":1,"_labelIndex":0,"a":[1],"c":{"_multi":[{"y":3}]},"p":[0.4]}"#,
];

#[derive(Clone)]
struct Space {
    name: String,
    config: &'static str,
    format: &'static str,
    data: Vec<u8>,
    workers: usize,
    queue: usize,
    flags: Vec<&'static str>,
    spurious: u32,
    /// Not every schedule, but those that leave a usual one in at most so many places, and which usual one.
    detours: Option<(u32, u32)>,
    /// None: the run must fail. Some: it must succeed and equal the sequential run.
    good: bool,
}

fn lines(ls: &[&str]) -> Vec<u8> {
    ls.iter().flat_map(|l| l.bytes().chain(*b"\n")).collect()
}

fn space(tag: &str, data: Vec<u8>, workers: usize, queue: usize, flags: &[&'static str], good: bool) -> Space {
    Space {
        name: format!("{tag} workers={workers} queue={queue} {}", flags.join(" ")).trim().to_string(),
        config: REGRESSION,
        format: "vw-text",
        data,
        workers,
        queue,
        flags: flags.to_vec(),
        spurious: 0,
        detours: None,
        good,
    }
}
fn cb(mut s: Space) -> Space {
    s.config = CB;
    s.format = "dsjson";
    for f in s.flags.iter_mut().filter(|f| f.starts_with("--metrics")) {
        *f = "--metrics=ips,parsed_features";
    }
    s.name = format!("dsjson {}", s.name);
    s
}
fn spur(mut s: Space) -> Space {
    s.spurious = 1;
    s.name = format!("spurious {}", s.name);
    s
}

/// Examples, workers and queue of the longer files.
const LONG: &[(usize, usize, usize)] = &[(4, 2, 1), (4, 3, 0), (5, 2, 2), (5, 4, 1), (6, 3, 1), (8, 1, 4), (8, 2, 8), (9, 8, 1), (12, 3, 2), (17, 1, 0), (17, 2, 2), (17, 3, 16), (33, 2, 1), (33, 4, 8)];
const LONGER: &[(usize, usize, usize)] = &[(7, 3, 2), (16, 4, 4), (33, 1, 32), (65, 2, 2), (65, 8, 16), (129, 3, 1), (129, 2, 64)];
/// Examples, where the bad ones are, workers and queue.
const LONG_BAD: [(usize, &[usize], usize, usize); 9] = [
    (5, &[2], 3, 1), (6, &[5], 2, 0), (6, &[0, 3], 2, 2), (8, &[3], 1, 2), (9, &[1, 4, 7], 8, 1), (9, &[4], 4, 0), (17, &[8], 2, 2), (17, &[0], 3, 1), (33, &[16], 4, 8)];
const POLICIES: [&str; 4] = ["running on", "taking turns", "oldest first", "youngest first"];
fn near(mut s: Space, policy: u32, detours: u32) -> Space {
    s.detours = Some((policy, detours));
    s.name = format!("{} detours={detours} from {}", s.name, POLICIES[policy as usize]);
    s
}
/// The i-th line of a long file: no two are alike.
fn nth(i: usize) -> String {
    match i % 4 {
        0 => format!("{} | a:{} b", i as f32 * 0.25 - 1.0, i + 1),
        1 => format!("{} |n a c:{}", 0.5 - i as f32 * 0.125, i),
        2 => format!("{} | a b c:{} |m d", i % 5, i),
        _ => format!("-0.5 |m e{i} a"),
    }
}
fn nth_cb(i: usize) -> String {
    let k = i % 3 + 1;
    let acts: Vec<String> = (0..k).map(|j| if j == 0 { format!(r#"{{"x":{}}}"#, i + 1) } else { format!(r#"{{"y{j}":1}}"#) }).collect();
    let ids: Vec<String> = (1..=k).map(|x| x.to_string()).collect();
    let ps: Vec<String> = (0..k).map(|j| if j + 1 == k { format!("{}", 1.0 - 0.25 * j as f32) } else { "0.25".into() }).collect();
    let c = i % k;
    format!(
        r#"{{"_label_cost":{},"_label_probability":{},"_label_Action":{},"_labelIndex":{c},"a":[{}],"c":{{"u":{{"v{}":1}},"_multi":[{}]}},"p":[{}]}}"#,
        i as f32 * 0.5 - 1.0, ps[c], c + 1, ids.join(","), i % 2, acts.join(","), ps.join(",")
    )
}
fn many(n: usize, f: fn(usize) -> String) -> Vec<u8> {
    (0..n).flat_map(|i| (f(i) + "\n").into_bytes()).collect()
}

fn spaces(prop: &str, thorough: bool) -> Vec<Space> {
    let mut v = vec![];
    let g = |n: usize| lines(&GOOD[..n]);
    let c = |n: usize| lines(&CBGOOD[..n]);
    const LOUD: &[&str] = &["--predictions=@P", "--progress=+1", "--metrics=mse,parsed_features"];
    const QUIET: &[&str] = &["--quiet"];
    const QP: &[&str] = &["--quiet", "--predictions=@P"];
    if prop == "C01" || prop == "C02" {
        let mut add = |n: usize, w: usize, q: usize, f: &[&'static str]| v.push(space(&format!("good examples={n}"), g(n), w, q, f, true));
        for (n, w, q) in [(0, 1, 1), (0, 2, 2), (1, 1, 0), (1, 1, 1), (1, 2, 1), (1, 3, 1), (2, 1, 0), (2, 1, 1), (2, 1, 2), (2, 2, 0), (2, 2, 1), (2, 2, 2), (3, 1, 1), (3, 1, 2), (3, 2, 1)] {
            add(n, w, q, LOUD);
        }
        if thorough {
            for (n, w, q) in [(3, 1, 0), (3, 2, 0), (3, 2, 2), (3, 2, 3), (3, 3, 1), (4, 1, 1), (4, 1, 2), (4, 2, 1), (4, 2, 2), (5, 1, 1), (5, 2, 1), (6, 1, 1), (2, 3, 1), (2, 3, 2), (2, 4, 1)] {
                add(n, w, q, LOUD);
            }
        }
        for (n, w, q) in [(2, 2, 1), (3, 1, 1)] {
            add(n, w, q, QUIET);
            add(n, w, q, QP);
        }
        v.push(spur(space("good examples=2", g(2), 2, 1, LOUD, true)));
        v.push(spur(space("good examples=3", g(3), 1, 1, LOUD, true)));
        v.push(cb(space("good examples=2", c(2), 2, 1, LOUD, true)));
        v.push(cb(space("good small examples=3", lines(&CBSMALL), 1, 1, LOUD, true)));
        if thorough {
            v.push(spur(space("good examples=3", g(3), 2, 1, LOUD, true)));
            v.push(cb(space("good examples=3", c(3), 1, 1, LOUD, true)));
            v.push(cb(space("good small examples=3", lines(&CBSMALL), 2, 1, LOUD, true)));
            v.push(cb(space("good examples=3", c(3), 2, 1, LOUD, true)));
            v.push(cb(space("good examples=3", c(3), 2, 2, QP, true)));
            v.push(cb(space("good examples=4", c(4), 1, 2, LOUD, true)));
        }
    }
    if prop == "C02" || prop == "C01" {
        for (n, w, q) in LONG.iter().copied().chain(thorough.then_some(LONGER).into_iter().flatten().copied()) {
            for p in 0..4 {
                let d = match n {
                    4 => 2 + thorough as u32,
                    _ => 1 + (thorough && n < 10) as u32,
                };
                v.push(near(space(&format!("good examples={n}"), many(n, nth), w, q, LOUD, true), p, d));
                if n <= 17 && w < 4 {
                    v.push(near(cb(space(&format!("good examples={n}"), many(n, nth_cb), w, q, LOUD, true)), p, d));
                }
            }
        }
        let bads: [(&str, &[u8]); 3] = [("malformed", b"x y z | a"), ("unlabelled", b"| a"), ("not text", b"1 | \xff\xfe")];
        for (what, line) in bads {
            let mut shapes: Vec<(usize, usize, usize, usize)> = vec![]; // (examples, bad position, workers, queue)
            for n in 1..=if thorough { 4 } else { 3 } {
                for p in 0..n {
                    for w in 1..=if thorough { 3 } else { 2 } {
                        for q in 0..=2 {
                            if n == 3 && w + q > 3 && !thorough || n + w + q > 7 {
                                continue;
                            }
                            shapes.push((n, p, w, q));
                        }
                    }
                }
            }
            for (n, p, w, q) in shapes {
                let mut d = vec![];
                for i in 0..n {
                    d.extend_from_slice(if i == p { line } else { GOOD[i].as_bytes() });
                    d.push(b'\n');
                }
                if prop == "C01" && !(what == "malformed" && n == 2) {
                    continue; // only looked at for unsynchronised accesses there
                }
                v.push(space(&format!("{what} at {p} of {n}"), d, w, q, QP, false));
            }
        }
        // more than one bad example
        for (n, bad, w, q) in [(2, &[0usize, 1][..], 1, 1), (2, &[0, 1], 2, 1), (2, &[0, 1], 2, 0), (3, &[0, 1], 2, 1), (3, &[0, 2], 2, 1), (3, &[1, 2], 2, 0), (3, &[0, 1, 2], 2, 1)] {
            if prop == "C01" {
                continue;
            }
            let d: Vec<u8> = (0..n).flat_map(|i| if bad.contains(&i) { bads[i % 3].1 } else { GOOD[i].as_bytes() }.iter().copied().chain(*b"\n")).collect();
            v.push(space(&format!("bad at {bad:?} of {n}"), d, w, q, QP, false));
        }
        // more examples behind the bad one than the queues hold
        if prop == "C02" {
            for (w, q) in [(1, 0), (1, 1), (2, 1), (2, 0)] {
                let mut d = b"x y z | a\n".to_vec();
                d.extend(lines(&GOOD[..4]));
                v.push(space("malformed at 0 of 5", d.clone(), w, q, QUIET, false));
            }
            v.push(cb(space("malformed at 1 of 2", lines(&[CBGOOD[0], "{\"_label_cost\":"]), 2, 1, QP, false)));
            for (n, at, w, q) in LONG_BAD {
                for (b, (what, line)) in bads.iter().enumerate() {
                    if b > 0 && n > 9 && !thorough {
                        continue;
                    }
                    let d: Vec<u8> = (0..n).flat_map(|i| if at.contains(&i) { line.to_vec() } else { nth(i).into_bytes() }.into_iter().chain(*b"\n")).collect();
                    for p in 0..4 {
                        v.push(near(space(&format!("{what} at {at:?} of {n}"), d.clone(), w, q, if n % 2 == 0 { QP } else { LOUD }, false), p, if thorough && n < 10 { 2 } else { 1 }));
                    }
                }
            }
            v.push(cb(space("no actions at 1 of 3", lines(&[CBGOOD[0], "[]", CBGOOD[1]]), 1, 1, QP, false)));
        }
    }
    v
}

// ---- the child: one space --------------------------------------------------------------------------------

#[derive(Clone, PartialEq)]
struct Seen {
    predictions: Option<Vec<u8>>,
    model: Option<Vec<u8>>,
    stdout: Vec<u8>,
}

fn prepare(ex: &mut rt::Explorer, job: &Value) {
    ex.spurious = job["spurious"].as_u64().unwrap() as u32;
    if let Some(d) = job["detours"].as_array() {
        ex.policy = d[0].as_u64().unwrap() as u32;
        ex.detours = Some(d[1].as_u64().unwrap() as u32);
    }
}

fn cli_child(job: &Value) -> Value {
    let preds = PathBuf::from(job["predictions"].as_str().unwrap());
    let model = PathBuf::from(job["model"].as_str().unwrap());
    let capture = PathBuf::from(job["capture"].as_str().unwrap());
    let mut cap = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&capture).unwrap();
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe {
        dup2(cap.as_raw_fd(), 1);
        dup2(null.as_raw_fd(), 2);
    }
    let prop = job["property"].as_str().unwrap().to_string();
    let good = job["good"].as_bool().unwrap();
    let expect = (!job["expect"].is_null()).then(|| Seen {
        predictions: read(Path::new(job["expect"].as_str().unwrap()).join("p").as_path()),
        model: read(Path::new(job["expect"].as_str().unwrap()).join("m").as_path()),
        stdout: read(Path::new(job["expect"].as_str().unwrap()).join("s").as_path()).unwrap_or_default(),
    });
    let recording = job["record"].as_bool().unwrap_or(false);
    let deadline = Instant::now() + Duration::from_millis(job["millis"].as_u64().unwrap());
    watchdog(job.clone());
    let program = || -> i32 {
        let code = reml_sched::verif_main();
        (format!("{code:?}") != format!("{:?}", std::process::ExitCode::SUCCESS)) as i32
    };
    let mut ex = rt::Explorer::new();
    prepare(&mut ex, job);
    let mut res = Tally::default();
    let mut warm = false;
    let mut flags = (false, false);
    loop {
        let _ = std::fs::remove_file(&preds);
        let _ = std::fs::remove_file(&model);
        let _ = cap.set_len(0);
        let _ = cap.rewind();
        let run = if let Some(f) = job["schedule"].as_array() {
            ex.replay(f.iter().map(|x| x.as_u64().unwrap() as u32).collect(), program)
        } else if !warm {
            // lazily initialised globals come into being here
            ex.replay(vec![], program)
        } else {
            match ex.next(program) {
                Some(r) => r,
                None => {
                    res.complete = true;
                    break;
                }
            }
        };
        let _ = std::io::stdout().flush();
        let now = (rt::TRY_SEEN.load(SeqCst), rt::POLLED.load(SeqCst));
        if warm && now != flags && job["schedule"].is_null() {
            // operations that make more of the program visible turned up: start over with those in view
            rt::UNLOCK_POINTS.store(now.0, SeqCst);
            flags = now;
            ex = rt::Explorer::new();
            prepare(&mut ex, job);
            continue;
        }
        flags = now;
        if !warm && job["schedule"].is_null() {
            warm = true;
            if rt::TRY_SEEN.load(SeqCst) {
                rt::UNLOCK_POINTS.store(true, SeqCst);
            }
            if !recording {
                continue;
            }
        }
        let seen = Seen { predictions: read(&preds), model: read(&model), stdout: read(&capture).unwrap_or_default() };
        if recording {
            let ok = run.end == rt::End::Exit(0);
            let d = Path::new(job["record_to"].as_str().unwrap());
            std::fs::create_dir_all(d).unwrap();
            for (n, x) in [("p", &seen.predictions), ("m", &seen.model), ("s", &Some(seen.stdout.clone()))] {
                if let Some(x) = x {
                    std::fs::write(d.join(n), x).unwrap();
                }
            }
            res.complete = true;
            return json!({"ok": ok, "end": format!("{:?}", run.end)});
        }
        if run.end == rt::End::Pruned {
            continue;
        }
        if let rt::End::Diverged(m) = &run.end {
            if rt::SYMMETRY.swap(false, SeqCst) && job["schedule"].is_null() {
                ex = rt::Explorer::new();
                prepare(&mut ex, job);
                continue;
            }
            res.errors.push(format!("divergence: {m}"));
            break;
        }
        res.runs += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        std::hash::Hash::hash(&run.trace, &mut h);
        res.distinct.insert(std::hash::Hasher::finish(&h));
        let v = judge(&prop, good, &run, &seen, expect.as_ref());
        if res.sample.is_null() {
            res.sample = json!({"space": job["name"], "end": format!("{:?}", run.end), "schedule": run.schedule.len(), "trace": run.trace.iter().take(60).collect::<Vec<_>>()});
        }
        if let Some(d) = v {
            if res.violations.len() < 3 {
                res.violations.push(json!({"space": job["name"], "choices": run.schedule, "detail": d}));
            }
            res.bad += 1;
            if res.bad >= 20 {
                break;
            }
        }
        if !job["schedule"].is_null() {
            break;
        }
        if Instant::now() > deadline {
            break;
        }
    }
    res.report(&ex)
}

#[derive(Default)]
pub struct Tally {
    pub runs: u64,
    pub bad: u64,
    pub distinct: HashSet<u64>,
    pub violations: Vec<Value>,
    pub errors: Vec<String>,
    pub complete: bool,
    pub sample: Value,
}
impl Tally {
    pub fn report(&self, ex: &rt::Explorer) -> Value {
        json!({"runs": self.runs, "executions": ex.executions, "transitions": ex.transitions, "states": ex.states, "pruned": ex.pruned,
            "deepest": ex.deepest, "distinct": self.distinct.len(), "violations": self.violations, "errors": self.errors,
            "complete": self.complete, "sample": self.sample})
    }
}

fn read(p: &Path) -> Option<Vec<u8>> {
    std::fs::read(p).ok()
}

fn judge(prop: &str, good: bool, run: &rt::Run, seen: &Seen, expect: Option<&Seen>) -> Option<String> {
    use rt::End::*;
    let tail = || format!("; last steps: {}", run.trace.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join(" "));
    if prop == "C01" {
        if let Some(r) = run.races.first() {
            return Some(format!("data race: {r}{}", tail()));
        }
        if !good {
            return None;
        }
    }
    match &run.end {
        Deadlock(m) => return Some(format!("deadlock: {m}{}", tail())),
        TooLong => return Some(format!("the run does not end{}", tail())),
        _ => {}
    }
    let ok = run.end == Exit(0);
    if good && !ok {
        return Some(format!("a run over a good file failed: {:?} {:?}", run.end, run.panics));
    }
    if prop == "C02" {
        if !good && ok {
            return Some("a run over a file with a bad example succeeded".into());
        }
        if !good && seen.model.is_some() {
            return Some("a failed run wrote an output model".into());
        }
        if good && seen.model.is_none() {
            return Some("a successful run wrote no output model".into());
        }
        return None;
    }
    let e = expect.unwrap();
    if seen.model != e.model {
        return Some(format!("the saved model differs from the sequential run's{}", tail()));
    }
    if seen.predictions != e.predictions {
        return Some(format!(
            "predictions {:?} instead of {:?}",
            seen.predictions.as_ref().map(|x| String::from_utf8_lossy(x).into_owned()),
            e.predictions.as_ref().map(|x| String::from_utf8_lossy(x).into_owned())
        ));
    }
    if seen.stdout != e.stdout {
        return Some(format!("the printed metrics differ: {:?} instead of {:?}", String::from_utf8_lossy(&seen.stdout), String::from_utf8_lossy(&e.stdout)));
    }
    None
}

static JOB: std::sync::OnceLock<Value> = std::sync::OnceLock::new();
extern "C" {
    fn sigaction(n: i32, new: *const Action, old: *mut Action) -> i32;
    fn pause() -> i32;
    fn _exit(n: i32) -> !;
}

fn give_up(detail: String) {
    let job = JOB.get().unwrap();
    let mut t = Tally::default();
    t.runs = 1;
    t.violations.push(json!({"space": job["name"], "choices": rt::schedule_so_far(), "detail": detail}));
    let mut r = t.report(&rt::Explorer::new());
    r["stuck"] = json!(true);
    write_out(Path::new(job["out"].as_str().unwrap()), &r);
}

/// The program aborted or crashed: the explorer goes with it, but leaves word which schedule did it. The stack may be
/// used up, so another thread does it.
static CRASH: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
extern "C" fn crashed(n: i32) {
    CRASH.store(n, SeqCst);
    loop {
        unsafe { pause() };
    }
}

#[repr(C)]
struct Action {
    handler: extern "C" fn(i32),
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const ON_ALTERNATE_STACK: i32 = 0x0800_0000;

/// A thread that neither finishes nor reaches a scheduling point is stuck in a loop.
pub fn watchdog(job: Value) {
    let _ = JOB.set(job);
    for n in [4, 6, 7, 8, 11] {
        let a = Action { handler: crashed, mask: [0; 16], flags: ON_ALTERNATE_STACK, restorer: 0 };
        unsafe { sigaction(n, &a, std::ptr::null_mut()) };
    }
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let n = CRASH.load(SeqCst);
            if n != 0 {
                give_up(format!("signal {n} ends the program"));
                unsafe { _exit(0) }
            }
            let n = rt::STEPS.load(SeqCst);
            if !rt::RUNNING.load(SeqCst) || n != last.0 {
                last = (n, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(30) {
                give_up("a thread makes no progress".into());
                std::process::exit(0);
            }
        }
    });
}

// ---- the parent ------------------------------------------------------------------------------------------

struct Args {
    prop: String,
    thorough: bool,
    secs: u64,
    out: PathBuf,
    only: Option<(String, Vec<u32>)>,
    filter: Option<String>,
}

fn parent() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let only = a.iter().position(|x| x == "--only").map(|i| {
        (a[i + 1].clone(), a.get(i + 2).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default())
    });
    let args = Args {
        prop: a[0].clone(),
        thorough: a[1] == "thorough",
        secs: opt("--secs").map(|s| s.parse().unwrap()).unwrap_or(120),
        out: opt("--out").map(PathBuf::from).unwrap_or("/dev/stdout".into()),
        only,
        filter: opt("--space"),
    };
    let t0 = Instant::now();
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let dir = base.join(format!("verif-sched-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let jobs: Vec<(Value, Vec<String>)> = if args.prop == "C03" { pool::jobs(&args.only, args.thorough) } else if args.prop == "C30" { iso::jobs(&args.only, args.thorough) } else { cli_jobs(&args, &dir) };
    let n = jobs.len().max(1) as u64;
    // eight children at a time; each may use its share of the time and what others left
    // spaces that a tenth of the time does not exhaust are explored again with what the others left
    let queue = Arc::new(Mutex::new(jobs.into_iter().enumerate().map(|j| (1, j)).collect::<std::collections::VecDeque<_>>()));
    let results: Arc<Mutex<Vec<(usize, Value, Value)>>> = Arc::default();
    let oracles: Arc<Mutex<HashMap<String, PathBuf>>> = Arc::default();
    let partial: Arc<Mutex<HashMap<usize, Value>>> = Arc::default();
    let end = t0 + Duration::from_secs(args.secs);
    std::thread::scope(|s| {
        for slot in 0..8u64 {
            let (queue, results, dir, oracles, partial) = (queue.clone(), results.clone(), &dir, oracles.clone(), partial.clone());
            s.spawn(move || loop {
                let (left, job) = {
                    let mut q = queue.lock().unwrap();
                    let l = q.len() as u64;
                    (l, q.pop_front())
                };
                let Some((round, (i, (mut job, argv)))) = job else { break };
                let now = Instant::now();
                let room = end.saturating_duration_since(now).as_millis() as u64;
                let waves = left.div_ceil(8).max(1);
                let mut share = (room / waves).max(2000).min((args.secs * 1000).max(2000));
                if round == 1 && n > 8 {
                    share = share.min(args.secs * 100).max(2000);
                }
                job["millis"] = json!(share);
                job["slot"] = json!(slot);
                let out = dir.join(format!("{i}.json"));
                job["out"] = json!(out);
                job["capture"] = json!(dir.join(format!("{i}.cap")));
                let mut r = None;
                if job["kind"] == "cli" {
                    if job["good"] == true {
                        // the sequential run is the oracle
                        let key = job["oracle_key"].as_str().unwrap().to_string();
                        let have = oracles.lock().unwrap().get(&key).cloned();
                        let to = match have {
                            Some(d) => Some(d),
                            None => {
                                let d = dir.join(format!("oracle-{i}"));
                                let mut rec = job.clone();
                                rec["record"] = json!(true);
                                rec["record_to"] = json!(d);
                                rec["millis"] = json!(60000);
                                rec["schedule"] = Value::Null;
                                let av: Vec<String> = argv.iter().map(|x| if x.starts_with("--num-parse-threads") { "--num-parse-threads=0".into() } else { x.clone() }).collect();
                                let o = child(&rec, &av, &dir.join(format!("{i}.rec.job")), &out, 60_000);
                                match o {
                                    Ok(o) if o["ok"] == true => {
                                        oracles.lock().unwrap().insert(key, d.clone());
                                        Some(d)
                                    }
                                    Ok(o) => {
                                        r = Some(json!({"violations": [{"space": job["name"], "choices": [], "detail": format!("the sequential run over a good file fails: {}", o["end"])}], "complete": false}));
                                        None
                                    }
                                    Err(e) => {
                                        r = Some(json!({"errors": [e]}));
                                        None
                                    }
                                }
                            }
                        };
                        if let Some(d) = to {
                            job["expect"] = json!(d);
                        }
                    }
                }
                let r = r.unwrap_or_else(|| match child(&job, &argv, &dir.join(format!("{i}.job")), &out, share + 60_000) {
                    Ok(v) => v,
                    Err(e) => json!({"errors": [e]}),
                });
                if round == 1 && n > 8 && r["complete"] == false && r["violations"].as_array().is_some_and(|v| v.is_empty()) && r["errors"].as_array().is_some_and(|v| v.is_empty()) {
                    partial.lock().unwrap().insert(i, r);
                    queue.lock().unwrap().push_back((2, (i, (job, argv))));
                    continue;
                }
                // a second look that got less far than the first does not count
                let first = partial.lock().unwrap().remove(&i);
                let r = match first {
                    Some(f) if f["runs"].as_u64() > r["runs"].as_u64() && r["complete"] == false && r["violations"].as_array().is_some_and(|v| v.is_empty()) => f,
                    _ => r,
                };
                results.lock().unwrap().push((i, job, r));
            });
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
    let mut rs = Arc::try_unwrap(results).ok().unwrap().into_inner().unwrap();
    rs.sort_by_key(|x| x.0);
    let sum = |k: &str| rs.iter().map(|r| r.2[k].as_u64().unwrap_or(0)).sum::<u64>();
    let mut violations = vec![];
    let mut errors = vec![];
    let mut sp = vec![];
    let mut samples = vec![];
    for (_, job, r) in &rs {
        violations.extend(r["violations"].as_array().cloned().unwrap_or_default());
        errors.extend(r["errors"].as_array().cloned().unwrap_or_default());
        sp.push(json!({"name": job["name"], "paths": r["executions"].as_u64().unwrap_or(0), "complete": r["complete"].as_bool().unwrap_or(false)}));
        if samples.len() < 4 && !r["sample"].is_null() {
            samples.push(r["sample"].clone());
        }
    }
    if !violations.is_empty() {
        errors.clear();
    }
    let bounds = json!([
        "spaces named `detours=D from ...`: every schedule that leaves the named deterministic one at most D times (any enabled thread goes instead)",
        "every schedule of each other listed space, up to reordering of independent operations (partial-order reduction with sleep sets); complete=false marks a space cut off by time",
        "sequentially consistent memory; unsynchronised accesses are found by vector clocks under the orderings the code asks for",
        "channels, locks and futexes behave as documented by flume, parking_lot and atomic-wait"
    ]);
    let o = json!({"property": args.prop, "evaluations": sum("runs"), "distinct_nontrivial": sum("distinct"), "states": sum("states"),
        "transitions": sum("transitions"), "traces_validated_against_impl": sum("executions"), "samples": samples,
        "notes": {"schedules run to their end": sum("runs"), "schedules cut as equivalent": sum("pruned"),
            "longest schedule": rs.iter().map(|r| r.2["deepest"].as_u64().unwrap_or(0)).max().unwrap_or(0)},
        "bounds": bounds, "spaces": sp, "violations": violations, "engine_errors": errors, "wall_s": t0.elapsed().as_secs_f64()});
    std::fs::write(&args.out, o.to_string()).unwrap();
    let incomplete = sp.iter().filter(|s| s["complete"] == false).count();
    println!("{} {} spaces ({} incomplete), {} schedules, {} violations, {} errors, {:.1}s", args.prop, sp.len(), incomplete, sum("runs"), violations.len(), errors.len(), t0.elapsed().as_secs_f64());
    std::process::exit(if !violations.is_empty() { 1 } else { 0 });
}

fn child(job: &Value, argv: &[String], job_path: &Path, out: &Path, millis: u64) -> Result<Value, String> {
    let _ = std::fs::remove_file(out);
    std::fs::write(job_path, job.to_string()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(argv)
        .env("SCHED_CHILD", job_path)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let t = Instant::now();
    loop {
        if let Some(st) = c.try_wait().map_err(|e| e.to_string())? {
            let text = std::fs::read_to_string(out).map_err(|_| format!("{}: the explorer ended with {st} and no result", job["name"]))?;
            return serde_json::from_str(&text).map_err(|e| e.to_string());
        }
        if t.elapsed() > Duration::from_millis(millis) {
            let _ = c.kill();
            let _ = c.wait();
            return Err(format!("{}: the explorer did not stop", job["name"]));
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

fn cli_jobs(args: &Args, dir: &Path) -> Vec<(Value, Vec<String>)> {
    let mut v = vec![];
    for (i, s) in spaces(&args.prop, args.thorough).into_iter().enumerate() {
        if args.filter.as_ref().is_some_and(|f| !s.name.contains(f.as_str())) {
            continue;
        }
        let mut schedule = Value::Null;
        if let Some((name, c)) = &args.only {
            if *name != s.name {
                continue;
            }
            schedule = json!(c);
        }
        let d = dir.join(format!("s{i}"));
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("config.json"), s.config).unwrap();
        std::fs::write(d.join("data"), &s.data).unwrap();
        let p = |n: &str| d.join(n).to_str().unwrap().to_string();
        let mut argv: Vec<String> = vec![];
        if s.flags.contains(&"--quiet") {
            argv.push("--quiet".into());
        }
        argv.extend(["train".to_string(), format!("--data={}", p("data")), format!("--config={}", p("config.json")), format!("--output-model={}", p("model"))]);
        argv.extend([format!("--data-format={}", s.format), format!("--queue-size={}", s.queue), format!("--num-parse-threads={}", s.workers)]);
        for f in s.flags.iter().filter(|f| **f != "--quiet") {
            argv.push(f.replace("@P", &p("predictions")));
        }
        let job = json!({"kind": "cli", "property": args.prop, "name": s.name, "good": s.good, "spurious": s.spurious, "detours": s.detours.map(|d| json!([d.0, d.1])), "predictions": p("predictions"),
            "model": p("model"), "schedule": schedule, "expect": Value::Null,
            "oracle_key": format!("{:?} {} {:?}", s.data, s.format, s.flags)});
        v.push((job, argv));
    }
    v
}
