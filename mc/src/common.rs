//! Exhaustive exploration of choice trees, with tallies, samples and violation recording.
//!
//! A *space* is a closure that makes every decision through `Chooser::choose(n)`. The explorer runs the
//! closure once per path of the induced choice tree (stateless depth-first search, split over worker
//! threads). A violation is identified by the space's name and the list of choices, which replays it.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None); // (location, message)
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload_str(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_string()
    }
}

/// Runs repository code; a panic becomes Err with its message. A panic raised by the harness itself is
/// passed on (it is an engine error, never a verdict).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if is_harness(&loc) {
                std::panic::resume_unwind(Box::new(format!("{loc}: {msg}")));
            }
            let _ = e;
            Err(format!("panicked at {}: {}", short_loc(&loc), msg))
        }
    }
}

fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/mc/")
}
fn short_loc(loc: &str) -> &str {
    loc.strip_prefix("/repo/").unwrap_or(loc)
}

/// What each worker is running right now, kept in a file mapping so that it outlives the process: the last resort
/// when repository code hangs, overflows the stack or aborts.
pub mod current {
    use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};
    use std::time::{SystemTime, UNIX_EPOCH};
    const SLOT: usize = 1 << 16;
    const SLOTS: usize = 64;
    static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
    static NEXT: AtomicU64 = AtomicU64::new(0);
    thread_local!(static MINE: usize = 1 + NEXT.fetch_add(1, SeqCst) as usize % (SLOTS - 1));
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    pub fn open(path: &str) {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
        f.set_len((SLOT * SLOTS) as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), SLOT * SLOTS, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        BASE.store(p, SeqCst);
    }
    pub fn now() -> u64 {
        SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
    }
    /// slot 0 names the space
    pub fn space(name: &str) {
        let b = BASE.load(Relaxed);
        if !b.is_null() {
            let n = name.len().min(SLOT - 8);
            unsafe {
                std::ptr::copy_nonoverlapping(name.as_ptr(), b.add(8), n);
                *(b as *mut u64) = n as u64;
            }
        }
    }
    pub fn enter(choices: &[u32], more: Option<u32>) {
        let b = BASE.load(Relaxed);
        if !b.is_null() {
            let n = choices.len().min((SLOT - 32) / 4);
            unsafe {
                let s = b.add(SLOT * MINE.with(|m| *m));
                let d = s.add(16) as *mut u32;
                std::ptr::copy_nonoverlapping(choices.as_ptr(), d, n);
                if let Some(m) = more {
                    *d.add(n) = m;
                }
                *(s.add(8) as *mut u64) = (n + more.is_some() as usize) as u64;
                (*(s as *const AtomicU64)).store(now(), SeqCst);
            }
        }
    }
    pub fn leave() {
        let b = BASE.load(Relaxed);
        if !b.is_null() {
            unsafe { (*(b.add(SLOT * MINE.with(|m| *m)) as *const AtomicU64)).store(0, SeqCst) }
        }
    }
    /// a path some worker has been on for longer than `ms`
    pub fn stuck(ms: u64) -> Option<(String, Vec<u32>)> {
        let b = BASE.load(Relaxed);
        if b.is_null() {
            return None;
        }
        unsafe {
            for i in 1..SLOTS {
                let s = b.add(SLOT * i);
                let t = (*(s as *const AtomicU64)).load(SeqCst);
                if t != 0 && t + ms < now() {
                    let n = *(s.add(8) as *const u64) as usize;
                    let c = std::slice::from_raw_parts(s.add(16) as *const u32, n).to_vec();
                    let name = std::slice::from_raw_parts(b.add(8), *(b as *const u64) as usize);
                    return Some((String::from_utf8_lossy(name).into_owned(), c));
                }
            }
        }
        None
    }
}

pub struct Chooser {
    prefix: Vec<u32>,
    pub path: Vec<(u32, u32)>, // (choice, arity)
}

impl Chooser {
    fn new(prefix: Vec<u32>) -> Self {
        Chooser { prefix, path: Vec::new() }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        let i = self.path.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            panic!("divergence while replaying: choice {c} of {n} at {i}");
        }
        if i < self.prefix.len() || n > 1 || true {
            self.path.push((c, n as u32));
        }
        c as usize
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// A sequence of length min..=max of choices below n.
    pub fn seq(&mut self, n: usize, min: usize, max: usize) -> Vec<usize> {
        let len = min + self.choose(max - min + 1);
        (0..len).map(|_| self.choose(n)).collect()
    }
}

#[derive(Default)]
pub struct Tally {
    pub evals: u64,
    pub transitions: u64,
    pub validated: u64,
    distinct: HashSet<u64>,
    states: HashSet<u64>,
    samples: Vec<String>,
    want_sample: bool,
    pub notes: BTreeMap<String, u64>,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Tally {
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// The case just evaluated was non-trivial; `key` identifies it (input and observed outcome).
    pub fn distinct<T: Hash + ?Sized>(&mut self, key: &T) {
        // bounded memory: the count is a lower bound once it reaches the cap
        if self.distinct.len() < 1_000_000 {
            self.distinct.insert(hash_of(key));
        }
    }
    pub fn state<T: Hash + ?Sized>(&mut self, key: &T) -> bool {
        self.states.len() < 2_000_000 && self.states.insert(hash_of(key))
    }
    pub fn step(&mut self) {
        self.transitions += 1;
        self.validated += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn note(&mut self, k: &str) {
        *self.notes.entry(k.to_string()).or_insert(0) += 1;
    }
    fn merge(&mut self, o: Tally) {
        self.evals += o.evals;
        self.transitions += o.transitions;
        self.validated += o.validated;
        self.distinct.extend(o.distinct);
        self.states.extend(o.states);
        self.samples.extend(o.samples);
        for (k, v) in o.notes {
            *self.notes.entry(k).or_insert(0) += v;
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub space: String,
    pub choices: Vec<u32>,
    pub detail: String,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub only: Option<(String, Vec<u32>)>,
    pub total: Mutex<Tally>,
    pub violations: Mutex<Vec<Violation>>,
    pub engine_errors: Mutex<Vec<String>>,
    pub spaces: Mutex<Vec<(String, u64, bool)>>, // name, paths, complete
    pub deadline: Instant,
    pub threads: usize,
    pub bounds: Mutex<Vec<String>>,
}

const MAX_VIOL_PER_SPACE: usize = 40;

type Body<'a> = dyn Fn(&mut Chooser, &mut Tally) -> Result<(), String> + Sync + 'a;

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// quick or thorough bound
    pub fn b(&self, quick: usize, thorough: usize) -> usize {
        if self.quick() { quick } else { thorough }
    }
    /// In the quick tier one in `step`, all of them in the thorough one.
    pub fn some<'a, T>(&self, v: &'a [T], step: usize) -> impl Iterator<Item = &'a T> + 'a {
        v.iter().step_by(if self.quick() { step } else { 1 })
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }

    fn run_one(&self, name: &str, prefix: Vec<u32>, t: &mut Tally, body: &Body) -> Vec<(u32, u32)> {
        current::enter(&prefix, None);
        let mut c = Chooser::new(prefix);
        LAST_PANIC.with(|p| *p.borrow_mut() = None);
        let r = catch_unwind(AssertUnwindSafe(|| body(&mut c, t)));
        current::leave();
        let err = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => {
                let lp = LAST_PANIC.with(|p| p.borrow_mut().take());
                match lp {
                    Some((loc, msg)) if !is_harness(&loc) => {
                        Some(format!("panicked at {}: {}", short_loc(&loc), msg))
                    }
                    Some((loc, msg)) => {
                        self.engine_errors.lock().unwrap().push(format!(
                            "{name} {:?}: {loc}: {msg}",
                            c.path.iter().map(|x| x.0).collect::<Vec<_>>()
                        ));
                        None
                    }
                    None => {
                        self.engine_errors
                            .lock()
                            .unwrap()
                            .push(format!("{name}: {}", payload_str(&*p)));
                        None
                    }
                }
            }
        };
        if let Some(detail) = err {
            let mut v = self.violations.lock().unwrap();
            v.push(Violation {
                space: name.to_string(),
                choices: c.path.iter().map(|x| x.0).collect(),
                detail,
            });
        }
        c.path
    }

    /// Explore the whole choice tree of `body`.
    pub fn explore(&self, name: &str, body: impl Fn(&mut Chooser, &mut Tally) -> Result<(), String> + Sync) {
        let body: &Body = &body;
        current::space(name);
        if let Some((s, choices)) = &self.only {
            if s == name {
                let mut t = Tally { want_sample: true, ..Default::default() };
                self.run_one(name, choices.clone(), &mut t, body);
                self.total.lock().unwrap().merge(t);
            }
            return;
        }
        if !self.engine_errors.lock().unwrap().is_empty() {
            return;
        }
        let viol_before = self.violations.lock().unwrap().len();
        // Queue of subtrees, each a fixed prefix. Workers split when others are hungry.
        struct Q {
            tasks: Vec<Vec<u32>>,
            busy: usize,
        }
        let q = Mutex::new(Q { tasks: vec![vec![]], busy: 0 });
        let cv = Condvar::new();
        let hungry = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let paths = AtomicU64::new(0);
        std::thread::scope(|s| {
            for w in 0..self.threads {
                let (q, cv, hungry, stop, paths) = (&q, &cv, &hungry, &stop, &paths);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut t = Tally { want_sample: w == 0, ..Default::default() };
                        loop {
                            let task = {
                                let mut g = q.lock().unwrap();
                                loop {
                                    if stop.load(Ordering::Relaxed) {
                                        g.tasks.clear();
                                    }
                                    if let Some(x) = g.tasks.pop() {
                                        g.busy += 1;
                                        break Some(x);
                                    }
                                    if g.busy == 0 {
                                        cv.notify_all();
                                        break None;
                                    }
                                    hungry.fetch_add(1, Ordering::Relaxed);
                                    g = cv.wait(g).unwrap();
                                    hungry.fetch_sub(1, Ordering::Relaxed);
                                }
                            };
                            let Some(root) = task else { break };
                            let mut base = root.len();
                            let mut prefix = root;
                            loop {
                                let path = self.run_one(name, prefix.clone(), &mut t, body);
                                let n = paths.fetch_add(1, Ordering::Relaxed);
                                if path.len() < prefix.len() {
                                    self.engine_errors.lock().unwrap().push(format!(
                                        "{name}: divergence: path shorter than prefix {prefix:?}"
                                    ));
                                    stop.store(true, Ordering::Relaxed);
                                }
                                if n % 64 == 0
                                    && (Instant::now() > self.deadline
                                        || self.violations.lock().unwrap().len() - viol_before
                                            >= MAX_VIOL_PER_SPACE
                                        || !self.engine_errors.lock().unwrap().is_empty())
                                {
                                    stop.store(true, Ordering::Relaxed);
                                }
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                if hungry.load(Ordering::Relaxed) > 0 {
                                    // Donate all untaken siblings at the shallowest open level.
                                    if let Some(l) = (base..path.len()).find(|&l| path[l].0 + 1 < path[l].1) {
                                        let mut g = q.lock().unwrap();
                                        for c in (path[l].0 + 1)..path[l].1 {
                                            let mut p: Vec<u32> = path[..l].iter().map(|x| x.0).collect();
                                            p.push(c);
                                            g.tasks.push(p);
                                        }
                                        base = l + 1;
                                        cv.notify_all();
                                    }
                                }
                                // next path below base
                                match (base..path.len()).rev().find(|&l| path[l].0 + 1 < path[l].1) {
                                    Some(l) => {
                                        prefix = path[..l].iter().map(|x| x.0).collect();
                                        prefix.push(path[l].0 + 1);
                                    }
                                    None => break,
                                }
                            }
                            let mut g = q.lock().unwrap();
                            g.busy -= 1;
                            if g.busy == 0 || stop.load(Ordering::Relaxed) {
                                cv.notify_all();
                            }
                        }
                        self.total.lock().unwrap().merge(t);
                    })
                    .unwrap();
            }
        });
        let complete = !stop.load(Ordering::Relaxed);
        self.spaces
            .lock()
            .unwrap()
            .push((name.to_string(), paths.load(Ordering::Relaxed), complete));
    }

    pub fn result_json(&self, wall: f64) -> serde_json::Value {
        let t = self.total.lock().unwrap();
        let mut v: Vec<serde_json::Value> = Vec::new();
        let mut viol = self.violations.lock().unwrap();
        viol.sort_by(|a, b| {
            (a.choices.len(), &a.space, &a.choices).cmp(&(b.choices.len(), &b.space, &b.choices))
        });
        for x in viol.iter() {
            v.push(serde_json::json!({"space": x.space, "choices": x.choices, "detail": x.detail}));
        }
        let mut samples = t.samples.clone();
        // a few per space, spread
        if samples.len() > 12 {
            let step = samples.len() / 12 + 1;
            samples = samples.into_iter().step_by(step).collect();
        }
        serde_json::json!({
            "property": self.id,
            "evaluations": t.evals,
            "distinct_nontrivial": t.distinct.len(),
            "states": t.states.len(),
            "transitions": t.transitions,
            "traces_validated_against_impl": t.validated,
            "samples": samples,
            "notes": t.notes,
            "bounds": *self.bounds.lock().unwrap(),
            "spaces": self.spaces.lock().unwrap().iter().map(|(n,p,c)| serde_json::json!({"name": n, "paths": p, "complete": c})).collect::<Vec<_>>(),
            "violations": v,
            "engine_errors": *self.engine_errors.lock().unwrap(),
            "wall_s": wall,
        })
    }
}

/// fails with a message built lazily
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } };
}

impl Ctx {
    /// Level-by-level explicit-state search. `step` applies operation `op` to a *clone* of the state and
    /// checks it against the model; Ok(None) means the operation is not enabled.
    pub fn bfs<S: Clone + Send + Sync>(
        &self,
        name: &str,
        init: S,
        nops: usize,
        depth: usize,
        step: impl Fn(&S, usize, &mut Tally) -> Result<Option<S>, String> + Sync,
        key: impl Fn(&S) -> u64 + Sync,
    ) {
        current::space(name);
        if let Some((s, choices)) = &self.only {
            if s == name {
                let mut t = Tally { want_sample: true, ..Default::default() };
                let body = |_: &mut Chooser, t: &mut Tally| -> Result<(), String> {
                    let mut st = init.clone();
                    for &c in choices {
                        match step(&st, c as usize, t)? {
                            Some(n) => st = n,
                            None => panic!("replay: operation {c} not enabled"),
                        }
                    }
                    Ok(())
                };
                self.run_one(name, vec![], &mut t, &body);
            }
            return;
        }
        if !self.engine_errors.lock().unwrap().is_empty() {
            return;
        }
        let viol_before = self.violations.lock().unwrap().len();
        let mut seen: HashSet<u64> = HashSet::new();
        seen.insert(key(&init));
        self.total.lock().unwrap().states.insert(hash_of(&(name, key(&init))));
        let mut frontier: Vec<(S, Vec<u32>)> = vec![(init, vec![])];
        let mut total_tr = 0u64;
        let mut complete = true;
        for _ in 0..depth {
            let next: Mutex<Vec<(S, Vec<u32>, u64)>> = Mutex::new(vec![]);
            let idx = AtomicU64::new(0);
            let fr = &frontier;
            std::thread::scope(|s| {
                for w in 0..self.threads {
                    let (next, idx, step, key, seen) = (&next, &idx, &step, &key, &seen);
                    s.spawn(move || {
                        let mut t = Tally { want_sample: w == 0, ..Default::default() };
                        let mut local = vec![];
                        loop {
                            let i = idx.fetch_add(1, Ordering::Relaxed) as usize;
                            if i >= fr.len() || Instant::now() > self.deadline {
                                break;
                            }
                            let (st, path) = &fr[i];
                            for op in 0..nops {
                                let mut res = None;
                                let body_res = {
                                    LAST_PANIC.with(|p| *p.borrow_mut() = None);
                                    current::enter(path, Some(op as u32));
                                    let r = catch_unwind(AssertUnwindSafe(|| step(st, op, &mut t)));
                                    current::leave();
                                    r
                                };
                                let err = match body_res {
                                    Ok(Ok(n)) => {
                                        res = n;
                                        None
                                    }
                                    Ok(Err(e)) => Some(e),
                                    Err(_) => {
                                        let (loc, msg) = LAST_PANIC
                                            .with(|p| p.borrow_mut().take())
                                            .unwrap_or_default();
                                        if is_harness(&loc) {
                                            self.engine_errors
                                                .lock()
                                                .unwrap()
                                                .push(format!("{name} {path:?}+{op}: {loc}: {msg}"));
                                            None
                                        } else {
                                            Some(format!("panicked at {}: {}", short_loc(&loc), msg))
                                        }
                                    }
                                };
                                if let Some(detail) = err {
                                    let mut choices = path.clone();
                                    choices.push(op as u32);
                                    let mut v = self.violations.lock().unwrap();
                                    if v.len() < viol_before + MAX_VIOL_PER_SPACE {
                                        v.push(Violation { space: name.to_string(), choices, detail });
                                    }
                                }
                                if let Some(n) = res {
                                    t.step();
                                    let k = key(&n);
                                    if !seen.contains(&k) {
                                        let mut p = path.clone();
                                        p.push(op as u32);
                                        local.push((n, p, k));
                                    }
                                }
                            }
                        }
                        next.lock().unwrap().extend(local);
                        self.total.lock().unwrap().merge(t);
                    });
                }
            });
            if Instant::now() > self.deadline {
                complete = false;
            }
            let mut nx = next.into_inner().unwrap();
            nx.sort_by(|a, b| a.1.cmp(&b.1));
            frontier = vec![];
            let mut tot = self.total.lock().unwrap();
            for (s, p, k) in nx {
                if seen.insert(k) {
                    tot.states.insert(hash_of(&(name, k)));
                    frontier.push((s, p));
                }
            }
            total_tr = tot.transitions;
            drop(tot);
            if frontier.is_empty()
                || !complete
                || self.violations.lock().unwrap().len() > viol_before
                || !self.engine_errors.lock().unwrap().is_empty()
            {
                break;
            }
        }
        let _ = total_tr;
        self.spaces.lock().unwrap().push((name.to_string(), seen.len() as u64, complete));
    }
}
