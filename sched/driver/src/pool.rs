//! C03: programs of concurrent operations on the real object pool.
use super::{watchdog, Tally};
use reductionml_core::object_pool::Pool;
use sched_rt as rt;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// An object with an identity; a fresh one takes the next number.
#[derive(Debug, PartialEq, Eq)]
struct Token(u64);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Default for Token {
    fn default() -> Token {
        Token(1000 + NEXT.fetch_add(1, SeqCst))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Get,
    /// Returns the object taken longest ago, or one made elsewhere when none is held.
    Put,
    Len,
    IsEmpty,
}
const OPS: [Op; 4] = [Op::Get, Op::Put, Op::Len, Op::IsEmpty];

#[derive(Clone, Debug)]
enum Done {
    Got(u64),
    Put(u64),
    Len(usize),
    Empty(bool),
}
#[derive(Clone, Debug)]
struct Call {
    thread: usize,
    begin: u64,
    end: u64,
    what: Done,
}

pub fn jobs(only: &Option<(String, Vec<u32>)>, thorough: bool) -> Vec<(Value, Vec<String>)> {
    let mut v = vec![];
    let mut shapes: Vec<(Vec<usize>, usize)> = vec![];
    for initial in 0..=2 {
        shapes.push((vec![2, 2], initial));
        shapes.push((vec![1, 1, 1], initial));
        shapes.push((vec![3, 2], initial));
        if thorough {
            shapes.push((vec![3, 3], initial));
            shapes.push((vec![2, 2, 1], initial));
            shapes.push((vec![1, 1, 1, 1], initial));
            shapes.push((vec![4, 2], initial));
        }
    }
    shapes.push((vec![2, 1, 1], 1));
    if thorough {
        shapes.push((vec![2, 2, 2], 1));
    }
    for (shape, initial) in shapes {
        let total: usize = 4usize.pow(shape.iter().sum::<usize>() as u32);
        let parts = if total > 2000 { 8 } else { 1 };
        for part in 0..parts {
            let name = format!("operations per thread {shape:?}, {initial} pooled, part {part} of {parts}");
            let mut schedule = Value::Null;
            if let Some((n, c)) = only {
                if *n != name {
                    continue;
                }
                schedule = json!(c);
            }
            v.push((json!({"kind": "pool", "property": "C03", "name": name, "shape": shape, "initial": initial, "part": part, "parts": parts, "schedule": schedule}), vec![]));
        }
    }
    v
}

pub fn child(job: &Value) -> Value {
    watchdog(job.clone());
    let shape: Vec<usize> = job["shape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let initial = job["initial"].as_u64().unwrap() as usize;
    let (part, parts) = (job["part"].as_u64().unwrap() as usize, job["parts"].as_u64().unwrap() as usize);
    let deadline = Instant::now() + Duration::from_millis(job["millis"].as_u64().unwrap());
    let total = 4usize.pow(shape.iter().sum::<usize>() as u32);
    rt::UNLOCK_POINTS.store(true, SeqCst);
    let mut all = rt::Explorer::new();
    let mut t = Tally::default();
    t.complete = true;
    let forced: Option<Vec<u32>> = job["schedule"].as_array().map(|f| f.iter().map(|x| x.as_u64().unwrap() as u32).collect());
    'programs: for code in 0..total {
        if code % parts != part || forced.as_ref().is_some_and(|f| f[0] as usize != code) {
            continue;
        }
        let mut c = code;
        let mut prog: Vec<Vec<Op>> = vec![];
        for &n in &shape {
            let mut p = vec![];
            for _ in 0..n {
                p.push(OPS[c % 4]);
                c /= 4;
            }
            prog.push(p);
        }
        // threads with equal numbers of operations are interchangeable
        if (1..prog.len()).any(|i| shape[i] == shape[i - 1] && key(&prog[i]) < key(&prog[i - 1])) {
            continue;
        }
        let mut ex = rt::Explorer::new();
        loop {
            let calls: Mutex<Vec<Call>> = Mutex::new(vec![]);
            let finals: Mutex<Vec<u64>> = Mutex::new(vec![]);
            let clock = AtomicU64::new(0);
            NEXT.store(0, SeqCst);
            let program = || {
                let pool: Pool<Token> = Pool::new();
                for i in 0..initial {
                    pool.return_object(Token(i as u64));
                }
                shim_std::thread::scope(|s| {
                    for (ti, ops) in prog.iter().enumerate() {
                        let (pool, calls, clock) = (&pool, &calls, &clock);
                        s.spawn(move || {
                            let mut held: Vec<Token> = vec![];
                            for (k, op) in ops.iter().enumerate() {
                                let begin = clock.fetch_add(1, SeqCst);
                                let what = match op {
                                    Op::Get => {
                                        let x = pool.get_object();
                                        let id = x.0;
                                        held.push(x);
                                        Done::Got(id)
                                    }
                                    Op::Put => {
                                        let x = if held.is_empty() { Token(100 + (ti * 10 + k) as u64) } else { held.remove(0) };
                                        let id = x.0;
                                        pool.return_object(x);
                                        Done::Put(id)
                                    }
                                    Op::Len => Done::Len(pool.len()),
                                    Op::IsEmpty => Done::Empty(pool.is_empty()),
                                };
                                let end = clock.fetch_add(1, SeqCst);
                                calls.lock().unwrap().push(Call { thread: ti, begin, end, what });
                            }
                        });
                    }
                });
                let n = pool.len();
                let mut f = finals.lock().unwrap();
                f.push(n as u64);
                for _ in 0..n {
                    f.push(pool.get_object().0);
                }
                0
            };
            let run = match &forced {
                Some(f) => ex.replay(f[1..].to_vec(), program),
                None => match ex.next(program) {
                    Some(r) => r,
                    None => break,
                },
            };
            if run.end == rt::End::Pruned {
                continue;
            }
            if let rt::End::Diverged(m) = &run.end {
                t.errors.push(format!("divergence: {m}"));
                break 'programs;
            }
            t.runs += 1;
            let calls = calls.into_inner().unwrap();
            let finals = finals.into_inner().unwrap();
            let bad = if let Some(r) = run.races.first() {
                Some(format!("data race: {r}"))
            } else if run.end != rt::End::Exit(0) {
                Some(format!("{:?} {:?}", run.end, run.panics))
            } else {
                explain(initial, &calls, &finals)
            };
            if t.sample.is_null() && code > total / 3 {
                t.sample = json!({"program": format!("{prog:?}"), "initial": initial, "calls": format!("{calls:?}"), "left in the pool": finals[1..]});
            }
            if let Some(d) = bad {
                let mut ch = vec![code as u32];
                ch.extend(&run.schedule);
                if t.violations.len() < 3 {
                    t.violations.push(json!({"space": job["name"], "choices": ch, "detail": format!("{d}; program {prog:?}, calls {calls:?}, finally {finals:?}")}));
                }
                t.bad += 1;
                if t.bad > 20 {
                    break 'programs;
                }
            }
            if forced.is_some() {
                break;
            }
            if Instant::now() > deadline {
                t.complete = false;
                break 'programs;
            }
        }
        t.distinct.insert(code as u64);
        all.executions += ex.executions;
        all.transitions += ex.transitions;
        all.states += ex.states;
        all.pruned += ex.pruned;
        all.deepest = all.deepest.max(ex.deepest);
    }
    t.report(&all)
}

fn key(p: &[Op]) -> Vec<usize> {
    p.iter().map(|o| OPS.iter().position(|x| x == o).unwrap()).collect()
}

/// None when some order of the calls, consistent with their real-time order, explains every result.
fn explain(initial: usize, calls: &[Call], finals: &[u64]) -> Option<String> {
    let mut pool: Vec<u64> = (0..initial as u64).collect();
    let mut used = vec![false; calls.len()];
    let mut made = std::collections::HashSet::new();
    if search(&mut pool, &mut used, calls, finals, &mut made) {
        None
    } else {
        Some("no sequential order of the calls explains their results".into())
    }
}

fn search(pool: &mut Vec<u64>, used: &mut Vec<bool>, calls: &[Call], finals: &[u64], made: &mut std::collections::HashSet<u64>) -> bool {
    if used.iter().all(|x| *x) {
        let mut a = pool.clone();
        let mut b = finals[1..].to_vec();
        a.sort();
        b.sort();
        return finals[0] as usize == pool.len() && a == b;
    }
    for i in 0..calls.len() {
        // callable next: not used, and no unused call ended before it began
        if used[i] || (0..calls.len()).any(|j| !used[j] && j != i && calls[j].end < calls[i].begin) {
            continue;
        }
        used[i] = true;
        let ok = match &calls[i].what {
            Done::Got(id) => {
                if let Some(k) = pool.iter().position(|x| x == id) {
                    pool.remove(k);
                    let r = search(pool, used, calls, finals, made);
                    pool.insert(k, *id);
                    r
                } else if pool.is_empty() && *id >= 1000 && made.insert(*id) {
                    let r = search(pool, used, calls, finals, made);
                    made.remove(id);
                    r
                } else {
                    false
                }
            }
            Done::Put(id) => {
                pool.push(*id);
                let r = search(pool, used, calls, finals, made);
                pool.pop();
                r
            }
            Done::Len(n) => *n == pool.len() && search(pool, used, calls, finals, made),
            Done::Empty(b) => *b == pool.is_empty() && search(pool, used, calls, finals, made),
        };
        used[i] = false;
        if ok {
            return true;
        }
    }
    let _ = calls.first().map(|c| c.thread);
    false
}
