//! Compares the reduced exploration (partial order, sleep sets, symmetry) with plain enumeration of all interleavings on
//! every small program over the shims: both must see the same set of outcomes.
use sched_rt as rt;
use shim_std::sync::atomic::{AtomicU32, Ordering};
use shim_std::sync::mpsc;
use std::collections::BTreeSet;
use std::sync::Mutex as Real;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    LockAdd,
    TryLock,
    Load,
    Store1,
    Add,
    LoadY,
    AddY,
    Send,
    Recv,
    TryRecv,
    Wait,
    Wake,
    StoreWake,
}
use Op::*;
const OPS: [Op; 13] = [LockAdd, TryLock, Load, Store1, Add, LoadY, AddY, Send, Recv, TryRecv, Wait, Wake, StoreWake];

fn outcomes(prog: &[&Vec<Op>], cap: usize, reduce: bool, spurious: u32, detours: Option<(u32, u32)>) -> (BTreeSet<String>, u64) {
    let mut set = BTreeSet::new();
    rt::SYMMETRY.store(reduce, std::sync::atomic::Ordering::SeqCst);
    let mut ex = rt::Explorer::new();
    ex.reduce = reduce;
    ex.spurious = spurious;
    if let Some((p, d)) = detours {
        (ex.policy, ex.detours) = (p, Some(d));
    }
    loop {
        let log: Real<Vec<(usize, Vec<u32>)>> = Real::new(vec![]);
        let fin = Real::new(0u32);
        let run = ex.next(|| {
            let m = shim_std::sync::Mutex::new(0u32);
            let x = AtomicU32::new(0);
            let y = AtomicU32::new(0);
            let (tx, rx) = mpsc::sync_channel::<u32>(cap);
            let rx = shim_std::sync::Mutex::new(rx);
            shim_std::thread::scope(|s| {
                for p in prog {
                    let (m, x, y, tx, rx, log) = (&m, &x, &y, &tx, &rx, &log);
                    let p: &Vec<Op> = p;
                    s.spawn(move || {
                        let mut o = vec![];
                        for op in p {
                            o.push(match op {
                                LockAdd => {
                                    let mut g = m.lock().unwrap();
                                    *g += 1;
                                    *g
                                }
                                TryLock => m.try_lock().map(|g| *g).unwrap_or(99),
                                Load => x.load(Ordering::SeqCst),
                                Store1 => {
                                    x.store(1, Ordering::SeqCst);
                                    0
                                }
                                Add => x.fetch_add(1, Ordering::SeqCst),
                                LoadY => y.load(Ordering::SeqCst),
                                AddY => y.fetch_add(1, Ordering::SeqCst),
                                Send => tx.send(7).map(|_| 0).unwrap_or(1),
                                Recv => rx.lock().unwrap().recv().unwrap_or(98),
                                TryRecv => rx.lock().unwrap().try_recv().unwrap_or(97),
                                Wait => {
                                    shim_atomic_wait::wait(x, 0);
                                    x.load(Ordering::SeqCst)
                                }
                                Wake => {
                                    shim_atomic_wait::wake_one(x);
                                    0
                                }
                                StoreWake => {
                                    x.store(1, Ordering::SeqCst);
                                    shim_atomic_wait::wake_one(x);
                                    0
                                }
                            });
                        }
                        log.lock().unwrap().push((p as *const Vec<Op> as usize, o));
                    });
                }
            });
            *fin.lock().unwrap() = x.peek();
            0
        });
        let Some(run) = run else { break };
        if run.end == rt::End::Pruned {
            continue;
        }
        let mut l = log.into_inner().unwrap();
        l.sort();
        let end = match &run.end {
            rt::End::Deadlock(_) => {
                // which threads finished and what they saw is the outcome
                "deadlock".to_string()
            }
            e => format!("{e:?}"),
        };
        set.insert(format!("{end} {l:?} {}", fin.into_inner().unwrap()));
        assert!(!matches!(run.end, rt::End::Diverged(_)), "{:?}", run.end);
    }
    (set, ex.executions)
}

pub fn run(thorough: bool) -> i32 {
    rt::UNLOCK_POINTS.store(true, std::sync::atomic::Ordering::SeqCst);
    rt::POLLED.store(true, std::sync::atomic::Ordering::SeqCst);
    let one: Vec<Vec<Op>> = OPS.iter().map(|o| vec![*o]).collect();
    let mut two: Vec<Vec<Op>> = vec![];
    for a in OPS {
        for b in OPS {
            two.push(vec![a, b]);
        }
    }
    let (mut n, mut full, mut red) = (0u64, 0, 0);
    let mut check = |prog: Vec<&Vec<Op>>, cap: usize, sp: u32| {
        let (a, x) = outcomes(&prog, cap, false, sp, None);
        let (b, y) = outcomes(&prog, cap, true, sp, None);
        // few detours see part of the outcomes, more detours no fewer, and enough of them all of them
        if prog.len() == 2 {
            let p = (n % 4) as u32;
            let d: Vec<_> = [0, 1, 2, 99].iter().map(|d| outcomes(&prog, cap, false, sp, Some((p, *d)))).collect();
            if d[3].0 != a || d[3].1 != x || d[0].1 != 1 || d.windows(2).any(|w| !w[0].0.is_subset(&w[1].0) || w[0].1 > w[1].1) {
                println!("DIFFERENT detours {prog:?} {:?}", d.iter().map(|x| x.1).collect::<Vec<_>>());
                return false;
            }
        }
        n += 1;
        full += x;
        red += y;
        if a != b {
            println!("DIFFERENT cap {cap} spurious {sp} {prog:?}\n missing {:?}\n extra {:?}", a.difference(&b).collect::<Vec<_>>(), b.difference(&a).collect::<Vec<_>>());
            return false;
        }
        true
    };
    let mut ok = true;
    for (i, a) in two.iter().enumerate() {
        for b in &two[i..] {
            ok &= check(vec![a, b], 1, 0);
        }
    }
    for (i, a) in one.iter().enumerate() {
        for (j, b) in one.iter().enumerate().skip(i) {
            for c in &one[j..] {
                for cap in 0..=if thorough { 1 } else { 0 } {
                    ok &= check(vec![a, b, c], cap, 1);
                }
            }
        }
    }
    if thorough {
        for (i, a) in two.iter().enumerate() {
            for b in &two[i..] {
                for c in one.iter() {
                    if OPS.iter().position(|o| *o == c[0]).unwrap() % 3 == 2 {
                        ok &= check(vec![a, b, c], 0, 0);
                    }
                }
            }
        }
    }
    println!("{n} programs, {full} interleavings, {red} after reduction, {}", if ok { "same outcomes" } else { "DIFFERENT" });
    !ok as i32
}
