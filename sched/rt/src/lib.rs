//! A cooperative scheduler that runs real code on OS threads, one at a time, and enumerates every schedule
//! (dynamic partial-order reduction with sleep sets). The shims of std, parking_lot, flume and atomic-wait
//! announce each visible operation with `point`; everything between two points is one transition.
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex, MutexGuard};

pub const MAX: usize = 12;
pub type Clock = [u32; MAX];

fn join(a: &mut Clock, b: &Clock) {
    for i in 0..MAX {
        a[i] = a[i].max(b[i]);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    /// Commutes with everything (thread start, joins, being woken).
    Local,
    Read,
    Write,
    /// Ordered with operations on the object, but never enabled together with one (unlock).
    Release,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Sig {
    pub obj: u32,
    pub acc: Acc,
    /// A second object, or 0.
    pub obj2: u32,
    pub acc2: Acc,
    pub name: &'static str,
}

fn dependent(a: &Sig, b: &Sig) -> bool {
    for (o, x) in [(a.obj, a.acc), (a.obj2, a.acc2)] {
        for (p, y) in [(b.obj, b.acc), (b.obj2, b.acc2)] {
            if o != 0 && o == p && x != Acc::Local && y != Acc::Local && !(x == Acc::Read && y == Acc::Read) {
                return true;
            }
        }
    }
    false
}

#[derive(Clone)]
enum Node {
    Sched { enabled: u32, backtrack: u32, done: u32, sleep: u32, chosen: usize, sigs: [Option<Sig>; MAX], reps: [u8; MAX], usual: usize },
    Choice { n: u32, cur: u32 },
}

struct Thr {
    pending: Option<Sig>,
    enabled: Option<*const dyn Fn() -> bool>,
    /// A futex wait only looks at the value when that has changed, and joins the waiters otherwise.
    futex: Option<(*const dyn Fn() -> bool, u32, u32)>,
    finished: bool,
    /// Threads of one class (not 0) run the same code on the same captures: they are interchangeable until they move.
    class: u64,
    moved: bool,
    /// Object, operation, version of the object and how often in a row this thread has tried just that.
    spin: (u32, &'static str, u64, u32),
    clock: Clock,
    sync: Clock,
    acq_pending: Clock,
    rel_fence: Clock,
}
unsafe impl Send for Thr {}

struct Ev {
    thread: usize,
    sig: Sig,
    local: u32,
    node: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// The root thread returned or panicked, or the process was asked to exit.
    Exit(i32),
    Panic(String),
    Deadlock(String),
    TooLong,
    /// Every continuation is explored elsewhere.
    Pruned,
    Diverged(String),
}

#[derive(Default)]
struct ObjState {
    writes: Clock,
    all: Clock,
    /// What an acquire on this object receives.
    sync: Clock,
}

struct State {
    threads: Vec<Thr>,
    trace: Vec<Ev>,
    stack: Vec<Node>,
    depth: usize,
    replay_len: usize,
    objs: HashMap<u32, ObjState>,
    cells: HashMap<u32, Clock>,
    next_obj: u32,
    current: usize,
    abort: bool,
    end: Option<End>,
    races: Vec<String>,
    spurious: u32,
    panics: Vec<String>,
    forced: Option<Vec<u32>>,
    record: Vec<u32>,
    max_steps: usize,
    reduce: bool,
    versions: HashMap<u32, u64>,
    yielded: Option<(usize, usize)>,
    futex: Vec<(u32, usize, bool)>,
    waiter_ids: HashMap<u32, u32>,
    /// Instead of every schedule: those that differ from the usual one in at most so many places.
    detours: Option<u32>,
    taken: u32,
    policy: u32,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static TURN: [(Mutex<bool>, Condvar); MAX] = [const { (Mutex::new(false), Condvar::new()) }; MAX];
static EPOCH: AtomicU64 = AtomicU64::new(1);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static RUNNING: AtomicBool = AtomicBool::new(false);
pub static UNLOCK_POINTS: AtomicBool = AtomicBool::new(false);
pub static SYMMETRY: AtomicBool = AtomicBool::new(true);
pub static TRY_SEEN: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static TID: Cell<Option<usize>> = const { Cell::new(None) };
}

struct Abort;

fn lock() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn controlled() -> bool {
    TID.with(|t| t.get().is_some())
}

/// The identity of a shim object, assigned at its first use in each execution.
pub struct Obj(AtomicU64);
impl Obj {
    pub const fn new() -> Obj {
        Obj(AtomicU64::new(0))
    }
    fn id(&self, s: &mut State) -> u32 {
        let e = EPOCH.load(SeqCst);
        let v = self.0.load(SeqCst);
        if v >> 32 == e {
            return v as u32;
        }
        s.next_obj += 1;
        self.0.store(e << 32 | s.next_obj as u64, SeqCst);
        s.next_obj
    }
}
impl Default for Obj {
    fn default() -> Self {
        Obj::new()
    }
}

fn wake(t: usize) {
    let (m, c) = &TURN[t];
    *m.lock().unwrap() = true;
    c.notify_one();
}

fn sleep_until_turn(t: usize) {
    let (m, c) = &TURN[t];
    let mut g = m.lock().unwrap();
    while !*g {
        g = c.wait(g).unwrap();
    }
    *g = false;
}

/// So many equal looks in a row are waiting.
const SPIN: u32 = 8;

impl State {
    fn version(&self, s: &Sig) -> u64 {
        self.versions.get(&s.obj).copied().unwrap_or(0) + self.versions.get(&s.obj2).copied().unwrap_or(0)
    }

    fn is_enabled(&self, t: usize) -> bool {
        let th = &self.threads[t];
        if th.finished || th.pending.is_none() {
            return false;
        }
        let p = th.pending.unwrap();
        if th.spin.3 >= SPIN && p.obj == th.spin.0 && p.name == th.spin.1 && self.version(&p) == th.spin.2 {
            return false; // it is looking at the same thing again and again: wait until that changes
        }
        match th.enabled {
            None => true,
            Some(f) => unsafe { (*f)() },
        }
    }

    /// Chooses the next thread to run. Err ends the execution.
    fn choose(&mut self) -> Result<usize, End> {
        STEPS.fetch_add(1, SeqCst);
        if self.trace.len() >= self.max_steps {
            return Err(End::TooLong);
        }
        let mut enabled = 0u32;
        for t in 0..self.threads.len() {
            if self.is_enabled(t) {
                enabled |= 1 << t;
            }
        }
        for t in 0..self.threads.len() {
            if enabled & 1 << t != 0 && self.first_of_class(t) != t {
                enabled &= !(1 << t);
            }
        }
        for t in 0..self.threads.len() {
            if self.refresh(t) && !self.threads[t].finished {
                self.announced(t);
            }
        }
        if enabled == 0 {
            let w: Vec<String> = (0..self.threads.len())
                .filter(|&t| !self.threads[t].finished)
                .map(|t| format!("thread {t} in {}", self.threads[t].pending.map(|p| p.name).unwrap_or("?")))
                .collect();
            return Err(End::Deadlock(w.join(", ")));
        }
        let d = self.depth;
        let t = if let Some(f) = &self.forced {
            let t = if d < f.len() { f[d] as usize } else if let Some(t) = self.usual(enabled) { t } else if enabled & 1 << self.current != 0 { self.current } else { enabled.trailing_zeros() as usize };
            if enabled & 1 << t == 0 {
                return Err(End::Diverged(format!("thread {t} is not enabled at step {d}")));
            }
            t
        } else if d < self.stack.len() {
            match &self.stack[d] {
                Node::Sched { chosen, sigs, usual, .. } => {
                    let c = *chosen;
                    self.taken += (c != *usual) as u32;
                    if enabled & 1 << c == 0 || sigs[c] != self.threads[c].pending {
                        return Err(End::Diverged(format!(
                            "step {d}: thread {c} was at {:?}, now at {:?}, enabled {enabled:b}",
                            sigs[c],
                            self.threads.get(c).map(|x| x.pending)
                        )));
                    }
                    c
                }
                _ => return Err(End::Diverged(format!("step {d} was a choice"))),
            }
        } else {
            let mut sleep = 0u32;
            if self.reduce {
                // the last schedule node tells which threads sleep here
                for n in self.stack.iter().rev() {
                    if let Node::Sched { sleep: z, done, chosen, sigs, .. } = n {
                        let me = sigs[*chosen].unwrap();
                        for q in 0..self.threads.len() {
                            if (z | done) & 1 << q != 0 && q != *chosen && !dependent(&sigs[q].unwrap(), &me) {
                                sleep |= 1 << q;
                            }
                        }
                        break;
                    }
                }
            }
            let avail = enabled & !sleep;
            if avail == 0 {
                return Err(End::Pruned);
            }
            // go on with the same thread, unless it offers to wait
            let mut calm = avail;
            if self.yielded == Some((self.current, self.trace.len())) && avail & !(1 << self.current) != 0 {
                calm &= !(1 << self.current);
            }
            let t = if let Some(t) = self.usual(calm) {
                t
            } else if calm & 1 << self.current != 0 {
                self.current
            } else { (calm.rotate_right(self.current as u32).trailing_zeros() as usize + self.current) % 32 };
            let mut sigs = [None; MAX];
            for (i, th) in self.threads.iter().enumerate() {
                sigs[i] = if th.finished { None } else { th.pending };
            }
            let mut reps: [u8; MAX] = std::array::from_fn(|i| i as u8);
            for (i, r) in reps.iter_mut().enumerate().take(self.threads.len()) {
                *r = self.first_of_class(i) as u8;
            }
            let backtrack = if self.reduce || self.detours.is_some_and(|d| self.taken >= d) { 1 << t } else { enabled };
            self.stack.push(Node::Sched { enabled, backtrack, done: 0, sleep, chosen: t, sigs, reps, usual: t });
            t
        };
        self.record.push(t as u32);
        self.depth += 1;
        self.execute(t, d);
        Ok(t)
    }

    /// The thread that goes next in the schedule from which others differ in a few places. None: go on with the same.
    fn usual(&self, calm: u32) -> Option<usize> {
        self.detours?;
        match self.policy {
            1 => Some((calm.rotate_right(self.current as u32 + 1).trailing_zeros() as usize + self.current + 1) % 32), // take turns
            2 => Some(calm.trailing_zeros() as usize),                                                                // the oldest
            3 => Some(31 - calm.leading_zeros() as usize),                                                            // the youngest
            _ => None,
        }
    }

    /// Bookkeeping for the transition that thread `t` now makes.
    fn execute(&mut self, t: usize, node: usize) {
        let sig = self.threads[t].pending.take().unwrap();
        self.threads[t].enabled = None;
        self.threads[t].futex = None;
        self.threads[t].moved |= sig.name != "start";
        if sig.acc != Acc::Local {
            for (x, acc) in [(sig.obj, sig.acc), (sig.obj2, sig.acc2)] {
                if x != 0 {
                    let o = self.objs.entry(x).or_default();
                    let from = if acc == Acc::Read { o.writes } else { o.all };
                    join(&mut self.threads[t].clock, &from);
                }
            }
        }
        self.threads[t].clock[t] += 1;
        let c = self.threads[t].clock;
        let seen = self.version(&sig);
        if sig.acc != Acc::Local {
            for (x, acc) in [(sig.obj, sig.acc), (sig.obj2, sig.acc2)] {
                if x != 0 {
                    let o = self.objs.get_mut(&x).unwrap();
                    join(&mut o.all, &c);
                    if acc != Acc::Read {
                        join(&mut o.writes, &c);
                        *self.versions.entry(x).or_default() += 1;
                    }
                }
            }
        }
        const LOOKS: [&str; 9] = ["load", "try-recv", "try-send", "try-lock", "compare-exchange", "swap", "len", "senders", "receivers"];
        let after = self.version(&sig);
        let sp = &mut self.threads[t].spin;
        if sig.name != "yield" {
            if LOOKS.contains(&sig.name) && sp.0 == sig.obj && sp.1 == sig.name && sp.2 == seen {
                *sp = (sig.obj, sig.name, after, sp.3 + 1);
            } else {
                *sp = (sig.obj, sig.name, after, 1);
            }
        }
        self.trace.push(Ev { thread: t, sig, local: c[t], node });
        self.current = t;
        if self.reduce && self.forced.is_none() && node + 1 >= self.replay_len && sig.acc != Acc::Release {
            for p in 0..self.threads.len() {
                if p == t || self.threads[p].finished {
                    continue;
                }
                if let Some(ps) = self.threads[p].pending {
                    if ps.acc != Acc::Release && dependent(&ps, &sig) {
                        let p = self.first_of_class(p);
                        self.add_backtrack(node, 1 << p);
                    }
                }
            }
        }
    }

    /// The interchangeable thread that is to move first.
    fn first_of_class(&self, t: usize) -> usize {
        let th = &self.threads[t];
        if th.class == 0 || th.moved {
            return t;
        }
        (0..t).find(|&u| self.threads[u].class == th.class && !self.threads[u].moved && !self.threads[u].finished).unwrap_or(t)
    }

    fn refresh(&mut self, t: usize) -> bool {
        let th = &mut self.threads[t];
        let (Some((f, value, waiters)), Some(p)) = (th.futex, th.pending) else { return false };
        let (obj2, acc2) = if unsafe { (*f)() } { (waiters, Acc::Write) } else { (0, Acc::Local) };
        let new = Sig { obj: value, acc: Acc::Read, obj2, acc2, name: p.name };
        th.pending = Some(new);
        new != p
    }

    /// Adds one of `want` at the node if it was enabled there, all enabled threads otherwise.
    fn add_backtrack(&mut self, node: usize, want: u32) {
        if let Node::Sched { enabled, backtrack, .. } = &mut self.stack[node] {
            let e = want & *enabled;
            if e == 0 {
                *backtrack |= *enabled;
            } else if e & *backtrack == 0 {
                *backtrack |= 1 << e.trailing_zeros();
            }
        }
    }

    /// A thread announced its next operation: races with the past.
    fn announced(&mut self, p: usize) {
        let sig = self.threads[p].pending.unwrap();
        if !self.reduce || self.forced.is_some() || sig.acc == Acc::Local || sig.acc == Acc::Release || self.depth < self.replay_len {
            return;
        }
        let pc = self.threads[p].clock;
        for i in (0..self.trace.len()).rev() {
            let e = &self.trace[i];
            if e.thread == p || e.sig.acc == Acc::Release || !dependent(&e.sig, &sig) || pc[e.thread] >= e.local {
                continue;
            }
            let mut want = 1u32 << p;
            if let Node::Sched { reps, .. } = &self.stack[e.node] {
                want |= 1 << reps[p];
            }
            for f in &self.trace[i + 1..] {
                if pc[f.thread] >= f.local {
                    want |= 1 << f.thread;
                }
            }
            let node = e.node;
            self.add_backtrack(node, want);
            break;
        }
    }

    fn waiters_of(&mut self, id: u32) -> u32 {
        if let Some(w) = self.waiter_ids.get(&id) {
            return *w;
        }
        self.next_obj += 1;
        self.waiter_ids.insert(id, self.next_obj);
        self.next_obj
    }

    fn next_unfinished(&self) -> Option<usize> {
        (0..self.threads.len()).rev().find(|&t| !self.threads[t].finished)
    }
}

fn unwind() {
    if !std::thread::panicking() {
        resume_unwind(Box::new(Abort));
    }
}

/// The calling thread ends the execution: the others are unwound first, the youngest before its parents.
fn end_execution(mut g: MutexGuard<'static, Option<State>>, me: usize, end: End) {
    let s = g.as_mut().unwrap();
    if s.end.is_none() {
        s.end = Some(end);
    }
    s.abort = true;
    let next = s.next_unfinished().unwrap();
    drop(g);
    if next != me {
        wake(next);
        sleep_until_turn(me);
    }
    unwind();
}

/// Announces the next visible operation of this thread and returns when it is scheduled.
pub fn point(obj: &Obj, acc: Acc, name: &'static str, enabled: Option<&dyn Fn() -> bool>) {
    point2(obj, None, acc, name, enabled)
}

/// An operation on two objects at once.
pub fn point2(obj: &Obj, obj2: Option<&Obj>, acc: Acc, name: &'static str, enabled: Option<&dyn Fn() -> bool>) {
    point3(obj, obj2, acc, name, enabled, None)
}

fn point3(obj: &Obj, obj2: Option<&Obj>, acc: Acc, name: &'static str, enabled: Option<&dyn Fn() -> bool>, futex: Option<&dyn Fn() -> bool>) {
    let Some(me) = TID.with(|t| t.get()) else { return };
    let mut g = lock();
    let s = g.as_mut().unwrap();
    if s.abort {
        drop(g);
        unwind();
        return;
    }
    let id = if acc == Acc::Local { 0 } else { obj.id(s) };
    let id2 = obj2.map(|o| o.id(s)).unwrap_or(0);
    s.threads[me].pending = Some(Sig { obj: id, acc, obj2: id2, acc2: acc, name });
    // the closure outlives its use: this thread stays inside `point` until the operation is scheduled
    s.threads[me].enabled = enabled.map(|f| unsafe { std::mem::transmute::<*const dyn Fn() -> bool, *const (dyn Fn() -> bool + 'static)>(f) });
    if let Some(f) = futex {
        let w = s.waiters_of(id);
        s.threads[me].futex = Some((unsafe { std::mem::transmute::<*const dyn Fn() -> bool, *const (dyn Fn() -> bool + 'static)>(f) }, id, w));
        s.refresh(me);
    }
    s.announced(me);
    match s.choose() {
        Ok(t) if t == me => {}
        Ok(t) => {
            drop(g);
            wake(t);
            sleep_until_turn(me);
            if lock().as_ref().unwrap().abort {
                unwind();
            }
        }
        Err(e) => {
            s.threads[me].enabled = None;
            s.threads[me].futex = None;
            end_execution(g, me, e)
        }
    }
}

/// A data choice among n alternatives, all of them explored.
pub fn choice(n: u32) -> u32 {
    if n <= 1 || !controlled() {
        return 0;
    }
    let mut g = lock();
    let s = g.as_mut().unwrap();
    if s.abort {
        return 0;
    }
    let d = s.depth;
    let c = if let Some(f) = &s.forced {
        if d < f.len() {
            f[d].min(n - 1)
        } else {
            0
        }
    } else if d < s.stack.len() {
        match s.stack[d] {
            Node::Choice { n: m, cur } if m == n => cur,
            _ => {
                let me = TID.with(|t| t.get()).unwrap();
                end_execution(g, me, End::Diverged(format!("step {d} was no choice among {n}")));
                return 0;
            }
        }
    } else {
        s.stack.push(Node::Choice { n, cur: 0 });
        0
    };
    s.record.push(c);
    s.depth += 1;
    c
}

fn with<R>(f: impl FnOnce(&mut State, usize) -> R) -> Option<R> {
    let me = TID.with(|t| t.get())?;
    let mut g = lock();
    let s = g.as_mut()?;
    if s.abort {
        return None;
    }
    Some(f(s, me))
}

pub fn aborting() -> bool {
    controlled() && lock().as_ref().is_some_and(|s| s.abort)
}

// ---- happens-before edges for race detection -------------------------------------------------------------

pub fn sync_acquire(obj: &Obj) {
    with(|s, me| {
        let id = obj.id(s);
        let c = s.objs.entry(id).or_default().sync;
        join(&mut s.threads[me].sync, &c);
    });
}
pub fn sync_release(obj: &Obj) {
    with(|s, me| {
        let id = obj.id(s);
        let c = s.threads[me].sync;
        join(&mut s.objs.entry(id).or_default().sync, &c);
        s.threads[me].sync[me] += 1;
    });
}
/// Both directions: operations of locks and channels.
pub fn sync_both(obj: &Obj) {
    sync_acquire(obj);
    sync_release(obj);
}
/// An atomic access: what it reads from and what it publishes.
pub fn sync_atomic(obj: &Obj, reads: bool, writes: bool, acquire: bool, release: bool) {
    with(|s, me| {
        let id = obj.id(s);
        if reads {
            let c = s.objs.entry(id).or_default().sync;
            if acquire {
                join(&mut s.threads[me].sync, &c);
            }
            join(&mut s.threads[me].acq_pending, &c);
        }
        if writes {
            let c = if release { s.threads[me].sync } else { s.threads[me].rel_fence };
            let o = s.objs.entry(id).or_default();
            if reads {
                join(&mut o.sync, &c); // a read-modify-write continues the release sequence
            } else {
                o.sync = c;
            }
            if release {
                s.threads[me].sync[me] += 1;
            }
        }
    });
}
pub fn sync_fence(acquire: bool, release: bool) {
    with(|s, me| {
        let th = &mut s.threads[me];
        if acquire {
            let c = th.acq_pending;
            join(&mut th.sync, &c);
        }
        if release {
            th.rel_fence = th.sync;
            th.sync[me] += 1;
        }
    });
}
/// An unsynchronised access to a shared cell.
pub fn cell_access(obj: &Obj, name: &'static str) {
    with(|s, me| {
        let id = obj.id(s);
        let mine = s.threads[me].sync;
        let e = s.cells.entry(id).or_insert([0; MAX]);
        for t in 0..MAX {
            if t != me && e[t] > mine[t] {
                s.races.push(format!("threads {t} and {me} access the same {name} without synchronisation"));
                break;
            }
        }
        e[me] = mine[me];
    });
}

// ---- waiting by looking again ----------------------------------------------------------------------------

/// An attempt succeeded: the thread is not waiting.
pub fn progress() {
    with(|s, me| s.threads[me].spin.3 = 0);
}

pub fn yield_now() {
    static O: Obj = Obj::new();
    with(|s, me| {
        let n = s.trace.len();
        s.yielded = Some((me, n));
    });
    point(&O, Acc::Local, "yield", None);
}

/// At most a few times per execution, a wait may return for no reason.
pub fn spurious() -> bool {
    let left = with(|s, _| s.spurious).unwrap_or(0);
    if left == 0 {
        return false;
    }
    let c = choice(2) == 1;
    if c {
        with(|s, _| s.spurious -= 1);
    }
    c
}

// ---- threads ---------------------------------------------------------------------------------------------

/// Registers a child of the calling thread. None when the caller is not controlled.
pub fn register_child(class: u64) -> Option<usize> {
    with(|s, me| {
        let t = s.threads.len();
        assert!(t < MAX, "too many threads");
        let mut clock = s.threads[me].clock;
        clock[t] = 0;
        let mut sync = s.threads[me].sync;
        sync[t] = 1;
        s.threads[me].sync[me] += 1;
        s.threads.push(Thr {
            pending: Some(Sig { obj: 0, acc: Acc::Local, obj2: 0, acc2: Acc::Local, name: "start" }),
            enabled: None,
            futex: None,
            finished: false,
            class: if SYMMETRY.load(SeqCst) { class } else { 0 },
            moved: false,
            spin: (0, "", 0, 0),
            clock,
            sync,
            acq_pending: [0; MAX],
            rel_fence: [0; MAX],
            
        });
        t
    })
}

/// Runs the body of a controlled thread on the current OS thread.
pub fn run_thread<T>(t: usize, f: impl FnOnce() -> T) -> std::thread::Result<T> {
    TID.with(|x| x.set(Some(t)));
    LIVE.fetch_add(1, SeqCst);
    sleep_until_turn(t);
    let aborted = lock().as_ref().unwrap().abort;
    let r = if aborted { Err(Box::new(Abort) as Box<dyn std::any::Any + Send>) } else { catch_unwind(AssertUnwindSafe(f)) };
    if let Err(e) = &r {
        if !e.is::<Abort>() {
            let m = payload(e);
            with(|s, _| s.panics.push(m));
        }
    }
    finish(t);
    r
}

pub fn payload(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

fn finish(t: usize) {
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.threads[t].finished = true;
    s.threads[t].pending = None;
    if s.abort {
        let n = s.next_unfinished();
        drop(g);
        TID.with(|x| x.set(None));
        if let Some(n) = n {
            wake(n);
        }
        return;
    }
    match s.choose() {
        Ok(n) => {
            drop(g);
            TID.with(|x| x.set(None));
            wake(n);
        }
        Err(e) => {
            if s.end.is_none() {
                s.end = Some(e);
            }
            s.abort = true;
            let n = s.next_unfinished();
            drop(g);
            TID.with(|x| x.set(None));
            if let Some(n) = n {
                wake(n);
            }
        }
    }
}

pub fn is_finished(t: usize) -> bool {
    lock().as_ref().unwrap().threads[t].finished
}

/// Blocks until the given threads have finished.
pub fn join_threads(ts: &[usize]) {
    static O: Obj = Obj::new();
    if !controlled() {
        return;
    }
    let ts2: Vec<usize> = ts.to_vec();
    // evaluated by whoever schedules, with the state lock held: reads the flags through the raw state
    let p = with(|s, _| &s.threads as *const Vec<Thr> as usize).unwrap_or(0);
    let f = move || p != 0 && ts2.iter().all(|&t| unsafe { &(*(p as *const Vec<Thr>)) }[t].finished);
    point(&O, Acc::Local, "join", Some(&f));
    with(|s, me| {
        for &t in ts {
            let c = s.threads[t].clock;
            join(&mut s.threads[me].clock, &c);
            let c = s.threads[t].sync;
            join(&mut s.threads[me].sync, &c);
        }
    });
}

/// The calling thread lets `t` go on (a wake-up): everything so far happens before what `t` does next.
pub fn hb_to(t: usize) {
    with(|s, me| {
        let c = s.threads[me].clock;
        join(&mut s.threads[t].clock, &c);
    });
}

/// Both clocks of the calling thread, to be handed to another one along with a message.
#[derive(Clone, Copy, Default)]
pub struct Stamp(Clock, Clock);
pub fn stamp() -> Stamp {
    with(|s, me| {
        let r = Stamp(s.threads[me].clock, s.threads[me].sync);
        s.threads[me].sync[me] += 1;
        r
    })
    .unwrap_or_default()
}
pub fn receive(x: &Stamp) {
    with(|s, me| {
        join(&mut s.threads[me].clock, &x.0);
        join(&mut s.threads[me].sync, &x.1);
    });
}

pub fn tid() -> usize {
    TID.with(|t| t.get()).unwrap_or(usize::MAX)
}

/// The process exits.
pub fn exit(code: i32) -> ! {
    if let Some(me) = TID.with(|t| t.get()) {
        let g = lock();
        end_execution(g, me, End::Exit(code));
        resume_unwind(Box::new(Abort));
    }
    std::process::exit(code)
}

// ---- exploration -----------------------------------------------------------------------------------------

pub struct Run {
    pub end: End,
    pub races: Vec<String>,
    pub panics: Vec<String>,
    pub schedule: Vec<u32>,
    pub steps: usize,
    pub trace: Vec<String>,
}

pub struct Explorer {
    stack: Vec<Node>,
    started: bool,
    pub max_steps: usize,
    pub spurious: u32,
    pub reduce: bool,
    /// Explore only schedules that leave the usual one (see `policy`) at most so often; excludes `reduce`.
    pub detours: Option<u32>,
    /// The usual schedule: 0 goes on with a thread until it blocks, 1 takes turns, 2 and 3 prefer the oldest and the youngest.
    pub policy: u32,
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub pruned: u64,
    pub deepest: usize,
}

impl Explorer {
    pub fn new() -> Explorer {
        Explorer {
            stack: vec![],
            started: false,
            max_steps: 20_000,
            spurious: 1,
            reduce: true,
            detours: None,
            policy: 0,
            executions: 0,
            transitions: 0,
            states: 0,
            pruned: 0,
            deepest: 0,
        }
    }

    /// Moves to the next unexplored schedule. False when there is none.
    fn advance(&mut self) -> bool {
        if !self.started {
            self.started = true;
            return true;
        }
        while let Some(n) = self.stack.last_mut() {
            match n {
                Node::Choice { n, cur } => {
                    if *cur + 1 < *n {
                        *cur += 1;
                        return true;
                    }
                }
                Node::Sched { backtrack, done, sleep, chosen, .. } => {
                    *done |= 1 << *chosen;
                    let next = *backtrack & !*done & !*sleep;
                    if next != 0 {
                        *chosen = next.trailing_zeros() as usize;
                        return true;
                    }
                }
            }
            self.stack.pop();
        }
        false
    }

    /// Runs the next schedule of the program. None when all have been explored.
    pub fn next(&mut self, f: impl FnOnce() -> i32 + Send) -> Option<Run> {
        if !self.advance() {
            return None;
        }
        let before = self.stack.len();
        let stack = std::mem::take(&mut self.stack);
        let (run, stack) = execute(stack, None, self, f);
        self.stack = stack;
        self.executions += 1;
        self.transitions += run.steps as u64;
        self.states += (self.stack.len().saturating_sub(before) + 1) as u64;
        self.deepest = self.deepest.max(run.steps);
        if run.end == End::Pruned {
            self.pruned += 1;
        }
        Some(run)
    }

    pub fn replay(&self, schedule: Vec<u32>, f: impl FnOnce() -> i32 + Send) -> Run {
        execute(vec![], Some(schedule), self, f).0
    }
}

fn execute(stack: Vec<Node>, forced: Option<Vec<u32>>, ex: &Explorer, f: impl FnOnce() -> i32 + Send) -> (Run, Vec<Node>) {
    EPOCH.fetch_add(1, SeqCst);
    for t in TURN.iter() {
        *t.0.lock().unwrap() = false;
    }
    let (max_steps, spurious, reduce) = (ex.max_steps, ex.spurious, ex.reduce && ex.detours.is_none());
    let replay_len = stack.len();
    let mut sync = [0; MAX];
    sync[0] = 1;
    *lock() = Some(State {
        threads: vec![Thr {
            pending: Some(Sig { obj: 0, acc: Acc::Local, obj2: 0, acc2: Acc::Local, name: "start" }),
            enabled: None,
            futex: None,
            finished: false,
            class: 0,
            moved: false,
            spin: (0, "", 0, 0),
            clock: [0; MAX],
            sync,
            acq_pending: [0; MAX],
            rel_fence: [0; MAX],
            
        }],
        trace: vec![],
        stack,
        depth: 0,
        replay_len,
        objs: HashMap::new(),
        cells: HashMap::new(),
        next_obj: 0,
        current: 0,
        abort: false,
        end: None,
        races: vec![],
        spurious,
        panics: vec![],
        forced,
        record: vec![],
        max_steps,
        reduce,
        versions: HashMap::new(),
        yielded: None,
        futex: vec![],
        waiter_ids: HashMap::new(),
        detours: ex.detours,
        taken: 0,
        policy: ex.policy,
    });
    RUNNING.store(true, SeqCst);
    std::thread::scope(|sc| {
        let h = sc.spawn(move || {
            run_thread(0, || {
                let r = catch_unwind(AssertUnwindSafe(f));
                let end = match r {
                    Ok(code) => End::Exit(code),
                    Err(e) if e.is::<Abort>() => resume_unwind(e),
                    Err(e) => End::Panic(payload(&e)),
                };
                // the process ends with its main thread
                let g = lock();
                if g.as_ref().unwrap().abort {
                    return;
                }
                end_execution(g, 0, end);
            })
        });
        {
            let mut g = lock();
            let s = g.as_mut().unwrap();
            let r = s.choose();
            drop(g);
            match r {
                Ok(t) => wake(t),
                Err(e) => {
                    let mut g = lock();
                    let s = g.as_mut().unwrap();
                    s.end = Some(e);
                    s.abort = true;
                    drop(g);
                    wake(0);
                }
            }
        }
        let _ = h.join();
    });
    RUNNING.store(false, SeqCst);
    let s = lock().take().unwrap();
    let trace = s.trace.iter().map(|e| format!("{}:{}@{}", e.thread, e.sig.name, e.sig.obj)).collect();
    (
        Run { end: s.end.unwrap_or(End::Diverged("no end".into())), races: s.races, panics: s.panics, schedule: s.record, steps: s.trace.len(), trace },
        s.stack,
    )
}

/// The schedule so far, for the watchdog.
pub fn schedule_so_far() -> Vec<u32> {
    STATE.try_lock().ok().and_then(|g| g.as_ref().map(|s| s.record.clone())).unwrap_or_default()
}

// ---- building blocks of the shims ------------------------------------------------------------------------

pub mod lock {
    use super::*;
    use std::cell::UnsafeCell;

    /// A lock with shared and exclusive modes, re-entrant on demand. Its state is only touched by the running thread.
    pub struct RawLock {
        id: Obj,
        s: UnsafeCell<(i32, usize, u32)>, // -1 exclusive, n shared; owner; depth
        epoch: UnsafeCell<u64>,           // the run the state belongs to: a lock that outlives a run starts the next one free
    }
    unsafe impl Sync for RawLock {}
    unsafe impl Send for RawLock {}
    impl RawLock {
        pub const fn new() -> RawLock {
            RawLock { id: Obj::new(), s: UnsafeCell::new((0, usize::MAX, 0)), epoch: UnsafeCell::new(0) }
        }
        fn st(&self) -> &mut (i32, usize, u32) {
            let now = EPOCH.load(SeqCst) as u64;
            unsafe {
                if *self.epoch.get() != now {
                    *self.epoch.get() = now;
                    *self.s.get() = (0, usize::MAX, 0);
                }
                &mut *self.s.get()
            }
        }
        pub fn lock(&self) {
            if !controlled() {
                return;
            }
            let f = || self.st().0 == 0;
            point(&self.id, Acc::Write, "lock", Some(&f));
            *self.st() = (-1, tid(), 1);
            sync_acquire(&self.id);
        }
        pub fn lock_reentrant(&self) {
            if controlled() && self.st().0 == -1 && self.st().1 == tid() {
                self.st().2 += 1;
                return;
            }
            self.lock();
        }
        pub fn try_lock(&self) -> bool {
            if !controlled() {
                return true;
            }
            TRY_SEEN.store(true, SeqCst);
            point(&self.id, Acc::Write, "try-lock", None);
            if self.st().0 != 0 {
                return false;
            }
            *self.st() = (-1, tid(), 1);
            progress();
            sync_acquire(&self.id);
            true
        }
        pub fn unlock(&self) {
            if !controlled() {
                return;
            }
            let s = self.st();
            s.2 = s.2.saturating_sub(1);
            if s.2 > 0 {
                return;
            }
            if UNLOCK_POINTS.load(SeqCst) {
                // until the unlock happens others find the lock taken; try-lock can tell, so it may not be ordered away
                point(&self.id, Acc::Write, "unlock", None);
            }
            sync_release(&self.id);
            *self.st() = (0, usize::MAX, 0);
        }
        pub fn lock_shared(&self) {
            if !controlled() {
                return;
            }
            let f = || self.st().0 >= 0;
            point(&self.id, Acc::Write, "read-lock", Some(&f));
            self.st().0 += 1;
            sync_acquire(&self.id);
        }
        pub fn unlock_shared(&self) {
            if !controlled() {
                return;
            }
            if UNLOCK_POINTS.load(SeqCst) {
                point(&self.id, Acc::Write, "read-unlock", None);
            }
            sync_release(&self.id);
            self.st().0 = (self.st().0 - 1).max(0);
        }
        pub fn is_locked(&self) -> bool {
            point(&self.id, Acc::Read, "is-locked", None);
            self.st().0 != 0
        }
    }

    /// Threads waiting to be woken: condition variables and futexes.
    #[derive(Default)]
    pub struct Waiters {
        id: Obj,
        w: UnsafeCell<Vec<(usize, bool)>>,
        epoch: UnsafeCell<u64>,
    }
    unsafe impl Sync for Waiters {}
    unsafe impl Send for Waiters {}
    impl Waiters {
        pub const fn new() -> Waiters {
            Waiters { id: Obj::new(), w: UnsafeCell::new(vec![]), epoch: UnsafeCell::new(0) }
        }
        fn w(&self) -> &mut Vec<(usize, bool)> {
            let now = EPOCH.load(SeqCst) as u64;
            unsafe {
                if *self.epoch.get() != now {
                    *self.epoch.get() = now;
                    (*self.w.get()).clear();
                }
                &mut *self.w.get()
            }
        }
        pub fn enqueue(&self, visible: bool) {
            if visible {
                point(&self.id, Acc::Write, "enqueue", None);
            }
            self.w().push((tid(), false));
        }
        pub fn block(&self) {
            let me = tid();
            if spurious() {
                self.w().retain(|x| x.0 != me);
                return;
            }
            let f = || self.w().iter().any(|x| x.0 == me && x.1);
            point(&self.id, Acc::Local, "waiting", Some(&f));
            self.w().retain(|x| x.0 != me);
        }
        pub fn wake(&self, all: bool) {
            point(&self.id, Acc::Write, "wake", None);
            self.wake_now(all);
        }
        pub fn wake_now(&self, all: bool) {
            let n = self.w().iter().filter(|x| !x.1).count() as u32;
            if n == 0 {
                return;
            }
            let pick = if all { 0 } else { choice(n) };
            let mut i = 0;
            for x in self.w().iter_mut().filter(|x| !x.1) {
                if all || i == pick {
                    x.1 = true;
                    hb_to(x.0);
                }
                i += 1;
            }
        }
    }
}

/// Futexes are kept by object identity.
pub fn futex_wait(obj: &Obj, unchanged: &dyn Fn() -> bool) {
    if !controlled() {
        return;
    }
    point3(obj, None, Acc::Read, "futex-wait", None, Some(unchanged));
    if !unchanged() || aborting() {
        return;
    }
    if spurious() {
        return;
    }
    let me = tid();
    let Some((id, p)) = with(|s, me| {
        let id = obj.id(s);
        s.futex.push((id, me, false));
        (id, &s.futex as *const Vec<(u32, usize, bool)> as usize)
    }) else {
        return;
    };
    let f = move || unsafe { &*(p as *const Vec<(u32, usize, bool)>) }.iter().any(|x| *x == (id, me, true));
    point(obj, Acc::Local, "futex-waiting", Some(&f));
    with(|s, me| s.futex.retain(|x| !(x.0 == id && x.1 == me)));
}
pub fn futex_wake(obj: &Obj, all: bool) {
    if !controlled() {
        return;
    }
    let Some(w) = with(|s, _| {
        let id = obj.id(s);
        let w = s.waiters_of(id);
        Obj(AtomicU64::new(EPOCH.load(SeqCst) << 32 | w as u64))
    }) else {
        return point(obj, Acc::Local, "futex-wake", None);
    };
    point(&w, Acc::Write, "futex-wake", None);
    let n = with(|s, _| {
        let id = obj.id(s);
        s.futex.iter().filter(|x| x.0 == id && !x.2).count()
    })
    .unwrap_or(0);
    if n == 0 {
        return;
    }
    let pick = if all { 0 } else { choice(n as u32) as usize };
    let woken = with(|s, _| {
        let id = obj.id(s);
        let mut woken = vec![];
        let mut i = 0;
        for x in s.futex.iter_mut().filter(|x| x.0 == id && !x.2) {
            if all || i == pick {
                x.2 = true;
                woken.push(x.1);
            }
            i += 1;
        }
        woken
    })
    .unwrap_or_default();
    for t in woken {
        hb_to(t);
    }
}

pub mod chan {
    use super::*;
    use std::cell::UnsafeCell;
    use std::collections::VecDeque;

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Fail {
        Disconnected,
        Full,
        Empty,
        Timeout,
    }
    struct S<T> {
        q: VecDeque<(T, Stamp)>,
        taken: u64,
        sent: u64,
        /// What the receivers of the last messages had seen: the k-th send needs the (k - capacity)-th receive.
        room: VecDeque<Stamp>,
        senders: usize,
        receivers: usize,
        closed: Vec<Stamp>,
    }
    /// A FIFO channel. None: unbounded; Some(0): rendezvous. Sends are ordered among themselves, so are receives; a
    /// send and a receive commute except that a message is received after it was sent, and sent when there is room.
    pub struct Chan<T> {
        tx: Obj,
        rx: Obj,
        cap: Option<usize>,
        s: UnsafeCell<S<T>>,
    }
    unsafe impl<T: Send> Sync for Chan<T> {}
    unsafe impl<T: Send> Send for Chan<T> {}
    impl<T> Chan<T> {
        pub fn new(cap: Option<usize>) -> Chan<T> {
            let s = S { q: VecDeque::new(), taken: 0, sent: 0, room: VecDeque::new(), senders: 1, receivers: 1, closed: vec![] };
            Chan { tx: Obj::new(), rx: Obj::new(), cap, s: UnsafeCell::new(s) }
        }
        fn s(&self) -> &mut S<T> {
            unsafe { &mut *self.s.get() }
        }
        fn room(&self) -> bool {
            match self.cap {
                None | Some(0) => true,
                Some(n) => self.s().q.len() < n,
            }
        }
        fn put(&self, t: T) {
            let s = self.s();
            if let Some(n) = self.cap {
                if n > 0 && s.sent >= n as u64 {
                    if let Some(x) = s.room.pop_front() {
                        receive(&x);
                    }
                }
            }
            s.sent += 1;
            s.q.push_back((t, stamp()));
        }
        fn take(&self) -> Option<T> {
            let s = self.s();
            let (t, x) = s.q.pop_front()?;
            s.taken += 1;
            progress();
            receive(&x);
            s.room.push_back(stamp());
            Some(t)
        }
        fn closed(&self) {
            for x in &self.s().closed {
                receive(x);
            }
        }
        pub fn send(&self, t: T) -> Result<(), T> {
            if !controlled() {
                panic!("channel used outside the scheduler");
            }
            let f = || self.s().receivers == 0 || self.room();
            point(&self.tx, Acc::Write, "send", Some(&f));
            if self.s().receivers == 0 || aborting() {
                self.closed();
                return Err(t);
            }
            self.put(t);
            if self.cap == Some(0) {
                let mine = self.s().sent;
                let g = || self.s().taken >= mine || self.s().receivers == 0;
                point(&self.tx, Acc::Local, "handing over", Some(&g));
                if self.s().taken < mine {
                    self.closed();
                    if let Some((t, _)) = self.s().q.pop_back() {
                        self.s().sent -= 1;
                        return Err(t);
                    }
                } else if let Some(x) = self.s().room.get(mine as usize - 1).copied() {
                    receive(&x);
                }
            }
            Ok(())
        }
        pub fn try_send(&self, t: T) -> Result<(), (Fail, T)> {
            point2(&self.tx, Some(&self.rx), Acc::Write, "try-send", None);
            if self.s().receivers == 0 || aborting() {
                self.closed();
                return Err((Fail::Disconnected, t));
            }
            if self.cap == Some(0) || !self.room() {
                note_poll();
                return Err((Fail::Full, t));
            }
            self.put(t);
            progress();
            Ok(())
        }
        pub fn recv(&self) -> Result<T, Fail> {
            if !controlled() {
                panic!("channel used outside the scheduler");
            }
            let f = || self.s().senders == 0 || !self.s().q.is_empty();
            point(&self.rx, Acc::Write, "recv", Some(&f));
            if aborting() {
                return Err(Fail::Disconnected);
            }
            self.take().ok_or_else(|| {
                self.closed();
                Fail::Disconnected
            })
        }
        pub fn try_recv(&self) -> Result<T, Fail> {
            point2(&self.tx, Some(&self.rx), Acc::Write, "try-recv", None);
            if aborting() {
                return Err(Fail::Disconnected);
            }
            match self.take() {
                Some(t) => Ok(t),
                None if self.s().senders == 0 => {
                    self.closed();
                    Err(Fail::Disconnected)
                }
                None => {
                    note_poll();
                    Err(Fail::Empty)
                }
            }
        }
        pub fn recv_timeout(&self) -> Result<T, Fail> {
            if spurious() {
                match self.try_recv() {
                    Err(Fail::Empty) => return Err(Fail::Timeout),
                    r => return r,
                }
            }
            self.recv()
        }
        pub fn len(&self) -> usize {
            POLLED.store(true, SeqCst);
            point2(&self.tx, Some(&self.rx), Acc::Read, "len", None);
            self.s().q.len()
        }
        pub fn senders(&self) -> usize {
            POLLED.store(true, SeqCst);
            point2(&self.tx, Some(&self.rx), Acc::Read, "senders", None);
            self.s().senders
        }
        pub fn receivers(&self) -> usize {
            POLLED.store(true, SeqCst);
            point2(&self.tx, Some(&self.rx), Acc::Read, "receivers", None);
            self.s().receivers
        }
        pub fn add_sender(&self) {
            self.s().senders += 1;
        }
        pub fn add_receiver(&self) {
            self.s().receivers += 1;
        }
        /// Only a receive that finds the channel empty and closed can tell, and it waits for this; polls can tell too.
        pub fn drop_sender(&self) {
            let local = self.s().senders > 1 || !POLLED.load(SeqCst);
            point2(&self.tx, Some(&self.rx), if local { Acc::Local } else { Acc::Write }, "drop sender", None);
            let x = stamp();
            self.s().closed.push(x);
            self.s().senders -= 1;
        }
        pub fn drop_receiver(&self) {
            let local = self.s().receivers > 1;
            point2(&self.tx, Some(&self.rx), if local { Acc::Local } else { Acc::Write }, "drop receiver", None);
            let x = stamp();
            self.s().closed.push(x);
            self.s().receivers -= 1;
        }
        pub fn cap(&self) -> Option<usize> {
            self.cap
        }
    }
}

/// Some thread polled a channel: then closing one is a visible operation.
pub static POLLED: AtomicBool = AtomicBool::new(false);

/// A poll that found nothing: the thread should not be preferred until somebody else has moved.
pub fn note_poll() {
    POLLED.store(true, SeqCst);
    with(|s, me| {
        let n = s.trace.len();
        s.yielded = Some((me, n));
    });
}
