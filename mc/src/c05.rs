//! C05: SparseFeatures behaves as a map from namespace to feature list.
use crate::common::*;
use crate::ensure;
use approx::AbsDiffEq;
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures, SparseFeaturesNamespace};
use reductionml_core::{CBAdfFeatures, FeatureIndex, Features, NamespaceHash};
use std::collections::BTreeMap;

type List = Vec<(u32, f32)>;

#[derive(Clone, Debug, PartialEq)]
struct Slot {
    feats: List,
    /// whether presence of the (empty) namespace is defined by the history: un-appending may leave a namespace
    /// that was there without features before the append present or absent, both are fine.
    presence_known: bool,
}

type Model = BTreeMap<Namespace, Slot>;

pub fn namespaces() -> Vec<Namespace> {
    vec![
        Namespace::Named(NamespaceHash::from(7)),
        Namespace::Default,
        Namespace::RawHash(NamespaceHash::from(7)),
    ]
}

fn lists() -> Vec<List> {
    vec![
        vec![],
        vec![(1, 1.0)],
        vec![(2, 2.0), (1, -3.0)],
        vec![(1, 0.5), (1, 0.5), (0, 0.0)],
    ]
}

fn real_list(l: &[(u32, f32)]) -> (Vec<FeatureIndex>, Vec<f32>) {
    (l.iter().map(|x| x.0.into()).collect(), l.iter().map(|x| x.1).collect())
}

/// The fixed right-hand sides for append/remove.
fn others() -> Vec<(SparseFeatures, Vec<(Namespace, List)>)> {
    let ns = namespaces();
    let mk = |v: &[(Namespace, List)]| {
        let mut s = SparseFeatures::new();
        for (n, l) in v {
            let (i, x) = real_list(l);
            s.get_or_create_namespace(*n).add_features(&i, &x);
        }
        s
    };
    let a = vec![(ns[0], vec![(5u32, 5.0f32)])];
    let b = vec![(ns[0], vec![(6u32, 1.0f32), (7, 2.0)]), (ns[1], vec![(8, 3.0)])];
    let c = vec![(ns[1], vec![])];
    // d: a recycled container: ns[0] was used and cleared, only ns[2] is in use
    let d = vec![(ns[2], vec![(9u32, 9.0f32)])];
    let mut dreal = mk(&b);
    dreal.clear();
    dreal.get_or_create_namespace(ns[2]).add_feature(9.into(), 9.0);
    vec![(mk(&a), a), (mk(&b), b), (mk(&c), c), (dreal, d)]
}

#[derive(Clone)]
struct St {
    real: SparseFeatures,
    model: Model,
    /// appended containers that may be un-appended, innermost last
    stack: Vec<usize>,
    /// model before each append
    saved: Vec<Model>,
}

#[derive(Debug, Clone)]
enum Op {
    Fill(usize, usize),
    FillCap(usize, usize),
    FillIter(usize, usize),
    Set(usize, usize),
    RemoveNs(usize),
    Reserve(usize, usize),
    Mutate(usize),
    Append(usize),
    Unappend,
    Clear,
    Recycle,
}

fn ops(nns: usize) -> Vec<Op> {
    let mut v = vec![];
    for n in 0..nns {
        for l in 0..lists().len() {
            v.push(Op::Fill(n, l));
        }
    }
    for n in 0..nns {
        v.push(Op::FillCap(n, 1));
        v.push(Op::FillIter(n, 2));
        v.push(Op::Set(n, 0));
        v.push(Op::Set(n, 2));
        v.push(Op::RemoveNs(n));
        v.push(Op::Reserve(n, 0));
        v.push(Op::Reserve(n, 3));
        v.push(Op::Mutate(n));
    }
    for o in 0..others().len() {
        v.push(Op::Append(o));
    }
    v.push(Op::Unappend);
    v.push(Op::Clear);
    v.push(Op::Recycle);
    v
}

fn build(model: &Model) -> SparseFeatures {
    let mut s = SparseFeatures::new();
    for (n, slot) in model {
        if !slot.feats.is_empty() || slot.presence_known {
            let (i, x) = real_list(&slot.feats);
            s.get_or_create_namespace(*n).add_features(&i, &x);
        }
    }
    s
}

fn check(real: &SparseFeatures, model: &Model) -> Result<(), String> {
    let nss = namespaces();
    for n in &nss {
        let got = real.get_namespace(*n);
        let want = model.get(n);
        let got_list: Option<List> = got.map(|x| x.iter().map(|(i, v)| (u32::from(i), v)).collect());
        let got_idx: Option<Vec<u32>> = got.map(|x| x.indices().iter().map(|i| u32::from(*i)).collect());
        let got_val: Option<Vec<f32>> = got.map(|x| x.values().to_vec());
        let empty = vec![];
        let want_list = want.map(|s| &s.feats).unwrap_or(&empty);
        ensure!(
            got_list.as_ref().unwrap_or(&empty) == want_list,
            "lookup of {n:?}: got {got_list:?}, want {want_list:?}"
        );
        if let (Some(i), Some(v)) = (got_idx, got_val) {
            let z: List = i.into_iter().zip(v).collect();
            ensure!(&z == want_list, "indices/values of {n:?}: {z:?} want {want_list:?}");
            ensure!(got.unwrap().size() == want_list.len(), "size of {n:?}");
            ensure!(got.unwrap().namespace() == *n, "namespace label of {n:?}: {:?}", got.unwrap().namespace());
        }
        match want {
            Some(s) if s.presence_known || !s.feats.is_empty() => {
                ensure!(got.is_some(), "{n:?} should be present")
            }
            Some(_) => {}
            None => ensure!(got.is_none(), "{n:?} should be absent"),
        }
    }
    // iteration
    let mut seen: BTreeMap<Namespace, List> = BTreeMap::new();
    for (n, it) in real.namespaces() {
        let l: List = it.map(|(i, v)| (u32::from(i), v)).collect();
        ensure!(seen.insert(n, l).is_none(), "namespaces() yields {n:?} twice");
    }
    for (n, l) in &seen {
        match model.get(n) {
            Some(s) => ensure!(&s.feats == l, "namespaces() of {n:?}: {l:?} want {:?}", s.feats),
            None => return Err(format!("namespaces() yields {n:?}, which is absent")),
        }
    }
    for (n, s) in model {
        ensure!(
            seen.contains_key(n) || (s.feats.is_empty() && !s.presence_known),
            "namespaces() misses {n:?}"
        );
    }
    // full listing, as a multiset
    let mut all: Vec<(u32, u32)> = real.all_features().map(|(i, v)| (u32::from(i), v.to_bits())).collect();
    let mut want: Vec<(u32, u32)> =
        model.values().flat_map(|s| s.feats.iter().map(|(i, v)| (*i, v.to_bits()))).collect();
    all.sort();
    want.sort();
    ensure!(all == want, "all_features {all:?} want {want:?}");
    // emptiness
    if model.values().any(|s| !s.feats.is_empty() || s.presence_known) {
        ensure!(!real.empty(), "empty() is true but the container holds namespaces");
    } else if model.is_empty() {
        ensure!(real.empty(), "empty() is false on an empty container");
    }
    // approximate equality with a freshly built container, and inequality with different ones
    let fresh = build(model);
    ensure!(real.abs_diff_eq(&fresh, 1e-6), "differs from a fresh container with the same contents");
    ensure!(fresh.abs_diff_eq(real, 1e-6), "a fresh container with the same contents differs");
    for n in &nss {
        let mut other = model.clone();
        let s = other.entry(*n).or_insert(Slot { feats: vec![], presence_known: true });
        s.feats.push((3, 1.0));
        let o = build(&other);
        ensure!(!real.abs_diff_eq(&o, 1e-6), "compares equal to a container with one more feature in {n:?}");
        ensure!(!o.abs_diff_eq(real, 1e-6), "one more feature in {n:?} compares equal");
        if let Some(s) = model.get(n) {
            if !s.feats.is_empty() {
                let mut other = model.clone();
                let f = &mut other.get_mut(n).unwrap().feats;
                let k = f.len() - 1;
                f[k].1 += 1.0;
                let o = build(&other);
                ensure!(!real.abs_diff_eq(&o, 1e-6), "compares equal although a value of {n:?} differs");
                let mut other = model.clone();
                other.get_mut(n).unwrap().feats[0].0 += 10;
                let o = build(&other);
                ensure!(!real.abs_diff_eq(&o, 1e-6), "compares equal although an index of {n:?} differs");
            }
        }
    }
    Ok(())
}

fn apply(st: &mut St, op: &Op) -> Result<bool, String> {
    let ns = namespaces();
    let present = |l: List| Slot { feats: l, presence_known: true };
    match op {
        Op::Fill(n, l) | Op::FillCap(n, l) | Op::FillIter(n, l) => {
            let list = lists()[*l].clone();
            let (i, x) = real_list(&list);
            match op {
                Op::Fill(..) => {
                    let d = st.real.get_or_create_namespace(ns[*n]);
                    if list.len() == 1 {
                        d.add_feature(i[0], x[0])
                    } else {
                        d.add_features(&i, &x)
                    }
                }
                Op::FillCap(..) => {
                    let d = st.real.get_or_create_namespace_with_capacity(ns[*n], 2);
                    d.add_features(&i, &x)
                }
                _ => {
                    let d = st.real.get_or_create_namespace(ns[*n]);
                    d.add_features_with_iter(i.into_iter(), x.into_iter())
                }
            }
            let s = st.model.entry(ns[*n]).or_insert(present(vec![]));
            s.presence_known = true;
            s.feats.extend(list);
            st.stack.clear();
            st.saved.clear();
        }
        Op::Set(n, l) => {
            let list = lists()[*l].clone();
            let (i, x) = real_list(&list);
            let mut f = SparseFeaturesNamespace::new(ns[*n]);
            f.add_features(&i, &x);
            st.real.set_namespace(ns[*n], f);
            st.model.insert(ns[*n], present(list));
            st.stack.clear();
            st.saved.clear();
        }
        Op::RemoveNs(n) => {
            let got = st.real.remove_namespace(ns[*n]);
            let want = st.model.remove(&ns[*n]);
            let gl: Option<List> = got.map(|g| g.iter().map(|(i, v)| (u32::from(i), v)).collect());
            match (gl, want) {
                (None, None) => {}
                (None, Some(s)) => {
                    ensure!(s.feats.is_empty() && !s.presence_known, "remove_namespace lost {s:?}")
                }
                (Some(l), Some(s)) => ensure!(l == s.feats, "remove_namespace returned {l:?}, want {:?}", s.feats),
                (Some(l), None) => return Err(format!("remove_namespace returned {l:?} for an absent namespace")),
            }
            st.stack.clear();
            st.saved.clear();
        }
        Op::Reserve(n, k) => {
            if st.real.get_namespace(ns[*n]).is_none() {
                return Ok(false);
            }
            st.real.get_namespace_mut(ns[*n]).ok_or("get_namespace_mut and get_namespace disagree")?.reserve(*k);
        }
        Op::Mutate(n) => {
            let want = st.model.get(&ns[*n]).cloned();
            match st.real.get_namespace_mut(ns[*n]) {
                Some(x) => {
                    x.add_feature(4.into(), 4.0);
                    match st.model.get_mut(&ns[*n]) {
                        Some(s) => {
                            s.feats.push((4, 4.0));
                            s.presence_known = true;
                        }
                        None => return Err("get_namespace_mut found an absent namespace".into()),
                    }
                }
                None => {
                    ensure!(
                        want.map_or(true, |s| s.feats.is_empty() && !s.presence_known),
                        "get_namespace_mut missed a present namespace"
                    );
                    return Ok(false);
                }
            }
            st.stack.clear();
            st.saved.clear();
        }
        Op::Append(o) => {
            if st.stack.len() >= 2 {
                return Ok(false);
            }
            let (r, l) = &others()[*o];
            st.saved.push(st.model.clone());
            st.real.append(r);
            for (n, f) in l {
                let s = st.model.entry(*n).or_insert(present(vec![]));
                s.presence_known = true;
                s.feats.extend(f.iter().cloned());
            }
            st.stack.push(*o);
        }
        Op::Unappend => {
            let Some(o) = st.stack.pop() else { return Ok(false) };
            let before = st.saved.pop().unwrap();
            let (r, l) = &others()[o];
            st.real.remove(r);
            st.model = before;
            for (n, _) in l {
                // a namespace the append made is gone again; one that was there without features may be gone too
                if let Some(e) = st.model.get_mut(n) {
                    if e.feats.is_empty() {
                        e.presence_known = false;
                    }
                }
            }
            for m in st.saved.iter_mut() {
                for (n, _) in l {
                    if let Some(e) = m.get_mut(n) {
                        if e.feats.is_empty() {
                            e.presence_known = false;
                        }
                    }
                }
            }
        }
        Op::Clear => {
            st.real.clear();
            st.model.clear();
            st.stack.clear();
            st.saved.clear();
        }
        Op::Recycle => {
            let pool: Pool<SparseFeatures> = Pool::new();
            let r = std::mem::take(&mut st.real);
            r.clear_and_return_object(&pool);
            ensure!(pool.len() == 1, "pool did not receive the container");
            st.real = pool.get_object();
            st.model.clear();
            st.stack.clear();
            st.saved.clear();
        }
    }
    check(&st.real, &st.model)?;
    Ok(true)
}

fn model_key(st: &St) -> String {
    format!("{:?}|{:?}|{:?}", st.real, st.model, st.stack)
}

pub fn run(ctx: &Ctx) {
    let init = || St { real: SparseFeatures::new(), model: Model::new(), stack: vec![], saved: vec![] };
    // (a) explicit-state search with deduplication
    let all = ops(3);
    let d = ctx.b(4, 6);
    ctx.bound(format!("states reachable by {} operations over 3 namespaces, depth {d}, deduplicated on the full container state", all.len()));
    ctx.bfs(
        "container-bfs",
        init(),
        all.len(),
        d,
        |s, op, t| {
            let mut n = s.clone();
            t.eval();
            match apply(&mut n, &all[op]) {
                Ok(true) => {
                    t.distinct(&model_key(&n));
                    t.sample(|| format!("{:?} -> {:?}", all[op], n.real));
                    Ok(Some(n))
                }
                Ok(false) => Ok(None),
                Err(e) => Err(format!("{:?}: {e}", all[op])),
            }
        },
        |s| hash_of(&model_key(s)),
    );
    // every two operations on a container that already holds, or held before it was cleared, many namespaces or features
    let sizes: Vec<usize> = crate::wide::ladder(4, ctx.b(66, 520)).into_iter().filter(|n| *n > 2).collect();
    ctx.bound(format!("every 2 of {} operations over 3 namespaces on a container with {} sizes up to {} of other namespaces or of features, held or cleared away before", all.len(), sizes.len(), sizes.last().unwrap()));
    ctx.explore("crowded", |c, t| {
        let n = *c.of(&sizes);
        let kind = c.choose(4);
        let mut st = init();
        // hashes on both sides of the ones the operations use
        let name = |k: usize| Namespace::Named(NamespaceHash::from(if k % 2 == 0 { 100 + k as u32 } else { u32::MAX - k as u32 }));
        match kind {
            0 | 1 => {
                for k in 0..n {
                    let l = vec![(k as u32, 1.0f32)];
                    let (i, x) = real_list(&l);
                    st.real.get_or_create_namespace(name(k)).add_features(&i, &x);
                    st.model.insert(name(k), Slot { feats: l, presence_known: true });
                }
            }
            _ => {
                let l: List = (0..n).map(|k| (k as u32 * 3, 0.5 * k as f32 + 1.0)).collect();
                let (i, x) = real_list(&l);
                for ns in &namespaces()[..2] {
                    st.real.get_or_create_namespace(*ns).add_features(&i, &x);
                    st.model.insert(*ns, Slot { feats: l.clone(), presence_known: true });
                }
            }
        }
        if kind % 2 == 1 {
            st.real.clear();
            st.model.clear();
        }
        let mut done = vec![];
        for _ in 0..2 {
            let op = &all[c.choose(all.len())];
            done.push(op);
            match apply(&mut st, op) {
                Ok(true) => t.eval(),
                Ok(false) => break,
                Err(e) => return Err(format!("{n} {} {}, then {done:?}: {}", ["namespaces", "features"][kind / 2], ["held", "cleared"][kind % 2], e.chars().take(600).collect::<String>())),
            }
        }
        t.distinct(&model_key(&st));
        t.sample(|| format!("{n} {kind} {done:?}"));
        Ok(())
    });
    // (b) every sequence without deduplication (hidden state such as capacity cannot be merged away)
    let few = ops(2);
    let d = ctx.b(3, 4);
    ctx.bound(format!("all sequences of {} operations over 2 namespaces, length {d}, no deduplication", few.len()));
    ctx.bound("examples of one container, or of a shared one or none and 0..2 actions, over 3 contents: all pairs compared, owned and by reference; copies; what returning them to a pool puts there");
    let content = |k: usize| {
        let mut s = SparseFeatures::new();
        let (n, v) = [(Namespace::Default, 1.0f32), (Namespace::Default, 1.5), (Namespace::Named(NamespaceHash::from(3)), 1.0)][k];
        s.get_or_create_namespace(n).add_feature(2.into(), v);
        s
    };
    type What = (bool, Option<usize>, Vec<usize>); // bandit or not, shared, actions
    let make = |w: &What| CBAdfFeatures { shared: w.1.map(content), actions: w.2.iter().map(|k| content(*k)).collect() };
    ctx.explore("examples", |c, t| {
        let mut pick = || -> What {
            if c.flag() {
                return (false, Some(c.choose(3)), vec![]);
            }
            let sh = c.choose(4);
            let n = c.choose(3);
            (true, if sh == 3 { None } else { Some(sh) }, (0..n).map(|_| c.choose(3)).collect())
        };
        let (a, b) = (pick(), pick());
        t.eval();
        t.distinct(&(&a, &b));
        t.sample(|| format!("{a:?} {b:?}"));
        let (mut sa, mut sb) = (content(a.1.unwrap_or(0)), content(b.1.unwrap_or(0)));
        let (mut ca, mut cb) = (make(&a), make(&b));
        for by_ref in 0..4 {
            let fa: Features = match (a.0, by_ref & 1) {
                (true, 0) => make(&a).into(),
                (true, _) => (&mut ca).into(),
                (false, 0) => content(a.1.unwrap()).into(),
                (false, _) => (&mut sa).into(),
            };
            let fb: Features = match (b.0, by_ref & 2) {
                (true, 0) => make(&b).into(),
                (true, _) => (&mut cb).into(),
                (false, 0) => content(b.1.unwrap()).into(),
                (false, _) => (&mut sb).into(),
            };
            ensure!(fa.abs_diff_eq(&fb, 1e-3) == (a == b), "{a:?} and {b:?} compare wrong ({by_ref})");
            ensure!(fa.clone().abs_diff_eq(&fb, 1e-3) == (a == b), "a copy of {a:?} and {b:?} compare wrong ({by_ref})");
            if a.0 == b.0 && (a.1.is_some() == b.1.is_some()) && a.2.len() == b.2.len() && (a == b || [a.1, b.1].iter().all(|x| *x != Some(2)) && !a.2.contains(&2) && !b.2.contains(&2)) {
                ensure!(fa.abs_diff_eq(&fb, 1.0), "{a:?} and {b:?} differ by less than the tolerance");
            }
            let pool = Pool::new();
            let n = if by_ref & 1 == 1 { 0 } else if a.0 { a.2.len() + a.1.is_some() as usize } else { 1 };
            fa.clear_and_return_object(&pool);
            ensure!(pool.len() == n, "returning {a:?} puts {} containers into the pool, not {n}", pool.len());
            for _ in 0..n {
                ensure!(pool.get_object().all_features().next().is_none(), "a returned container of {a:?} still has features");
            }
        }
        Ok(())
    });
    ctx.explore("container-seq", |c, t| {
        let mut s = init();
        let mut hist = vec![];
        for _ in 0..d {
            let op = c.of(&few);
            hist.push(op.clone());
            t.eval();
            match apply(&mut s, op) {
                Ok(true) => t.step(),
                Ok(false) => return Ok(()),
                Err(e) => return Err(format!("{hist:?}: {e}")),
            }
        }
        t.distinct(&model_key(&s));
        t.sample(|| format!("{hist:?} -> {:?}", s.real));
        Ok(())
    });
}
