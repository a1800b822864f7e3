//! Reference models written from the definitions, not from the code: feature expansion with interactions and the
//! coin-betting regressor (generic over the float width).
use crate::model::*;
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use std::collections::BTreeMap;

const FNV: u64 = 16777619;

pub fn content(s: &SparseFeatures) -> BTreeMap<Namespace, Vec<(u32, f32)>> {
    s.namespaces().map(|(n, i)| (n, i.map(|(i, v)| (u32::from(i), v)).collect())).collect()
}

/// "ab" / "aab" over one-letter namespaces, '_' is the default namespace.
pub fn inter_ns(s: &str, seed: u32) -> Vec<Namespace> {
    s.chars()
        .map(|c| if c == '_' { Namespace::Default } else { Namespace::Named(h(&c.to_string(), seed).into()) })
        .collect()
}

/// The multiset of (index, value) an example presents to a linear model. A combination takes one feature from each
/// listed namespace; where a namespace is listed again right after itself, positions do not decrease.
pub fn expand(f: &SparseFeatures, inter: &[Vec<Namespace>], bits: u8, constant: bool) -> Vec<(u32, f32)> {
    let m = content(f);
    let mut out: Vec<(u32, f32)> = m.values().flatten().cloned().collect();
    for it in inter {
        // (hash so far, value so far, position of the last chosen feature)
        let mut part: Vec<(u32, f32, usize)> = vec![];
        for (k, ns) in it.iter().enumerate() {
            let empty = vec![];
            let l = m.get(ns).unwrap_or(&empty);
            let mut next = vec![];
            if k == 0 {
                next = l.iter().enumerate().map(|(p, x)| (x.0, x.1, p)).collect();
            } else {
                for (hh, v, p) in &part {
                    let from = if it[k - 1] == *ns { *p } else { 0 };
                    for (q, x) in l.iter().enumerate().skip(from) {
                        next.push((((*hh as u64 * FNV) as u32) ^ x.0, v * x.1, q));
                    }
                }
            }
            part = next;
        }
        out.extend(part.iter().map(|x| (mask(x.0, bits), x.1)));
    }
    if constant {
        out.push((((1u64 << bits) as u32) / 2, 1.0));
    }
    out
}

pub trait Fl: Copy + PartialOrd {
    fn f(x: f64) -> Self;
    fn g(self) -> f64;
    fn add(self, o: Self) -> Self;
    fn sub(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
    fn div(self, o: Self) -> Self;
    fn exp(self) -> Self;
    fn abs(self) -> Self;
    fn mx(self, o: Self) -> Self {
        if o > self {
            o
        } else {
            self
        }
    }
    fn clamp_(self, lo: Self, hi: Self) -> Self {
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
}
macro_rules! fl {
    ($t:ty) => {
        impl Fl for $t {
            fn f(x: f64) -> Self {
                x as $t
            }
            fn g(self) -> f64 {
                self as f64
            }
            fn add(self, o: Self) -> Self {
                self + o
            }
            fn sub(self, o: Self) -> Self {
                self - o
            }
            fn mul(self, o: Self) -> Self {
                self * o
            }
            fn div(self, o: Self) -> Self {
                self / o
            }
            fn exp(self) -> Self {
                <$t>::exp(self)
            }
            fn abs(self) -> Self {
                <$t>::abs(self)
            }
        }
    };
}
fl!(f32);
fl!(f64);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loss {
    Squared,
    Logistic,
}

/// Per-coordinate coin betting: bet `x` = (alpha + wealth) / (L m (L m + G)) * theta.
#[derive(Clone, Debug, Default)]
pub struct Coord<F> {
    pub x: F,
    pub theta: F,
    pub g: F,
    pub m: F,
    pub wealth: F,
    pub l: F,
}

#[derive(Clone)]
pub struct CoinModel<F> {
    pub w: BTreeMap<u32, Coord<F>>,
    pub alpha: F,
    pub beta: F,
    pub loss: Loss,
    pub logistic_link: bool,
    pub lo: F,
    pub hi: F,
    pub norm_sum: F,
    pub weight_sum: F,
    pub avg: F,
}

impl<F: Fl + Default> CoinModel<F> {
    pub fn new(alpha: f64, beta: f64, loss: Loss, logistic_link: bool) -> Self {
        let (lo, hi) = if loss == Loss::Squared { (0.0, 0.0) } else { (-50.0, 50.0) };
        CoinModel {
            w: BTreeMap::new(),
            alpha: F::f(alpha),
            beta: F::f(beta),
            loss,
            logistic_link,
            lo: F::f(lo),
            hi: F::f(hi),
            norm_sum: F::f(0.0),
            weight_sum: F::f(0.0),
            avg: F::f(0.0),
        }
    }
    /// (prediction, raw prediction)
    pub fn predict(&self, ex: &[(u32, f32)]) -> (F, F) {
        let mut raw = F::f(0.0);
        for (i, v) in ex {
            if let Some(c) = self.w.get(i) {
                raw = raw.add(F::f(*v as f64).mul(c.x));
            }
        }
        if raw.g().is_nan() {
            raw = F::f(0.0);
        }
        let p = raw.clamp_(self.lo, self.hi);
        let p = if self.logistic_link { F::f(1.0).div(F::f(1.0).add(F::f(0.0).sub(p).exp())) } else { p };
        (p, raw)
    }
    fn bet(&self, c: &Coord<F>, m: F) -> F {
        let lm = c.l.mul(m);
        if lm > F::f(0.0) {
            self.alpha.add(c.wealth).div(lm.mul(lm.add(c.g))).mul(c.theta)
        } else {
            F::f(0.0)
        }
    }
    pub fn learn(&mut self, ex: &[(u32, f32)], label: f32, weight: f32) {
        let (y, wt) = (F::f(label as f64), F::f(weight as f64));
        if y < self.lo {
            self.lo = y;
        }
        if y > self.hi {
            self.hi = y;
        }
        let mut pred = F::f(0.0);
        let mut nx = F::f(0.0);
        for (i, v) in ex {
            let v = F::f(*v as f64);
            let c = self.w.get(i).cloned().unwrap_or_default();
            let m = c.m.mx(v.abs());
            pred = pred.add(self.bet(&c, m).mul(v));
            if m > F::f(0.0) {
                let q = v.div(m);
                nx = nx.add(q.mul(q));
            }
        }
        self.norm_sum = self.norm_sum.add(nx.mul(wt));
        self.weight_sum = self.weight_sum.add(wt);
        self.avg = self.norm_sum.add(F::f(1e-6)).div(self.weight_sum);
        let p = pred.div(self.avg).clamp_(self.lo, self.hi);
        let d = match self.loss {
            Loss::Squared => F::f(2.0).mul(p.sub(y)),
            Loss::Logistic => {
                // label range -1..1 mapped to 0..1
                let s = y.add(F::f(1.0)).div(F::f(2.0));
                let a = F::f(-1.0).div(F::f(1.0).add(p.exp()));
                let b = F::f(1.0).div(F::f(1.0).add(F::f(0.0).sub(p).exp()));
                s.mul(a).add(F::f(1.0).sub(s).mul(b))
            }
        };
        let u = d.mul(wt);
        for (i, v) in ex {
            let v = F::f(*v as f64);
            let mut c = self.w.get(i).cloned().unwrap_or_default();
            let g = u.mul(v);
            c.m = c.m.mx(v.abs());
            if u.abs() > c.l {
                c.l = u.abs().mx(self.beta);
            }
            let b = self.bet(&c, c.m);
            c.theta = c.theta.sub(g);
            c.g = c.g.add(g.abs());
            c.wealth = c.wealth.sub(g.mul(b));
            c.x = b.div(self.avg);
            self.w.insert(*i, c);
        }
    }
}
