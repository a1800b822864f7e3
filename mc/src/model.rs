//! Shared reference vocabulary: expected features and labels, independent hashing, views of real objects.
use reductionml_core::object_pool::Pool;
use reductionml_core::parsers::{
    DsJsonParser, DsJsonParserFactory, JsonParser, JsonParserFactory, TextModeParser, TextModeParserFactory,
    VwTextParser, VwTextParserFactory,
};
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use reductionml_core::utils::AsInner;
use reductionml_core::{CBAdfFeatures, Features, FeaturesType, Label, LabelType, NamespaceHash};
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn h(s: &str, seed: u32) -> u32 {
    twox_hash::xxh3::hash64_with_seed(s.as_bytes(), seed as u64) as u32
}

pub fn mask(x: u32, bits: u8) -> u32 {
    (x as u64 & ((1u64 << bits) - 1)) as u32
}

/// Namespace identity and hash from a name as written in JSON (" " and ":default" are the default one).
pub fn ns_of(name: &str, seed: u32) -> (Namespace, u32) {
    if name == " " || name == ":default" {
        (Namespace::Default, 0)
    } else {
        (Namespace::Named(NamespaceHash::from(h(name, seed))), h(name, seed))
    }
}

/// Multiset of (index, value bits) per namespace; namespaces without features are absent.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Feats(pub BTreeMap<Namespace, Vec<(u32, u32)>>);

impl Feats {
    pub fn add(&mut self, ns: Namespace, idx: u32, v: f32) {
        self.0.entry(ns).or_default().push((idx, v.to_bits()));
    }
    pub fn sort(mut self) -> Self {
        for v in self.0.values_mut() {
            v.sort();
        }
        self.0.retain(|_, v| !v.is_empty());
        self
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ex {
    Simple(Feats),
    Cb(Option<Feats>, Vec<Feats>),
}

impl Ex {
    pub fn sort(self) -> Self {
        match self {
            Ex::Simple(f) => Ex::Simple(f.sort()),
            Ex::Cb(s, a) => Ex::Cb(s.map(|x| x.sort()), a.into_iter().map(|x| x.sort()).collect()),
        }
    }
    /// With an absent shared part and an empty one identified.
    pub fn norm_shared(self) -> Self {
        match self {
            Ex::Cb(None, a) => Ex::Cb(Some(Feats::default()), a),
            x => x,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Lab {
    None,
    Simple(u32, u32),
    Cb(usize, u32, u32),
    Binary(bool),
}
impl Lab {
    pub fn simple(v: f32, w: f32) -> Lab {
        Lab::Simple(v.to_bits(), w.to_bits())
    }
    pub fn cb(a: usize, c: f32, p: f32) -> Lab {
        Lab::Cb(a, c.to_bits(), p.to_bits())
    }
}

pub fn view_feats(s: &SparseFeatures) -> Feats {
    let mut f = Feats::default();
    for (ns, it) in s.namespaces() {
        for (i, v) in it {
            f.add(ns, u32::from(i), v);
        }
    }
    f.sort()
}

pub fn view(f: &Features) -> Ex {
    if let Some(s) = AsInner::<SparseFeatures>::as_inner(f) {
        return Ex::Simple(view_feats(s));
    }
    let c: &CBAdfFeatures = f.as_inner().unwrap();
    Ex::Cb(c.shared.as_ref().map(view_feats), c.actions.iter().map(view_feats).collect())
}

pub fn view_label(l: &Option<Label>) -> Lab {
    match l {
        None => Lab::None,
        Some(Label::Simple(s)) => Lab::simple(s.value(), s.weight()),
        Some(Label::CB(c)) => Lab::cb(c.action, c.cost, c.probability),
        Some(Label::Binary(b)) => Lab::Binary(b.0),
    }
}

/// Every way of reading a feature container agrees (lookup, namespaces(), all_features(), emptiness).
pub fn consistent(s: &SparseFeatures) -> Result<(), String> {
    let mut all: Vec<(u32, u32)> = s.all_features().map(|(i, v)| (u32::from(i), v.to_bits())).collect();
    let mut by_ns: Vec<(u32, u32)> = vec![];
    let mut n = 0;
    for (ns, it) in s.namespaces() {
        n += 1;
        let a: Vec<(u32, u32)> = it.map(|(i, v)| (u32::from(i), v.to_bits())).collect();
        let b = match s.get_namespace(ns) {
            Some(x) => x.iter().map(|(i, v)| (u32::from(i), v.to_bits())).collect::<Vec<_>>(),
            None => return Err(format!("{ns:?} is listed by namespaces() but cannot be looked up")),
        };
        if a != b {
            return Err(format!("namespaces() and get_namespace disagree on {ns:?}: {a:?} / {b:?}"));
        }
        by_ns.extend(a);
    }
    all.sort();
    by_ns.sort();
    if all != by_ns {
        return Err(format!("all_features {all:?} differs from the namespaces' features {by_ns:?}"));
    }
    if s.empty() != (n == 0) {
        return Err(format!("empty() is {} with {n} namespaces", s.empty()));
    }
    Ok(())
}

pub fn consistent_features(f: &Features) -> Result<(), String> {
    if let Some(s) = AsInner::<SparseFeatures>::as_inner(f) {
        return consistent(s);
    }
    let c: &CBAdfFeatures = f.as_inner().unwrap();
    for s in c.shared.iter().chain(c.actions.iter()) {
        consistent(s)?;
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fmt {
    Vw,
    Json,
    Ds,
}

pub enum AnyParser {
    Vw(VwTextParser),
    Json(JsonParser),
    Ds(DsJsonParser),
}

impl AnyParser {
    pub fn new(fmt: Fmt, cb: bool, seed: u32, bits: u8, pool: Arc<Pool<SparseFeatures>>) -> AnyParser {
        let (ft, lt) = if cb { (FeaturesType::SparseCBAdf, LabelType::CB) } else { (FeaturesType::SparseSimple, LabelType::Simple) };
        match fmt {
            Fmt::Vw => AnyParser::Vw(VwTextParserFactory::default().create(ft, lt, seed, bits, pool)),
            Fmt::Json => AnyParser::Json(JsonParserFactory::default().create(ft, lt, seed, bits, pool)),
            Fmt::Ds => AnyParser::Ds(DsJsonParserFactory::default().create(ft, lt, seed, bits, pool)),
        }
    }
    pub fn fresh(fmt: Fmt, cb: bool, seed: u32, bits: u8) -> AnyParser {
        AnyParser::new(fmt, cb, seed, bits, Arc::new(Pool::new()))
    }
    pub fn p(&self) -> &dyn DynParser {
        match self {
            AnyParser::Vw(p) => p,
            AnyParser::Json(p) => p,
            AnyParser::Ds(p) => p,
        }
    }
}

/// Object-safe face of TextModeParser.
pub trait DynParser {
    fn parse(&self, chunk: &str) -> Result<(Features<'static>, Option<Label>), String>;
    fn next(&self, input: &mut dyn std::io::BufRead, buf: String) -> Result<Option<String>, String>;
}
impl<T: TextModeParser> DynParser for T {
    fn parse(&self, chunk: &str) -> Result<(Features<'static>, Option<Label>), String> {
        self.parse_chunk(chunk).map_err(|e| e.to_string())
    }
    fn next(&self, input: &mut dyn std::io::BufRead, buf: String) -> Result<Option<String>, String> {
        self.get_next_chunk(input, buf).map_err(|e| e.to_string())
    }
}

/// Splits a whole text into chunks with the real reader.
pub fn chunks(p: &AnyParser, text: &str) -> Result<Vec<String>, String> {
    let mut r = std::io::Cursor::new(text.as_bytes());
    let mut v = vec![];
    let mut buf = String::from("left over");
    while let Some(c) = p.p().next(&mut r, buf)? {
        v.push(c.clone());
        buf = c;
        if v.len() > 10_000 {
            return Err("reader does not terminate".into());
        }
    }
    Ok(v)
}
