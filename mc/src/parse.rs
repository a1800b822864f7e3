//! C28 (grammars), C06 (formats agree), C04 (recycled containers), C07 (reading), C08 (hashing).
use crate::common::*;
use crate::ensure;
use crate::model::*;
use reductionml_core::inverse_hash_table::{Feature, InverseHashTable};
use reductionml_core::metrics::get_metric;
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::parsers::{ParsedNamespaceInfo, TextModeParser, TextModeParserFactory, VwTextParserFactory};
use reductionml_core::sparse_namespaced_features::{constant_feature_index, Namespace, SparseFeatures};
use reductionml_core::types::{FeatureMask, FeaturesType, LabelType};
use reductionml_core::workspace::{Configuration, Workspace};
use reductionml_core::{Features, Label, NamespaceHash, Prediction, ScalarPrediction, ActionProbsPrediction};
use std::io::{BufRead, Read};
use std::sync::Arc;

/// (seed, bits) pairs; the last seeds put the hash of the namespaces "a", "b" and "ns" at 2^32 - 3.
pub const EDGE: [(u32, u8); 9] = [
    (0, 18),
    (0, 4),
    (7, 31),
    (u32::MAX, 24),
    (2623688649, 18),
    (2623688649, 31),
    (2623491786, 10),
    (2641386966, 31),
    (0, 1),
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
    Num(&'static str, &'static str, f32),
    Plain(&'static str),
    Str(&'static str, &'static str),
    Anon(&'static str, f32),
}

/// One namespace segment's features in order; anonymous features are numbered within the segment.
fn add_all(out: &mut Feats, name: &str, scale: f32, fs: &[F], seed: u32, bits: u8) {
    let (ns, nh) = ns_of(name, seed);
    let mut k = 0u32;
    for f in fs {
        let (hash, v) = match f {
            F::Num(n, _, v) => (h(n, nh), *v),
            F::Plain(n) => (h(n, nh), 1.0),
            F::Str(n, s) => (h(s, h(n, nh)), 1.0),
            F::Anon(_, v) => {
                k += 1;
                (nh.wrapping_add(k - 1), *v)
            }
        };
        out.add(ns, mask(hash, bits), v * scale);
    }
}

const VW_FEATS: [F; 13] = [
    F::Plain("f"),
    F::Num("f", "2", 2.0),
    F::Anon("1", 1.0),
    F::Str("f", "st"),
    F::Anon("-2.5", -2.5),
    F::Str("", "st"),
    F::Num("g", "-0.5", -0.5),
    F::Plain("é"),
    F::Num("f", "1e3", 1e3),
    F::Num("h", "0", 0.0),
    F::Num("7", "7", 7.0),
    F::Str("é", "日本"),
    F::Plain("a_rather_long_feature_name_of_more_than_sixteen_bytes_and_more_than_sixty_four_too"),
];

fn vw_feat(f: &F) -> String {
    match f {
        F::Num(n, s, _) => format!("{n}:{s}"),
        F::Plain(n) => n.to_string(),
        F::Str(n, s) => format!("{n}:{s}"),
        F::Anon(s, _) => format!(":{s}"),
    }
}

/// (text after the bar, namespace name, scale)
const VW_NS: [(&str, &str, f32); 8] = [
    ("a", "a", 1.0),
    (" ", " ", 1.0),
    ("b:2", "b", 2.0),
    ("ns:-0.5", "ns", -0.5),
    ("é", "é", 1.0),
    ("a:0", "a", 0.0),
    ("b:1e2", "b", 100.0),
    ("N", "N", 1.0),
];

const VW_INIT: [(&str, Option<(f32, f32)>); 12] = [
    ("1 ", Some((1.0, 1.0))),
    ("", None),
    ("-2.5 3 ", Some((-2.5, 3.0))),
    ("0.5 'tag", Some((0.5, 1.0))),
    (" ", None),
    ("'tag", None),
    ("tag", None),
    ("1 2 'tag ", Some((1.0, 2.0))),
    ("1e-3 0.25 tag", Some((1e-3, 0.25))),
    ("0 0 ", Some((0.0, 0.0))),
    ("'tag ", None),
    ("-1\t2\t", None), // replaced below: a tab is not the trailing space that ends a label
];

fn vw_segment(c: &mut Chooser, ns_n: usize, feat_n: usize, max: usize, seps: &[&str]) -> (String, usize, Vec<F>) {
    let ni = c.choose(ns_n);
    let fs: Vec<F> = c.seq(feat_n, 0, max).into_iter().map(|i| VW_FEATS[i]).collect();
    let sep = *c.of(seps);
    let mut s = format!("|{}", VW_NS[ni].0);
    for f in &fs {
        if !s.ends_with("| ") {
            s.push_str(sep);
        }
        s.push_str(&vw_feat(f));
    }
    (s, ni, fs)
}

fn check_parse(p: &AnyParser, text: &str, want: &Ex, lab: &Lab, strict_shared: bool, t: &mut Tally) -> Result<(), String> {
    t.eval();
    let r = guarded(|| p.p().parse(text))?.map_err(|e| format!("refused {text:?}: {e}"))?;
    let mut got = view(&r.0);
    let mut want = want.clone().sort();
    if !strict_shared {
        got = got.norm_shared();
        want = want.norm_shared();
    }
    ensure!(got == want, "{text:?}\n got features {got:?}\n want         {want:?}");
    let gl = view_label(&r.1);
    ensure!(gl == *lab, "{text:?}: got label {gl:?}, want {lab:?}");
    consistent_features(&r.0).map_err(|e| format!("{text:?}: {e}"))?;
    t.distinct(&(text, &got));
    t.sample(|| format!("{text:?} -> {gl:?} {got:?}"));
    Ok(())
}

fn check_refused(p: &AnyParser, text: &str, t: &mut Tally) -> Result<(), String> {
    t.eval();
    t.distinct(text);
    match guarded(|| p.p().parse(text)) {
        Ok(Ok((f, l))) => Err(format!("{text:?} should be refused, gave {:?} {:?}", view_label(&l), view(&f))),
        _ => Ok(()),
    }
}

pub fn c28(ctx: &Ctx) {
    c28_vw(ctx);
    c28_json(ctx);
    c28_ds(ctx);
    c28_letters(ctx);
    c28_numbers(ctx);
}

/// Every printable character of ASCII, some beyond it, and the control characters JSON can write.
fn letters() -> Vec<String> {
    (0u8..128).map(|b| (b as char).to_string()).chain(["\u{80}", "\u{a0}", "ß", "e\u{301}", "\u{200b}", "\u{2028}", "\u{3000}", "日", "\u{feff}", "\u{fffd}", "\u{1f600}", "\u{10ffff}"].map(String::from)).collect()
}

fn c28_letters(ctx: &Ctx) {
    let all = letters();
    ctx.bound(format!("{} letters (all of ASCII, except what a grammar gives a meaning) alone, first, last and in the middle of feature names, namespace names and string values of each format", all.len()));
    ctx.explore("letters", |c, t| {
        let (fmt, cb) = *c.of(&[(Fmt::Vw, false), (Fmt::Json, false), (Fmt::Ds, true), (Fmt::Vw, true), (Fmt::Json, true)]);
        let l = c.of(&all).clone();
        let place = c.choose(4);
        let word = [l.clone(), format!("{l}x"), format!("x{l}"), format!("x{l}y")][place].clone();
        let role = c.choose(4); // a feature's name, one with a value, a string value, a namespace
        let vw = fmt == Fmt::Vw;
        if vw && (l == " " || l == "|" || l == ":" || l.as_bytes()[0].is_ascii_control()) {
            return Ok(());
        }
        if vw && role == 2 && (fast_number(&word) || word.trim() != word) {
            return Ok(()); // a number, not a string; or a space that belongs to no value
        }
        if fmt == Fmt::Ds && word.starts_with('_') && role != 2 {
            return Ok(());
        }
        if role == 3 && word == " " {
            return Ok(()); // the default namespace's other name
        }
        let (seed, bits) = *c.of(&[(0u32, 18u8), (2623688649, 31)]);
        let q = |s: &str| serde_json::to_string(s).unwrap();
        if !vw && role != 2 && q(&word).contains('\\') {
            return Ok(()); // the known finding about escape sequences in keys, reported by a space of its own
        }
        let ns = if role == 3 { word.as_str() } else { "n" };
        let (nsd, nh) = ns_of(ns, seed);
        let mut e = Feats::default();
        let (vwf, jsf) = match role {
            0 => (word.clone(), format!("{}:true", q(&word))),
            1 => (format!("{word}:2"), format!("{}:2", q(&word))),
            2 => (format!("f:{word}"), format!("\"f\":{}", q(&word))),
            _ => ("f".to_string(), "\"f\":true".to_string()),
        };
        match role {
            0 => e.add(nsd, mask(h(&word, nh), bits), 1.0),
            1 => e.add(nsd, mask(h(&word, nh), bits), 2.0),
            2 => e.add(nsd, mask(h(&word, h("f", nh)), bits), 1.0),
            _ => e.add(nsd, mask(h("f", nh), bits), 1.0),
        }
        e.add(nsd, mask(h("last", nh), bits), 3.0);
        let obj = format!("{{{}:{{{jsf},\"last\":3}}}}", q(ns));
        let text = match (fmt, cb) {
            (Fmt::Vw, false) => format!("1 |{ns} {vwf} last:3"),
            (Fmt::Vw, true) => format!("shared |{ns} {vwf} last:3\n0:1:0.5 |{ns} {vwf} last:3"),
            (Fmt::Json, false) => format!("{{\"label\":{{\"value\":1}},\"features\":{obj}}}"),
            (Fmt::Json, true) => format!("{{\"label\":{{\"action\":0,\"cost\":1,\"probability\":0.5}},\"shared\":{obj},\"actions\":[{obj}]}}"),
            _ => format!("{{\"_label_cost\":1,\"_label_probability\":0.5,\"_labelIndex\":0,\"c\":{{{},\"_multi\":[{obj}]}}}}", &obj[1..obj.len() - 1]),
        };
        let (want, lab) = if cb { (Ex::Cb(Some(e.clone()), vec![e]), Lab::cb(0, 1.0, 0.5)) } else { (Ex::Simple(e), Lab::simple(1.0, 1.0)) };
        let p = AnyParser::fresh(fmt, cb, seed, bits);
        check_parse(&p, &text, &want, &lab, false, t)
    });
}

fn c28_numbers(ctx: &Ctx) {
    let sign = ["", "-", "+"];
    let int = ["", "0", "7", "00", "012", "3000", "16777217", "123456789012", "340282350000000000000000000000000000000"];
    let frac = ["", ".", ".0", ".5", ".25", ".05", ".000001", ".123456789", ".00000000000000000000001"];
    let exp = ["", "e0", "E2", "e+2", "e-2", "e05", "e-30", "E-45", "e20"];
    ctx.bound(format!("numbers: {} spellings (sign, whole part, fraction, exponent) as feature value, anonymous feature, namespace scale, label, importance weight, cost and probability of each format that can spell them so", sign.len() * int.len() * frac.len() * exp.len()));
    ctx.explore("numbers", |c, t| {
        let (s, i, fr, ex) = (*c.of(&sign), *c.of(&int), *c.of(&frac), *c.of(&exp));
        if i.is_empty() && fr.len() < 2 {
            return Ok(());
        }
        let n = format!("{s}{i}{fr}{ex}");
        let role = c.choose(7);
        let (seed, bits) = (0u32, 18u8);
        let p = |fmt, cb| AnyParser::fresh(fmt, cb, seed, bits);
        // VW text reads numbers as 32 bit floats
        let v: f32 = n.parse().map_err(|_| format!("harness: {n}"))?;
        if !v.is_finite() {
            return Ok(());
        }
        let one = |fs: &[F], scale: f32| {
            let mut e = Feats::default();
            add_all(&mut e, "a", scale, fs, seed, bits);
            e
        };
        let leaked = "x";
        let (text, cb, want, lab) = match role {
            0 => (format!("1 |a x:{n} y"), false, Ex::Simple(one(&[F::Num(leaked, "", v), F::Plain("y")], 1.0)), Lab::simple(1.0, 1.0)),
            1 => (format!("1 |a :{n} :{n}"), false, Ex::Simple(one(&[F::Anon("", v), F::Anon("", v)], 1.0)), Lab::simple(1.0, 1.0)),
            2 => (format!("1 |a:{n} x"), false, Ex::Simple(one(&[F::Plain("x")], v)), Lab::simple(1.0, 1.0)),
            3 => (format!("{n} |a x"), false, Ex::Simple(one(&[F::Plain("x")], 1.0)), Lab::simple(v, 1.0)),
            4 => (format!("1 {n} |a x"), false, Ex::Simple(one(&[F::Plain("x")], 1.0)), Lab::simple(1.0, v)),
            5 => (format!("0:{n}:0.5 |a x"), true, Ex::Cb(None, vec![one(&[F::Plain("x")], 1.0)]), Lab::cb(0, v, 0.5)),
            _ => (format!("0:1:{n} |a x"), true, Ex::Cb(None, vec![one(&[F::Plain("x")], 1.0)]), Lab::cb(0, 1.0, v)),
        };
        check_parse(&p(Fmt::Vw, cb), &text, &want, &lab, false, t)?;
        // JSON's own grammar is narrower; its numbers are read as 64 bit floats
        let json = s != "+" && !i.is_empty() && (i == "0" || !i.starts_with('0')) && fr != ".";
        let v: f32 = n.parse::<f64>().unwrap() as f32;
        if !json || !v.is_finite() {
            return Ok(());
        }
        let (text, cb, want, lab) = match role {
            0 => (format!("{{\"features\":{{\"a\":{{\"x\":{n},\"y\":true}}}}}}"), false, Ex::Simple(one(&[F::Num(leaked, "", v), F::Plain("y")], 1.0)), Lab::None),
            1 => (format!("{{\"features\":{{\"a\":[{n},{n}]}}}}"), false, Ex::Simple(one(&[F::Anon("", v), F::Anon("", v)], 1.0)), Lab::None),
            2 => (format!("{{\"label\":{n},\"features\":{{}}}}"), false, Ex::Simple(Feats::default()), Lab::simple(v, 1.0)),
            3 => (format!("{{\"label\":{{\"value\":{n}}},\"features\":{{}}}}"), false, Ex::Simple(Feats::default()), Lab::simple(v, 1.0)),
            4 => (format!("{{\"label\":{{\"value\":1,\"weight\":{n}}},\"features\":{{}}}}"), false, Ex::Simple(Feats::default()), Lab::simple(1.0, v)),
            5 => (format!("{{\"label\":{{\"action\":0,\"cost\":{n},\"probability\":0.5}},\"actions\":[{{}}]}}"), true, Ex::Cb(None, vec![Feats::default()]), Lab::cb(0, v, 0.5)),
            _ => (format!("{{\"label\":{{\"action\":0,\"cost\":1,\"probability\":{n}}},\"actions\":[{{}}]}}"), true, Ex::Cb(None, vec![Feats::default()]), Lab::cb(0, 1.0, v)),
        };
        check_parse(&p(Fmt::Json, cb), &text, &want, &lab, false, t)?;
        let (c1, p1) = if role == 6 { ("1".to_string(), n.clone()) } else { (n.clone(), "0.5".to_string()) };
        let text = format!("{{\"_label_cost\":{c1},\"_label_probability\":{p1},\"_labelIndex\":0,\"c\":{{\"_multi\":[{{\"a\":{{\"x\":{n}}}}},{{\"a\":[{n}]}}]}}}}");
        let lab = if role == 6 { Lab::cb(0, 1.0, v) } else { Lab::cb(0, v, 0.5) };
        let want = Ex::Cb(None, vec![one(&[F::Num(leaked, "", v)], 1.0), one(&[F::Anon("", v)], 1.0)]);
        check_parse(&p(Fmt::Ds, true), &text, &want, &lab, false, t)
    });
}

/// Whether a word reads as a number in VW text.
fn fast_number(w: &str) -> bool {
    let w = w.strip_prefix(['+', '-']).unwrap_or(w);
    w.bytes().next().is_some_and(|b| b.is_ascii_digit()) && w.bytes().all(|b| b.is_ascii_digit())
}

fn simple_lab(l: Option<(f32, f32)>) -> Lab {
    match l {
        Some((v, w)) => Lab::simple(v, w),
        None => Lab::None,
    }
}

fn c28_vw(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.bound("VW text: 11 label/tag parts x 0..2 namespaces x 0..2 features of a 13-letter alphabet (0..4 features in one namespace), 5 separators; multi-line groups of 0..3 actions with every labelled action");
    // every initial part, one segment
    let inits: Vec<_> = VW_INIT.iter().take(11).collect();
    ctx.explore("vw-one-namespace", |c, t| {
        let (init, lab) = **c.of(&inits);
        let (seed, bits) = *c.of(&EDGE);
        let (s, ni, fs) = vw_segment(c, 8, 13, if seed == 0 && bits == 18 { 2 } else { 1 }, &[" ", "  ", "\t"]);
        let tail = *c.of(&["", " "]);
        let mut e = Feats::default();
        add_all(&mut e, VW_NS[ni].1, VW_NS[ni].2, &fs, seed, bits);
        let p = AnyParser::fresh(Fmt::Vw, false, seed, bits);
        check_parse(&p, &format!("{init}{s}{tail}"), &Ex::Simple(e), &simple_lab(lab), true, t)
    });
    ctx.explore("vw-two-namespaces", |c, t| {
        let (seed, bits) = (0, 18);
        let n = c.b3(q, 9, 13);
        let (s1, n1, f1) = vw_segment(c, 4, n, 2, &[" "]);
        let (s2, n2, f2) = vw_segment(c, 4, n, 2, &[" "]);
        let glue = *c.of(&["", " "]);
        let mut e = Feats::default();
        add_all(&mut e, VW_NS[n1].1, VW_NS[n1].2, &f1, seed, bits);
        add_all(&mut e, VW_NS[n2].1, VW_NS[n2].2, &f2, seed, bits);
        let p = AnyParser::fresh(Fmt::Vw, false, seed, bits);
        check_parse(&p, &format!("1 {s1}{glue}{s2}"), &Ex::Simple(e), &Lab::simple(1.0, 1.0), true, t)
    });
    ctx.explore("vw-many-features", |c, t| {
        let (seed, bits) = *c.of(&[(0u32, 18u8), (2623688649, 18)]);
        let (s1, n1, f1) = vw_segment(c, 3, 7, if q { 4 } else { 6 }, &[" "]);
        let mut e = Feats::default();
        add_all(&mut e, VW_NS[n1].1, VW_NS[n1].2, &f1, seed, bits);
        let p = AnyParser::fresh(Fmt::Vw, false, seed, bits);
        check_parse(&p, &format!("1 {s1}"), &Ex::Simple(e), &Lab::simple(1.0, 1.0), true, t)
    });
    ctx.explore("vw-three-namespaces", |c, t| {
        // bars without any features in every position, namespaces repeated
        let (seed, bits) = (3, 18);
        let n = 1 + c.choose(4);
        let mut s = c.of(&["1 ", "", "'x"]).to_string();
        let lab = if s == "1 " { Lab::simple(1.0, 1.0) } else { Lab::None };
        let mut e = Feats::default();
        for _ in 0..n {
            // "", " " and a name alone: a namespace without features
            let seg = c.choose(6);
            s.push('|');
            match seg {
                0 => {}
                1 => s.push(' '),
                2 => s.push('a'),
                3 => {
                    s.push_str("a x:2 :3 ");
                    add_all(&mut e, "a", 1.0, &[F::Num("x", "2", 2.0), F::Anon("3", 3.0)], seed, bits);
                }
                4 => {
                    s.push_str(" x :3");
                    add_all(&mut e, " ", 1.0, &[F::Plain("x"), F::Anon("3", 3.0)], seed, bits);
                }
                _ => {
                    s.push_str("b:2 :3 :4");
                    add_all(&mut e, "b", 2.0, &[F::Anon("3", 3.0), F::Anon("4", 4.0)], seed, bits);
                }
            }
        }
        let p = AnyParser::fresh(Fmt::Vw, false, seed, bits);
        check_parse(&p, &s, &Ex::Simple(e), &lab, true, t)
    });
    ctx.explore("vw-multiline", |c, t| {
        let (seed, bits) = *c.of(&[(0u32, 18u8), (2623688649, 20)]);
        let segs: [(&str, &[(&str, f32, &[F])]); 5] = [
            ("|a x y:2", &[("a", 1.0, &[F::Plain("x"), F::Num("y", "2", 2.0)])]),
            ("| :1 :2", &[(" ", 1.0, &[F::Anon("1", 1.0), F::Anon("2", 2.0)])]),
            ("|", &[]),
            ("|b:3 q:st |a x", &[("b", 3.0, &[F::Str("q", "st")]), ("a", 1.0, &[F::Plain("x")])]),
            ("|a :1 :1 :1 :1 |b", &[("a", 1.0, &[F::Anon("1", 1.0); 4])]),
        ];
        let mk = |i: usize| {
            let mut e = Feats::default();
            for (n, sc, fs) in segs[i].1 {
                add_all(&mut e, n, *sc, fs, seed, bits);
            }
            e
        };
        let mut lines = vec![];
        let mut shared = None;
        if c.flag() {
            let i = c.choose(5);
            lines.push(format!("{}{}", c.of(&["shared ", "shared tag", "shared 'tag "]), segs[i].0));
            shared = Some(mk(i));
        }
        let n = c.choose(4);
        if n == 0 && shared.is_none() {
            return Ok(());
        }
        let mut acts = vec![];
        let mut labs = vec![];
        for k in 0..n {
            let i = c.choose(5);
            // the action number in the text is not what identifies the action: its line does
            let (pre, l) = *c.of(&[
                ("", None),
                ("0:1:0.5 ", Some((1.0f32, 0.5f32))),
                ("2:-3.5:0.25 'tag", Some((-3.5, 0.25))),
                ("tag", None),
            ]);
            if let Some((co, pr)) = l {
                labs.push(Lab::cb(k, co, pr));
            }
            lines.push(format!("{pre}{}", segs[i].0));
            acts.push(mk(i));
        }
        let text = lines.join("\n");
        let p = AnyParser::fresh(Fmt::Vw, true, seed, bits);
        if labs.len() > 1 {
            return check_refused(&p, &text, t);
        }
        let lab = labs.first().copied().unwrap_or(Lab::None);
        check_parse(&p, &text, &Ex::Cb(shared, acts), &lab, true, t)
    });
    ctx.explore("vw-many-actions", |c, t| {
        let n = *c.of(&[4usize, 5, 9, 40, 300]);
        let shared = c.flag();
        let k = c.choose(n + 1);
        let mut lines = vec![];
        if shared {
            lines.push("shared |s u".to_string());
        }
        let mut acts = vec![];
        for i in 0..n {
            lines.push(format!("{}|a x:{}", if i == k { "7:2:0.125 " } else { "" }, i + 1));
            let mut e = Feats::default();
            e.add(ns_of("a", 0).0, mask(h("x", h("a", 0)), 18), (i + 1) as f32);
            acts.push(e);
        }
        let mut sh = Feats::default();
        add_all(&mut sh, "s", 1.0, &[F::Plain("u")], 0, 18);
        let lab = if k < n { Lab::cb(k, 2.0, 0.125) } else { Lab::None };
        let p = AnyParser::fresh(Fmt::Vw, true, 0, 18);
        check_parse(&p, &lines.join("\n"), &Ex::Cb(shared.then_some(sh), acts), &lab, true, t)
    });
}

pub trait Pick {
    fn b3(&mut self, q: bool, a: usize, b: usize) -> usize;
}
impl Pick for Chooser {
    fn b3(&mut self, q: bool, a: usize, b: usize) -> usize {
        if q { a } else { b }
    }
}

// ------------------------------------------------------------------ JSON

/// one entry of a namespace object: text, effect
#[derive(Clone, Copy)]
enum JV {
    Num(&'static str, f32),
    Str(&'static str, &'static str), // json text, value
    True,
    False,
}
const JVALS: [JV; 11] = [
    JV::Num("2", 2.0),
    JV::True,
    JV::Str("\"st\"", "st"),
    JV::False,
    JV::Num("-0.5", -0.5),
    JV::Num("1e3", 1000.0),
    JV::Num("0.1", 0.1),
    JV::Str("\"\"", ""),
    JV::Str("\"a b\\n\\u00e9\"", "a b\né"),
    JV::Num("16777217", 16777216.0),
    JV::Num("0", 0.0),
];

fn jv_add(out: &mut Feats, ns: (Namespace, u32), key: &str, v: &JV, bits: u8) {
    match v {
        JV::Num(_, x) => out.add(ns.0, mask(h(key, ns.1), bits), *x),
        JV::True => out.add(ns.0, mask(h(key, ns.1), bits), 1.0),
        JV::Str(_, s) => out.add(ns.0, mask(h(s, h(key, ns.1)), bits), 1.0),
        JV::False => {}
    }
}
fn jv_text(v: &JV) -> &'static str {
    match v {
        JV::Num(t, _) | JV::Str(t, _) => t,
        JV::True => "true",
        JV::False => "false",
    }
}

const JKEYS: [&str; 5] = ["f", "g", "é", "", "7"];

/// A namespace's content: text and effect.
fn json_ns(c: &mut Chooser, name: &str, seed: u32, bits: u8, nv: usize, max: usize, out: &mut Feats) -> String {
    let ns = ns_of(name, seed);
    match c.choose(3) {
        0 => {
            let n = c.choose(max + 1);
            let mut parts = vec![];
            for i in 0..n {
                let k = JKEYS[i];
                let v = &JVALS[c.choose(nv)];
                parts.push(format!("\"{k}\":{}", jv_text(v)));
                jv_add(out, ns, k, v, bits);
            }
            format!("{{{}}}", parts.join(","))
        }
        1 => {
            let vals = [("1", 1.0f32), ("-2.5", -2.5), ("0", 0.0), ("3e2", 300.0)];
            let ix = c.seq(vals.len(), 0, max + 1);
            for (k, &i) in ix.iter().enumerate() {
                out.add(ns.0, mask(ns.1.wrapping_add(k as u32), bits), vals[i].1);
            }
            format!("[{}]", ix.iter().map(|&i| vals[i].0).collect::<Vec<_>>().join(", "))
        }
        _ => {
            let vals = ["\"x\"", "\"é\"", "\"a\\\"b\""];
            let sem = ["x", "é", "a\"b"];
            let ix = c.seq(vals.len(), 1, max + 1);
            for &i in &ix {
                out.add(ns.0, mask(h(sem[i], ns.1), bits), 1.0);
            }
            format!("[{}]", ix.iter().map(|&i| vals[i]).collect::<Vec<_>>().join(","))
        }
    }
}

fn c28_json(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.bound("JSON: 7 labels x 0..2 namespaces, each an object (0..2 entries of 11 value kinds), a number list or a string list of 0..3; CB with/without shared and 0..3 actions");
    let labs: Vec<(&str, Option<Lab>)> = vec![
        ("\"label\":{\"value\":0.25,\"weight\":2},", Some(Lab::simple(0.25, 2.0))),
        ("", Some(Lab::None)),
        ("\"label\":null,", Some(Lab::None)),
        ("\"label\":-1.5,", Some(Lab::simple(-1.5, 1.0))),
        ("\"label\":3,", Some(Lab::simple(3.0, 1.0))),
        ("\"label\":{\"value\":2},", Some(Lab::simple(2.0, 1.0))),
        ("\"label\":{\"weight\":0,\"value\":-7e-3},", Some(Lab::simple(-7e-3, 0.0))),
        ("\"label\":{\"weight\":1},", None),
        ("\"label\":\"x\",", None),
    ];
    ctx.explore("json-simple-one-namespace", |c, t| {
        let (l, lab) = c.of(&labs).clone();
        let (seed, bits) = *c.of(&EDGE);
        let name = *c.of(&["a", ":default", " ", "é", "ns"]);
        let mut e = Feats::default();
        let small = !(seed == 0 && bits == 18);
        let body = json_ns(c, name, seed, bits, 11, if small { 1 } else { 2 }, &mut e);
        let text = match c.choose(3) {
            0 => format!("{{{l}\"features\":{{\"{name}\":{body}}}}}"),
            1 => format!("{{{l} \"features\" : {{ \"{name}\" : {body} }} }}\n"),
            _ => format!("{{\"features\":{{\"{name}\":{body}}}, {l}\"zz\":1}}\r\n"),
        };
        let p = AnyParser::fresh(Fmt::Json, false, seed, bits);
        match lab {
            Some(lab) => check_parse(&p, &text, &Ex::Simple(e), &lab, true, t),
            None => check_refused(&p, &text, t),
        }
    });
    ctx.explore("json-simple-two-namespaces", |c, t| {
        let (seed, bits) = (0, 18);
        let mut e = Feats::default();
        let a = json_ns(c, "a", seed, bits, 4, 2, &mut e);
        let n2 = *c.of(&[":default", "b"]);
        let b = json_ns(c, n2, seed, bits, 4, 2, &mut e);
        let text = format!("{{\"label\":1,\"features\":{{\"a\":{a},\"{n2}\":{b}}}}}");
        let p = AnyParser::fresh(Fmt::Json, false, seed, bits);
        check_parse(&p, &text, &Ex::Simple(e), &Lab::simple(1.0, 1.0), true, t)
    });
    ctx.explore("json-long-lists", |c, t| {
        let n = *c.of(&[15usize, 16, 17, 255, 256, 257, 1000]);
        let strs = c.flag();
        let (seed, bits) = *c.of(&EDGE);
        let mut e = Feats::default();
        let ns = ns_of("a", seed);
        let body: Vec<String> = (0..n)
            .map(|i| {
                if strs {
                    let s = format!("s{i}");
                    e.add(ns.0, mask(h(&s, ns.1), bits), 1.0);
                    format!("\"{s}\"")
                } else {
                    e.add(ns.0, mask(ns.1.wrapping_add(i as u32), bits), i as f32 + 0.5);
                    format!("{}", i as f32 + 0.5)
                }
            })
            .collect();
        let text = format!("{{\"label\":1,\"features\":{{\"a\":[{}]}}}}", body.join(","));
        let p = AnyParser::fresh(Fmt::Json, false, seed, bits);
        check_parse(&p, &text, &Ex::Simple(e), &Lab::simple(1.0, 1.0), true, t)
    });
    let cblabs: Vec<(&str, Option<Lab>)> = vec![
        ("\"label\":{\"action\":1,\"cost\":-0.5,\"probability\":0.25},", Some(Lab::cb(1, -0.5, 0.25))),
        ("", Some(Lab::None)),
        ("\"label\":null,", Some(Lab::None)),
        ("\"label\":{\"probability\":1,\"action\":0,\"cost\":2},", Some(Lab::cb(0, 2.0, 1.0))),
        ("\"label\":{\"action\":1,\"cost\":-0.5},", None),
        ("\"label\":{\"action\":1,\"probability\":-0.5},", None),
        ("\"label\":{\"cost\":1,\"probability\":0.5},", None),
        ("\"label\":{\"action\":-1,\"cost\":1,\"probability\":0.5},", None),
    ];
    let bodies = |c: &mut Chooser, seed: u32, bits: u8, out: &mut Feats| -> String {
        let k = c.choose(if q { 4 } else { 6 });
        let (s, fs): (&str, Vec<(&str, Vec<F>)>) = match k {
            0 => ("{\"a\":{\"x\":1,\"y\":\"v\",\"z\":false}}", vec![("a", vec![F::Plain("x"), F::Str("y", "v")])]),
            1 => ("{}", vec![]),
            2 => ("{\":default\":[1,2],\"b\":[\"p\"]}", vec![(" ", vec![F::Anon("1", 1.0), F::Anon("2", 2.0)]), ("b", vec![F::Plain("p")])]),
            3 => ("{\"a\":[0.5]}", vec![("a", vec![F::Anon("", 0.5)])]),
            4 => ("{\"a\":{}}", vec![]),
            _ => ("{\"b\":{\"q\":true},\"a\":[1,2,3,4]}", vec![("b", vec![F::Plain("q")]), ("a", vec![F::Anon("", 1.0), F::Anon("", 2.0), F::Anon("", 3.0), F::Anon("", 4.0)])]),
        };
        for (n, f) in fs {
            add_all(out, n, 1.0, &f, seed, bits);
        }
        s.to_string()
    };
    ctx.explore("json-cb", |c, t| {
        let (l, lab) = c.of(&cblabs).clone();
        let (seed, bits) = *c.of(&[(0u32, 18u8), (2623688649, 31)]);
        let (sh, shared) = match c.choose(3) {
            0 => (String::new(), None),
            1 => ("\"shared\":null,".into(), None),
            _ => {
                let mut e = Feats::default();
                let s = bodies(c, seed, bits, &mut e);
                (format!("\"shared\":{s},"), Some(e))
            }
        };
        let n = c.choose(4);
        let mut acts = vec![];
        let mut txt = vec![];
        for _ in 0..n {
            let mut e = Feats::default();
            txt.push(bodies(c, seed, bits, &mut e));
            acts.push(e);
        }
        let text = format!("{{{l}{sh}\"actions\":[{}]}}", txt.join(","));
        let p = AnyParser::fresh(Fmt::Json, true, seed, bits);
        match lab {
            Some(lab) => check_parse(&p, &text, &Ex::Cb(shared, acts), &lab, true, t),
            None => check_refused(&p, &text, t),
        }
    });
    // Keys written with escape sequences denote the unescaped key.
    ctx.explore("json-escaped-keys", |c, t| {
        let (txt, key) = *c.of(&[("\\u00e9", "é"), ("a\\\"b", "a\"b"), ("\\t", "\t"), ("\\u0061", "a")]);
        let (place, fmt) = *c.of(&[(0, Fmt::Json), (1, Fmt::Json), (0, Fmt::Ds), (1, Fmt::Ds)]);
        let mut e = Feats::default();
        let (nt, nn, kt, kn) = if place == 0 { ("a", "a", txt, key) } else { (txt, key, "x", "x") };
        add_all(&mut e, nn, 1.0, &[F::Num(kn, "2", 2.0)], 0, 18);
        if fmt == Fmt::Json {
            let text = format!("{{\"label\":1,\"features\":{{\"{nt}\":{{\"{kt}\":2}}}}}}");
            let p = AnyParser::fresh(fmt, false, 0, 18);
            check_parse(&p, &text, &Ex::Simple(e), &Lab::simple(1.0, 1.0), true, t)
        } else {
            let text = format!("{{\"c\":{{\"{nt}\":{{\"{kt}\":2}},\"_multi\":[]}}}}");
            let p = AnyParser::fresh(fmt, true, 0, 18);
            check_parse(&p, &text, &Ex::Cb(Some(e), vec![]), &Lab::None, true, t)
        }
    });
}

// ------------------------------------------------------------------ DsJson

/// Objects nested at least this deep have at most one key.
const WIDE: usize = 1;

/// An object body (without braces) at namespace `ns`; `depth` levels of nesting may follow.
fn ds_obj(c: &mut Chooser, ns: (Namespace, u32), seed: u32, bits: u8, depth: usize, max: usize, out: &mut Feats, w: usize) -> String {
    let n = c.choose(max + 1);
    let mut parts = vec![];
    for i in 0..n {
        let ignored = i == 1 && c.flag();
        let key = if ignored { "_ig" } else { ["k", "m", "é"][i] };
        let mut sink = Feats::default();
        let o: &mut Feats = if ignored { &mut sink } else { out };
        let kinds = if depth > 0 { 11 } else { 7 };
        let kns = ns_of(key, seed);
        let body = match c.choose(if w == 0 { kinds } else { kinds.min(9) }) {
            0 => {
                o.add(ns.0, mask(h(key, ns.1), bits), 2.0);
                "2".to_string()
            }
            1 => {
                o.add(ns.0, mask(h("st", h(key, ns.1)), bits), 1.0);
                "\"st\"".to_string()
            }
            2 => {
                o.add(ns.0, mask(h(key, ns.1), bits), 1.0);
                "true".into()
            }
            3 => "false".into(),
            4 => {
                for (j, v) in [4.0f32, 5.5].iter().enumerate() {
                    o.add(kns.0, mask(kns.1.wrapping_add(j as u32), bits), *v);
                }
                "[4, 5.5]".into()
            }
            5 => {
                o.add(kns.0, mask(kns.1.wrapping_add(1), bits), 3.0);
                o.add(kns.0, mask(kns.1.wrapping_add(3), bits), -1.0);
                "[null,3,null,-1]".into()
            }
            6 => "[]".into(),
            7 => format!("{{{}}}", ds_obj(c, kns, seed, bits, depth - 1, if w + 1 < WIDE { max } else { 1 }, o, w + 1)),
            8 => format!("[{{{}}}]", ds_obj(c, kns, seed, bits, depth - 1, if w + 1 < WIDE { max } else { 1 }, o, w + 1)),
            9 => {
                let a = ds_obj(c, kns, seed, bits, depth - 1, 1, o, w + 1);
                let b = ds_obj(c, kns, seed, bits, depth - 1, 1, o, w + 1);
                format!("[{{{a}}},{{{b}}}]")
            }
            _ => {
                o.add(kns.0, mask(kns.1.wrapping_add(0), bits), 1.0);
                let a = ds_obj(c, kns, seed, bits, depth - 1, 1, o, w + 1);
                o.add(kns.0, mask(kns.1.wrapping_add(2), bits), 9.0);
                format!("[1,{{{a}}},9]")
            }
        };
        parts.push(format!("\"{key}\":{body}"));
    }
    parts.join(",")
}

fn c28_ds(ctx: &Ctx) {
    let q = ctx.quick();
    let (d, m) = if q { (2, 2) } else { (3, 2) };
    ctx.bound(format!("decision-service JSON: context objects nested {d} deep with 0..{m} keys of 11 kinds, 0..2 actions, all label-part combinations"));
    ctx.explore("ds-context", |c, t| {
        let (seed, bits) = (0u32, 18u8);
        let mut e = Feats::default();
        let body = ds_obj(c, (Namespace::Default, 0), seed, bits, d, m, &mut e, 0);
        let sep = if body.is_empty() { "" } else { "," };
        let text = match c.choose(2) {
            0 => format!("{{\"c\":{{{body}{sep}\"_multi\":[]}}}}"),
            _ => format!("{{\"c\":{{\"_multi\":[]{sep}{body}}}}}\n"),
        };
        let p = AnyParser::fresh(Fmt::Ds, true, seed, bits);
        check_parse(&p, &text, &Ex::Cb(Some(e), vec![]), &Lab::None, false, t)
    });
    ctx.explore("ds-deep", |c, t| {
        // one key per level, nested 1..=6 deep, then a value, then a sibling after closing
        let (seed, bits) = *c.of(&EDGE);
        let n = 1 + c.choose(6);
        let keys = ["a", "b", "ns", "a", ":default", "é"];
        let mut open = String::new();
        let mut close = String::new();
        let mut e = Feats::default();
        let mut last = (Namespace::Default, 0u32);
        for k in keys.iter().take(n) {
            let arr = c.flag();
            let parent = last;
            last = ns_of(k, seed);
            open.push_str(&format!("\"{k}\":{}", if arr { "[{" } else { "{" }));
            let after = c.flag();
            let mut cl = String::from(if arr { "}]" } else { "}" });
            if after {
                cl.push_str(",\"after\":3");
                e.add(parent.0, mask(h("after", parent.1), bits), 3.0);
            }
            close = format!("{cl}{close}");
        }
        e.add(last.0, mask(h("v", h("x", last.1)), bits), 1.0);
        let text = format!("{{\"c\":{{{open}\"x\":\"v\"{close},\"_multi\":[]}}}}");
        let p = AnyParser::fresh(Fmt::Ds, true, seed, bits);
        check_parse(&p, &text, &Ex::Cb(Some(e), vec![]), &Lab::None, false, t)
    });
    ctx.bound("decision-service JSON: an ignored key of 9 kinds at every depth from 1 to 12, in the context and in an action");
    ctx.explore("ds-ignored", |c, t| {
        let (seed, bits) = *c.of(&[(0u32, 18u8), (2623688649, 31)]);
        let n = 1 + c.choose(12);
        let d = c.choose(n);
        let arr = c.choose(3);
        let first = c.flag();
        let val = *c.of(&["1", "\"s\"", "true", "[1,2]", "{\"x\":1}", "[{\"x\":1}]", "{\"a\":{\"b\":[1]}}", "null", "{}"]);
        let key = *c.of(&["_", "_x", "__", "_multi_", "_é", "_tagged"]);
        let mut e = Feats::default();
        let mut last = (Namespace::Default, 0u32);
        let (mut open, mut close) = (String::new(), String::new());
        for k in 0..n {
            let boxed = arr == 1 || (arr == 2 && k % 2 == 1);
            // what stands on this level: the ignored key, a feature, and the next level's object
            let ig = if k == d { format!("\"{key}\":{val}") } else { String::new() };
            let parts = if first { [ig, "\"f\":2".to_string()] } else { ["\"f\":2".to_string(), ig] };
            let parts: Vec<String> = parts.into_iter().filter(|x| !x.is_empty()).collect();
            e.add(last.0, mask(h("f", last.1), bits), 2.0);
            open.push_str(&parts.join(","));
            if k + 1 < n {
                let name = ["a", "b", "ns", "q"][k % 4];
                open.push_str(&format!(",\"{name}\":{}", if boxed { "[{" } else { "{" }));
                close = format!("{}{close}", if boxed { "}]" } else { "}" });
                last = ns_of(name, seed);
            }
        }
        let body = format!("{open}{close}");
        let (text, want) = if c.flag() {
            (format!("{{\"c\":{{{body},\"_multi\":[]}}}}"), Ex::Cb(Some(e), vec![]))
        } else {
            (format!("{{\"c\":{{\"_multi\":[{{\"k\":1}},{{{body}}}]}}}}"), {
                let mut one = Feats::default();
                one.add(Namespace::Default, mask(h("k", 0), bits), 1.0);
                Ex::Cb(Some(Feats::default()), vec![one, e])
            })
        };
        let p = AnyParser::fresh(Fmt::Ds, true, seed, bits);
        check_parse(&p, &text, &want, &Lab::None, false, t)
    });
    ctx.explore("ds-actions", |c, t| {
        let (seed, bits) = *c.of(&[(0u32, 18u8), (2623688649, 31)]);
        let mut e = Feats::default();
        let body = ds_obj(c, (Namespace::Default, 0), seed, bits, 0, 1, &mut e, 0);
        let sep = if body.is_empty() { "" } else { "," };
        let n = c.choose(3);
        let mut acts = vec![];
        let mut txt = vec![];
        for _ in 0..n {
            let mut f = Feats::default();
            txt.push(format!("{{{}}}", ds_obj(c, (Namespace::Default, 0), seed, bits, 1, 1, &mut f, 0)));
            acts.push(f);
        }
        let lab = c.choose(12);
        let (l, lab) = if lab < 8 {
            let mut s = vec![];
            if lab & 1 == 1 {
                s.push("\"_label_cost\":-0.5");
            }
            if lab & 2 == 2 {
                s.push("\"_label_probability\":0.25");
            }
            if lab & 4 == 4 {
                s.push("\"_labelIndex\":1");
            }
            let mut txt = s.join(",");
            if !s.is_empty() {
                txt.push(',');
            }
            (txt, if lab == 0 { Some(Lab::None) } else if lab == 7 { Some(Lab::cb(1, -0.5, 0.25)) } else { None })
        } else {
            match lab {
                8 => ("\"_labelIndex\":0,\"_label_Action\":4,\"_label_probability\":1,\"_label_cost\":3,".to_string(), Some(Lab::cb(0, 3.0, 1.0))),
                9 => ("\"_label_cost\":\"1\",\"_label_probability\":0.25,\"_labelIndex\":1,".to_string(), None),
                10 => ("\"_label_cost\":1,\"_label_probability\":0.25,\"_labelIndex\":-1,".to_string(), None),
                _ => ("\"_label_Action\":4,\"a\":[1,2],\"p\":[0.5,0.5],\"_original_label_cost\":-1,\"o\":[{\"v\":1}],\"VWState\":{\"m\":\"x\"},".to_string(), Some(Lab::None)),
            }
        };
        let text = format!("{{{l}\"c\":{{{body}{sep}\"_multi\":[{}]}}}}", txt.join(","));
        let p = AnyParser::fresh(Fmt::Ds, true, seed, bits);
        match lab {
            Some(lab) => check_parse(&p, &text, &Ex::Cb(Some(e), acts), &lab, false, t),
            None => check_refused(&p, &text, t),
        }
    });
    ctx.explore("ds-many-actions", |c, t| {
        let n = *c.of(&[3usize, 5, 17, 300]);
        let mut acts = vec![];
        let txt: Vec<String> = (0..n)
            .map(|i| {
                let mut f = Feats::default();
                f.add(ns_of("i", 0).0, mask(h("x", h("i", 0)), 18), (i + 1) as f32);
                acts.push(f);
                format!("{{\"_tag\":\"t{i}\",\"i\":{{\"x\":{}}}}}", i + 1)
            })
            .collect();
        let text = format!("{{\"_label_cost\":1,\"_label_probability\":0.5,\"_labelIndex\":{},\"c\":{{\"_multi\":[{}]}}}}", n - 1, txt.join(","));
        let p = AnyParser::fresh(Fmt::Ds, true, 0, 18);
        check_parse(&p, &text, &Ex::Cb(Some(Feats::default()), acts), &Lab::cb(n - 1, 1.0, 0.5), false, t)
    });
}

// ------------------------------------------------------------------ C06

/// Abstract namespace content that all three formats can express.
const UNI: [F; 7] = [
    F::Plain("f"),
    F::Num("g", "-2.5", -2.5),
    F::Str("h", "st"),
    F::Num("é", "0.1", 0.1),
    F::Plain("zzzzzzzzzzzzzzzzzzzzzzzzzzzzz"),
    F::Str("7", "日本"),
    F::Str("k", ""),
];

/// One abstract namespace: name, either named features or numbers.
#[derive(Clone)]
enum Content {
    Named(Vec<F>),
    Nums(Vec<&'static str>),
    Strs(Vec<&'static str>),
}
type Abs = Vec<(&'static str, Content)>; // name " " = default

fn to_vw(a: &Abs) -> String {
    let mut s = String::new();
    for (n, c) in a {
        s.push('|');
        if *n != " " {
            s.push_str(n);
        }
        match c {
            Content::Named(v) => v.iter().for_each(|f| {
                s.push(' ');
                s.push_str(&vw_feat(f))
            }),
            Content::Nums(v) => v.iter().for_each(|x| s.push_str(&format!(" :{x}"))),
            Content::Strs(v) => v.iter().for_each(|x| s.push_str(&format!(" {x}"))),
        }
        s.push(' ');
    }
    if s.is_empty() {
        s.push('|');
    }
    s
}
fn obj(v: &[F], bools: bool) -> String {
    let p: Vec<String> = v
        .iter()
        .map(|f| match f {
            F::Plain(n) => format!("\"{n}\":{}", if bools { "true" } else { "1" }),
            F::Num(n, t, _) => format!("\"{n}\":{t}"),
            F::Str(n, s) => format!("\"{n}\":\"{s}\""),
            F::Anon(..) => unreachable!(),
        })
        .collect();
    p.join(",")
}
fn to_json(a: &Abs, bools: bool, ds: bool) -> String {
    let mut parts = vec![];
    for (n, c) in a {
        if ds && *n == " " {
            match c {
                Content::Named(v) => {
                    if !v.is_empty() {
                        parts.push(obj(v, bools))
                    }
                }
                Content::Nums(v) => parts.push(format!("\":default\":[{}]", v.join(","))),
                Content::Strs(_) => unreachable!(),
            }
            continue;
        }
        let name = if *n == " " { ":default" } else { n };
        parts.push(match c {
            Content::Named(v) => format!("\"{name}\":{{{}}}", obj(v, bools)),
            Content::Nums(v) => format!("\"{name}\":[{}]", v.join(",")),
            Content::Strs(v) if !ds => format!("\"{name}\":[{}]", v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")),
            Content::Strs(v) => format!("\"{name}\":{{{}}}", v.iter().map(|x| format!("\"{x}\":true")).collect::<Vec<_>>().join(",")),
        });
    }
    parts.join(",")
}

fn gen_abs(c: &mut Chooser, maxns: usize, maxf: usize) -> Abs {
    let names: [&'static str; 4] = ["a", " ", "ns", "é"];
    let n = c.choose(maxns + 1);
    let mut first = 0;
    let mut v = vec![];
    for _ in 0..n {
        if first >= names.len() {
            break;
        }
        let k = first + c.choose(names.len() - first);
        first = k + 1;
        let content = match c.choose(if names[k] == " " { 2 } else { 3 }) {
            0 => {
                // increasing subsets: distinct names
                let cnt = c.choose(maxf + 1);
                let mut fs = vec![];
                let mut lo = 0;
                for _ in 0..cnt {
                    if lo >= UNI.len() {
                        break;
                    }
                    let i = lo + c.choose(UNI.len() - lo);
                    lo = i + 1;
                    fs.push(UNI[i]);
                }
                Content::Named(fs)
            }
            1 => Content::Nums(c.seq(3, 0, maxf + 2).into_iter().map(|i| ["1", "-0.5", "0"][i]).collect()),
            _ => Content::Strs(["p", "é", "qq"].iter().take(c.choose(3)).copied().collect()),
        };
        v.push((names[k], content));
    }
    v
}

fn read_one(p: &AnyParser, text: &str) -> Result<(Ex, Lab), String> {
    let ch = guarded(|| chunks(p, text))?.map_err(|e| format!("reading {text:?}: {e}"))?;
    ensure!(ch.len() == 1, "{text:?}: {} examples read instead of 1", ch.len());
    let (f, l) = guarded(|| p.p().parse(&ch[0]))
        .map_err(|e| format!("{text:?}: {e}"))?
        .map_err(|e| format!("{text:?} refused: {e}"))?;
    Ok((view(&f), view_label(&l)))
}

pub fn c06(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.bound("regression examples of 0..2 namespaces with 0..2 named features, 0..4 numbers or 0..2 strings, 4 labels; bandit examples with and without shared, 1..3 actions, each labelled or none; 9 seed/width pairs; 0/1 booleans or numbers");
    let labs: [(&str, &str, Lab); 5] = [
        ("2.5 ", "\"label\":2.5,", Lab::simple(2.5, 1.0)),
        ("-1 ", "\"label\":{\"value\":-1},", Lab::simple(-1.0, 1.0)),
        ("3 0.5 ", "\"label\":{\"value\":3,\"weight\":0.5},", Lab::simple(3.0, 0.5)),
        ("", "", Lab::None),
        ("0.1 ", "\"label\":{\"value\":0.1,\"weight\":1},", Lab::simple(0.1, 1.0)),
    ];
    let simple = |c: &mut Chooser, t: &mut Tally, seed: u32, bits: u8, a: Abs| -> Result<(), String> {
        let (lv, lj, lab) = *c.of(&labs);
        let vw = format!("{lv}{}\n", to_vw(&a));
        let bools = c.flag();
        let js = format!("{{{lj}\"features\":{{{}}}}}\n", to_json(&a, bools, false));
        t.eval();
        if vw.trim().is_empty() {
            return Ok(()); // not expressible as a line
        }
        let (ev, l1) = read_one(&AnyParser::fresh(Fmt::Vw, false, seed, bits), &vw)?;
        let (ej, l2) = read_one(&AnyParser::fresh(Fmt::Json, false, seed, bits), &js)?;
        ensure!(ev == ej, "{vw:?} and {js:?} (seed {seed}, {bits} bits) parse differently:\n {ev:?}\n {ej:?}");
        ensure!(l1 == l2 && l1 == lab, "{vw:?} / {js:?}: labels {l1:?} / {l2:?}, want {lab:?}");
        t.distinct(&(&vw, &ev));
        t.sample(|| format!("{vw:?} == {js:?} -> {ev:?}"));
        Ok(())
    };
    ctx.explore("simple", |c, t| {
        let a = gen_abs(c, 2, 2);
        simple(c, t, 0, 18, a)
    });
    ctx.explore("simple-seeds", |c, t| {
        let (seed, bits) = *c.of(&EDGE);
        let a = gen_abs(c, 1, 2);
        simple(c, t, seed, bits, a)
    });
    ctx.explore("cb", |c, t| {
        let (seed, bits) = *c.of(&[(0u32, 18u8), (2623688649, 31), (2641386966, 5)]);
        let pick = |c: &mut Chooser| -> Abs {
            match c.choose(if q { 5 } else { 7 }) {
                0 => vec![("a", Content::Named(vec![UNI[0], UNI[1]]))],
                1 => vec![],
                2 => vec![(" ", Content::Named(vec![UNI[2]])), ("ns", Content::Nums(vec!["1", "2", "0", "-1"]))],
                3 => vec![("a", Content::Nums(vec!["1", "2", "3", "4", "5"]))],
                4 => vec![("é", Content::Strs(vec!["p", "é"]))],
                5 => vec![("a", Content::Named(vec![])), ("ns", Content::Nums(vec![]))],
                _ => vec![("a", Content::Named(vec![UNI[3], UNI[4], UNI[5]])), (" ", Content::Nums(vec!["0.5"]))],
            }
        };
        let shared: Option<Abs> = if c.flag() { Some(pick(c)) } else { None };
        let n = 1 + c.choose(3);
        let acts: Vec<Abs> = (0..n).map(|_| pick(c)).collect();
        let lab = c.choose(n + 1);
        t.eval();
        let mut lines = vec![];
        if let Some(s) = &shared {
            lines.push(format!("shared {}", if s.is_empty() { "|".into() } else { to_vw(s) }));
        }
        for (i, a) in acts.iter().enumerate() {
            let body = if a.is_empty() { "|".to_string() } else { to_vw(a) };
            lines.push(format!("{}{body}", if i == lab { "0:-1.5:0.25 " } else { "" }));
        }
        let vw = lines.join("\n") + "\n\n";
        let jl = if lab < n { format!("\"label\":{{\"action\":{lab},\"cost\":-1.5,\"probability\":0.25}},") } else { String::new() };
        let js = format!(
            "{{{jl}{}\"actions\":[{}]}}\n",
            shared.as_ref().map(|s| format!("\"shared\":{{{}}},", to_json(s, true, false))).unwrap_or_default(),
            acts.iter().map(|a| format!("{{{}}}", to_json(a, true, false))).collect::<Vec<_>>().join(",")
        );
        let dl = if lab < n { format!("\"_label_cost\":-1.5,\"_label_probability\":0.25,\"_labelIndex\":{lab},") } else { String::new() };
        let sh = shared.as_ref().map(|s| to_json(s, true, true)).unwrap_or_default();
        let ds = format!(
            "{{{dl}\"c\":{{{sh}{}\"_multi\":[{}]}}}}\n",
            if sh.is_empty() { "" } else { "," },
            acts.iter().map(|a| format!("{{{}}}", to_json(a, true, true))).collect::<Vec<_>>().join(",")
        );
        let want = if lab < n { Lab::cb(lab, -1.5, 0.25) } else { Lab::None };
        let (ev, l1) = read_one(&AnyParser::fresh(Fmt::Vw, true, seed, bits), &vw)?;
        let (ej, l2) = read_one(&AnyParser::fresh(Fmt::Json, true, seed, bits), &js)?;
        let (ed, l3) = read_one(&AnyParser::fresh(Fmt::Ds, true, seed, bits), &ds)?;
        ensure!(ev == ej, "{vw:?} and {js:?} (seed {seed}) parse differently:\n {ev:?}\n {ej:?}");
        let (nv, nd) = (ev.clone().norm_shared(), ed.norm_shared());
        ensure!(nv == nd, "{vw:?} and {ds:?} (seed {seed}) parse differently:\n {nv:?}\n {nd:?}");
        ensure!(l1 == want && l2 == want && l3 == want, "{vw:?}: labels {l1:?} {l2:?} {l3:?}, want {want:?}");
        t.distinct(&(&vw, &ev));
        t.sample(|| format!("{vw:?} == {js:?} == {ds:?}"));
        Ok(())
    });
    // Lists of words in which words repeat, in every arrangement
    let words = ["p", "é", "qq", "p p"];
    let long = ctx.b(5, 7);
    ctx.bound(format!("all lists of 0..{long} words over 3 in one or two namespaces, words repeated anywhere"));
    ctx.explore("repeats", |c, t| {
        let one = c.seq(3, 0, long);
        let two = if c.flag() { Some(c.seq(2, 0, 3)) } else { None };
        let list = |v: &[usize]| -> Vec<&'static str> { v.iter().map(|i| words[*i]).collect() };
        let mut a: Abs = vec![("a", Content::Strs(list(&one)))];
        if let Some(v) = &two {
            a.push(("ns", Content::Strs(list(v))));
        }
        simple(c, t, 3, 12, a)
    });
    ctx.explore("cb-repeats", |c, t| {
        let list = |v: Vec<usize>| -> Abs { vec![("a", Content::Strs(v.iter().map(|i| words[*i]).collect()))] };
        let shared = if c.flag() { Some(list(c.seq(2, 0, 3))) } else { None };
        let acts: Vec<Abs> = (0..2).map(|_| list(c.seq(2, 0, 3))).collect();
        let vw = shared.iter().map(|s| format!("shared {}", to_vw(s))).chain(acts.iter().map(to_vw)).collect::<Vec<_>>().join("\n") + "\n\n";
        let js = format!(
            "{{{}\"actions\":[{}]}}\n",
            shared.as_ref().map(|s| format!("\"shared\":{{{}}},", to_json(s, true, false))).unwrap_or_default(),
            acts.iter().map(|a| format!("{{{}}}", to_json(a, true, false))).collect::<Vec<_>>().join(",")
        );
        let (ev, _) = read_one(&AnyParser::fresh(Fmt::Vw, true, 3, 12), &vw)?;
        let (ej, _) = read_one(&AnyParser::fresh(Fmt::Json, true, 3, 12), &js)?;
        ensure!(ev == ej, "{vw:?} and {js:?} parse differently:\n {ev:?}\n {ej:?}");
        t.eval();
        t.distinct(&(vw, ev));
        Ok(())
    });
    // Whole numbers around the limits of the integer types, and their neighbours written as fractions
    ctx.explore("whole-numbers", |c, t| {
        let ints = [
            "0", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "16777215", "16777216", "2147483647", "2147483648", "3000000000",
            "4294967295", "4294967296", "1600000000000", "4503599627370496", "9007199254740992", "9223372036854775807", "9223372036854775808",
            "18446744073709551615", "18446744073709551616", "100000000000000000000000",
        ];
        let n = format!("{}{}{}", c.of(&["", "-"]), c.of(&ints), c.of(&["", ".0", "e0"]));
        let cb = c.flag();
        let body = c.choose(2);
        let (vwb, jsb) = if body == 0 { (format!("|a x:{n} y"), format!("{{\"a\":{{\"x\":{n},\"y\":true}}}}")) } else { (format!("|a :{n} :2"), format!("{{\"a\":[{n},2]}}")) };
        let one = |fmt, text: &str| read_one(&AnyParser::fresh(fmt, cb, 3, 18), text);
        t.eval();
        let (a, b) = if cb {
            let a = one(Fmt::Vw, &format!("shared {vwb}\n0:{n}:0.5 {vwb}\n\n"))?;
            let b = one(Fmt::Json, &format!("{{\"label\":{{\"action\":0,\"cost\":{n},\"probability\":0.5}},\"shared\":{jsb},\"actions\":[{jsb}]}}\n"))?;
            let d = one(Fmt::Ds, &format!("{{\"_label_cost\":{n},\"_label_probability\":0.5,\"_labelIndex\":0,\"c\":{{{},\"_multi\":[{jsb}]}}}}\n", &jsb[1..jsb.len() - 1]))?;
            ensure!(a == d, "{n} in VW text and decision service JSON: {a:?} / {d:?}");
            (a, b)
        } else if c.flag() {
            (one(Fmt::Vw, &format!("{n} {vwb}\n"))?, one(Fmt::Json, &format!("{{\"label\":{n},\"features\":{jsb}}}\n"))?)
        } else {
            (one(Fmt::Vw, &format!("1 {n} {vwb}\n"))?, one(Fmt::Json, &format!("{{\"label\":{{\"value\":1,\"weight\":{n}}},\"features\":{jsb}}}\n"))?)
        };
        ensure!(a == b, "{n} in VW text and JSON: {a:?} / {b:?}");
        t.distinct(&(n, body, a));
        Ok(())
    });
    // Constant feature names that only differ in length or encoding, one format against another
    ctx.explore("names", |c, t| {
        let lens = [0usize, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 240, 241, 300];
        let n: String = "é日x".chars().cycle().take(*c.of(&lens)).collect();
        let m: String = "n".repeat(1 + *c.of(&lens));
        let (seed, bits) = *c.of(&EDGE);
        let kind = c.choose(2);
        let (vw, js) = if kind == 0 {
            (format!("1 |{m} q{n}:2\n"), format!("{{\"label\":1,\"features\":{{\"{m}\":{{\"q{n}\":2}}}}}}\n"))
        } else {
            (format!("1 |{m} q{n}:s{n}\n"), format!("{{\"label\":1,\"features\":{{\"{m}\":{{\"q{n}\":\"s{n}\"}}}}}}\n"))
        };
        t.eval();
        let (a, _) = read_one(&AnyParser::fresh(Fmt::Vw, false, seed, bits), &vw)?;
        let (b, _) = read_one(&AnyParser::fresh(Fmt::Json, false, seed, bits), &js)?;
        ensure!(a == b, "{vw:?} and {js:?}: {a:?} / {b:?}");
        t.distinct(&(vw, a));
        Ok(())
    });
}

// ------------------------------------------------------------------ C04

fn c04_chunks(fmt: Fmt, cb: bool) -> Vec<String> {
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let long = |n: usize| (0..n).map(|i| format!("{}", i + 1)).collect::<Vec<_>>().join(",");
    let longs = |n: usize| (0..n).map(|i| format!("\"s{i}\"")).collect::<Vec<_>>().join(",");
    match (fmt, cb) {
        (Fmt::Vw, false) => s(&["1 |a x y:2 z:st |b :1 :2", "2 3 |a x", "|b q |c r |a", "-1 | d e :5", "0 |c u:0.5 |b :1 :2 :3 :4", "1 |", "1 |a"]),
        (Fmt::Vw, true) => s(&[
            "shared |s a b\n0:1:0.5 |a x\n|a y",
            "|a x y z\n1:2:0.25 |b :1 :2",
            "shared |a x\n|s q\n|a\n0:1:1 |b w",
            "shared | a |s b:2\n|a x:3 |b :9",
            "|a only",
            "shared |s\n0:0:0.5 |",
        ]),
        (Fmt::Json, false) => vec![
            format!("{{\"label\":1,\"features\":{{\"a\":[{}]}}}}", long(12)),
            "{\"label\":2,\"features\":{\"a\":[\"p\",\"q\"]}}".into(),
            format!("{{\"label\":1,\"features\":{{\"a\":[{}],\"b\":{{\"t\":true}}}}}}", longs(9)),
            "{\"features\":{\"b\":{\"x\":1,\"y\":\"v\",\"z\":false}}}".into(),
            "{\"label\":0,\"features\":{\"c\":{\"w\":3},\":default\":{\"k\":2}}}".into(),
            "{\"label\":1,\"features\":{}}".into(),
            "{\"label\":{\"value\":1,\"weight\":2},\"features\":{\"a\":{},\"b\":[\"only\"]}}".into(),
        ],
        (Fmt::Json, true) => vec![
            format!("{{\"label\":{{\"action\":0,\"cost\":1,\"probability\":0.5}},\"shared\":{{\"s\":[{}]}},\"actions\":[{{\"a\":[\"x\",\"y\"]}},{{\"b\":{{\"k\":1}}}}]}}", longs(8)),
            "{\"actions\":[{\"s\":[\"p\"]},{\"a\":[\"q\",\"r\",\"t\"]},{}]}".into(),
            "{\"label\":{\"action\":1,\"cost\":-1,\"probability\":0.25},\"shared\":{},\"actions\":[{\"a\":[1,2,3]},{\"a\":[4]}]}".into(),
            "{\"shared\":{\"a\":{\"k\":true},\":default\":{\"m\":2}},\"actions\":[{\"b\":[\"z\"]}]}".into(),
            "{\"label\":{\"action\":0,\"cost\":1,\"probability\":1},\"actions\":[{\"b\":{\"k\":\"v\"},\"a\":{}}]}".into(),
        ],
        (Fmt::Ds, _) => s(&[
            "{\"_label_cost\":1,\"_label_probability\":0.5,\"_labelIndex\":0,\"c\":{\"s\":{\"u\":\"v\",\"n\":[1,2,3]},\"_multi\":[{\"a\":{\"x\":1}},{\"b\":[5,6]}]}}",
            "{\"c\":{\"k\":true,\"_multi\":[{\"a\":{\"y\":2}},{\"s\":{\"q\":1}},{\"b\":{\"r\":false}}]}}",
            "{\"_label_cost\":-1,\"_label_probability\":0.25,\"_labelIndex\":1,\"c\":{\"_multi\":[{\"n\":[7]},{\"a\":{\"x\":\"y\"},\"b\":[1,null,2]}]}}",
            "{\"c\":{\"a\":[{\"p\":1},{\"q\":2}],\"b\":{},\"_multi\":[{\"s\":3}]}}",
            "{\"_label_cost\":0,\"_label_probability\":1,\"_labelIndex\":0,\"c\":{\"n\":[1],\"_multi\":[{}]}}",
        ]),
    }
}

/// The namespaces of each container, those without features included, and whether it calls itself empty.
pub fn present(f: &Features) -> Vec<(Vec<Namespace>, bool)> {
    let one = |s: &SparseFeatures| (s.namespaces().map(|(n, _)| n).collect::<Vec<_>>(), s.empty());
    match f {
        Features::SparseSimple(s) => vec![one(s)],
        Features::SparseSimpleRef(s) => vec![one(s)],
        Features::SparseCBAdf(a) => a.shared.iter().chain(&a.actions).map(one).collect(),
        Features::SparseCBAdfRef(a) => a.shared.iter().chain(&a.actions).map(one).collect(),
    }
}

fn c04_ws(cb: bool) -> Workspace {
    let inter = "[[{\"Name\":\"a\"},{\"Name\":\"b\"}],[{\"Name\":\"a\"},{\"Name\":\"a\"}],[{\"Name\":\"s\"},{\"Name\":\"a\"}],[{\"Name\":\"a\"},{\"Name\":\"b\"},\"Default\"]]";
    let entry = if cb { "{\"typename\":\"CbAdf\",\"config\":{\"cbType\":\"ips\"}}" } else { "{\"typename\":\"Coin\"}" };
    Workspace::new(Configuration::from_json_str(&format!("{{\"globalConfig\":{{\"numBits\":6,\"interactions\":{inter}}},\"entryReduction\":{entry}}}")).unwrap()).unwrap()
}

fn dummy_pred(cb: bool) -> Prediction {
    if cb {
        ActionProbsPrediction(vec![(0, 1.0)]).into()
    } else {
        ScalarPrediction { prediction: 0.0, raw_prediction: 0.0 }.into()
    }
}

pub fn c04(ctx: &Ctx) {
    let d = ctx.b(5, 6);
    ctx.bound(format!("all histories of {d} parse/return-oldest/return-newest operations over 5..7 chunks per format, through one pool, each parse compared with a parse through a fresh pool; predictions, metrics and learning compared after each"));
    for (fmt, cb) in [(Fmt::Vw, false), (Fmt::Vw, true), (Fmt::Json, false), (Fmt::Json, true), (Fmt::Ds, true)] {
        let ch = c04_chunks(fmt, cb);
        let name = format!("recycle-{fmt:?}-{}", if cb { "cb" } else { "simple" }).to_lowercase();
        ctx.explore(&name, |c, t| {
            let pool: Arc<Pool<SparseFeatures>> = Arc::new(Pool::new());
            let p = AnyParser::new(fmt, cb, 0, 6, pool.clone());
            let mut held: Vec<Features<'static>> = vec![];
            let mut ws_a = c04_ws(cb);
            let mut ws_b = c04_ws(cb);
            let mut trace = vec![];
            let mut met = get_metric("parsed_features").unwrap();
            let mut met2 = get_metric("parsed_features").unwrap();
            let n = ch.len();
            for _ in 0..d {
                let op = c.choose(n + if held.is_empty() { 0 } else if held.len() == 1 { 1 } else { 2 });
                trace.push(op);
                if op < n {
                    let (mut fa, la) = guarded(|| p.p().parse(&ch[op]))
                        .map_err(|e| format!("history {trace:?}: parsing {:?} through the used pool: {e}", ch[op]))?
                        .map_err(|e| format!("history {trace:?}: {:?} refused: {e}", ch[op]))?;
                    let fresh = AnyParser::fresh(fmt, cb, 0, 6);
                    let (mut fb, lb) = guarded(|| fresh.p().parse(&ch[op]))?.map_err(|e| format!("fresh parse refused: {e}"))?;
                    t.eval();
                    t.step();
                    let (va, vb) = (view(&fa), view(&fb));
                    ensure!(va == vb, "history {trace:?}: {:?} parsed to\n {va:?} instead of\n {vb:?}", ch[op]);
                    ensure!(view_label(&la) == view_label(&lb), "history {trace:?}: label differs");
                    consistent_features(&fa).map_err(|e| format!("history {trace:?}: {e}"))?;
                    let (na, nb) = (present(&fa), present(&fb));
                    ensure!(na == nb, "history {trace:?}: {:?} parsed to containers with the namespaces\n {na:?} instead of\n {nb:?}", ch[op]);
                    {
                        use approx::AbsDiffEq;
                        ensure!(fa.abs_diff_eq(&fb, 0.0) && fb.abs_diff_eq(&fa, 0.0), "history {trace:?}: containers compare unequal");
                    }
                    let pa = guarded(|| ws_a.predict(&mut fa))?;
                    let pb = guarded(|| ws_b.predict(&mut fb))?;
                    ensure!(pa == pb, "history {trace:?}: prediction {pa:?} instead of {pb:?}");
                    ensure!(view(&fa) == va, "history {trace:?}: predicting changed the recycled features");
                    met.add_point(&fa, &la.unwrap_or(dummy_label(cb)), &dummy_pred(cb));
                    met2.add_point(&fb, &lb.unwrap_or(dummy_label(cb)), &dummy_pred(cb));
                    ensure!(met.get_value().to_string() == met2.get_value().to_string(), "history {trace:?}: feature count metric differs");
                    if let (Some(la), Some(lb)) = (&la, &lb) {
                        guarded(|| ws_a.learn(&mut fa, la))?;
                        guarded(|| ws_b.learn(&mut fb, lb))?;
                    }
                    t.distinct(&(&name, &va, held.len(), pool.len()));
                    held.push(fa);
                } else if op == n {
                    held.remove(0).clear_and_return_object(&pool);
                } else {
                    held.pop().unwrap().clear_and_return_object(&pool);
                }
                t.state(&(&name, held.iter().map(view).collect::<Vec<_>>(), pool.len()));
            }
            ensure!(ws_a.serialize_model().unwrap() == ws_b.serialize_model().unwrap(), "history {trace:?}: the model learnt from recycled containers differs");
            t.sample(|| format!("{name}: history {trace:?} (op >= {n}: return)"));
            Ok(())
        });
    }
}

fn dummy_label(cb: bool) -> Label {
    if cb {
        reductionml_core::CBLabel::new(0, 0.0, 1.0).into()
    } else {
        reductionml_core::SimpleLabel::new(0.0, 1.0).into()
    }
}

// ------------------------------------------------------------------ C07

/// Delivers the text in pieces ending at the given cut positions; optionally an Interrupted error before
/// each piece, and optionally a real error once `fail_at` bytes were delivered.
struct Cut<'a> {
    data: &'a [u8],
    pos: usize,
    cuts: &'a [usize],
    interrupt: bool,
    pending: bool,
    fail_at: Option<usize>,
}
impl Read for Cut<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = {
            let s = self.fill_buf()?;
            let n = s.len().min(b.len());
            b[..n].copy_from_slice(&s[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Cut<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.fail_at == Some(self.pos) {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "disk on fire"));
        }
        if self.interrupt && self.pending {
            self.pending = false;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let end = self.cuts.iter().copied().find(|&c| c > self.pos).unwrap_or(self.data.len());
        let end = match self.fail_at {
            Some(f) if f > self.pos => end.min(f),
            _ => end,
        };
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        if n > 0 {
            self.pending = true;
        }
    }
}

/// The examples of a text, by the definition of the format.
fn ref_split(text: &str, fmt: Fmt, cb: bool) -> Vec<String> {
    let mut lines: Vec<&str> = text.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    let lines: Vec<&str> = lines.into_iter().map(|l| l.trim_end()).collect();
    match (fmt, cb) {
        (Fmt::Vw, true) => {
            let mut out = vec![];
            let mut cur: Vec<&str> = vec![];
            for l in lines {
                if l.is_empty() {
                    if !cur.is_empty() {
                        out.push(cur.join("\n"));
                        cur.clear();
                    }
                } else {
                    cur.push(l);
                }
            }
            if !cur.is_empty() {
                out.push(cur.join("\n"));
            }
            out
        }
        (Fmt::Vw, false) => lines.into_iter().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect(),
        _ => lines.into_iter().map(|l| l.to_string()).collect(),
    }
}

fn read_all(p: &AnyParser, r: &mut Cut, limit: usize) -> Result<Vec<String>, String> {
    let mut v = vec![];
    let mut buf = String::from("|junk left in the buffer\n");
    loop {
        match p.p().next(r, buf)? {
            None => return Ok(v),
            Some(c) => {
                v.push(c.trim_end().to_string());
                buf = c;
                ensure!(v.len() <= limit, "the reader does not come to an end: {v:?}");
            }
        }
    }
}

pub fn c07(ctx: &Ctx) {
    let maxl = ctx.b(5, 6);
    ctx.bound(format!("texts of 0..{maxl} lines from 6 line kinds and 2 line endings, with and without final newline, in 4 readers; every single cut, every pair of cuts for texts up to 14 bytes, all-bytes cuts; interrupted reads; a read error at every byte"));
    for (fmt, cb) in [(Fmt::Vw, false), (Fmt::Vw, true), (Fmt::Json, false), (Fmt::Ds, true)] {
        let name = format!("read-{fmt:?}-{}", if cb { "cb" } else { "simple" }).to_lowercase();
        // JSON lines are never blank in a well-formed file
        let kinds: &[&str] = if fmt == Fmt::Vw { &["x", "", "é|y", "  ", "\t", " z \t"] } else { &["{}", "é", " w", "v \t"] };
        ctx.explore(&name, |c, t| {
            let n = c.choose(maxl + 1);
            let mut text = String::new();
            for i in 0..n {
                text.push_str(*c.of(kinds));
                if i + 1 < n {
                    text.push_str(*c.of(&["\n", "\r\n"]));
                } else {
                    text.push_str(*c.of(&["\n", "", "\r\n"]));
                }
            }
            let want = ref_split(&text, fmt, cb);
            let p = AnyParser::fresh(fmt, cb, 0, 18);
            let data = text.as_bytes();
            let len = data.len();
            let mut cutsets: Vec<Vec<usize>> = vec![vec![]];
            for i in 1..len {
                cutsets.push(vec![i]);
            }
            if len <= 14 {
                for i in 1..len {
                    for j in i + 1..len {
                        cutsets.push(vec![i, j]);
                    }
                }
            }
            cutsets.push((1..len).collect());
            for cuts in &cutsets {
                for interrupt in [false, true] {
                    let mut r = Cut { data, pos: 0, cuts, interrupt, pending: true, fail_at: None };
                    let got = guarded(|| read_all(&p, &mut r, want.len() + 3))??;
                    t.eval();
                    t.step();
                    ensure!(got == want, "{text:?} delivered with cuts {cuts:?}{}: read {got:?}, want {want:?}", if interrupt { " and interruptions" } else { "" });
                    // and it stays at the end
                    let again = guarded(|| p.p().next(&mut r, String::new()))??;
                    ensure!(again.is_none(), "{text:?}: something after the end: {again:?}");
                }
            }
            // An unreadable input is an error, never a shorter file or a partial example.
            for f in 0..=len {
                let mut r = Cut { data, pos: 0, cuts: &[], interrupt: false, pending: true, fail_at: Some(f) };
                let mut seen: Vec<String> = vec![];
                let mut buf = String::new();
                let mut failed = false;
                for _ in 0..want.len() + 3 {
                    match guarded(|| p.p().next(&mut r, buf))? {
                        Err(_) => {
                            failed = true;
                            break;
                        }
                        Ok(None) => break,
                        Ok(Some(x)) => {
                            seen.push(x.trim_end().to_string());
                            buf = x;
                        }
                    }
                }
                t.eval();
                ensure!(failed, "{text:?}: read error after {f} bytes was swallowed; examples {seen:?}");
                ensure!(want.starts_with(&seen), "{text:?}: read error after {f} bytes produced the partial examples {seen:?}");
            }
            t.distinct(&(&name, &text));
            t.state(&(&name, &want));
            t.sample(|| format!("{name}: {text:?} -> {want:?} under {} cut patterns", cutsets.len()));
            Ok(())
        });
    }
    ctx.explore("long-lines", |c, t| {
        // lines and groups longer than any internal buffer, cut in blocks
        let (fmt, cb) = *c.of(&[(Fmt::Vw, false), (Fmt::Vw, true), (Fmt::Json, false), (Fmt::Ds, true)]);
        let n = *c.of(&[1usize, 127, 8191, 8192, 8193, 70000]);
        let block = *c.of(&[1usize, 7, 4096, 8192, 100000]);
        let line: String = "aé".chars().cycle().take(n).collect();
        let text = match c.choose(3) {
            0 => format!("{line}\n{line}\n{line}"),
            1 => format!("{line}\r\n\r\n{line}\nx\n"),
            _ => format!("x\n{line}\n\n\nx\n{line}\n"),
        };
        if fmt != Fmt::Vw && text.contains("\n\n") || fmt != Fmt::Vw && text.contains("\n\r") {
            return Ok(());
        }
        if n > 10000 && block < 7 {
            return Ok(());
        }
        let want = ref_split(&text, fmt, cb);
        let cuts: Vec<usize> = (1..text.len()).filter(|i| i % block == 0).take(20000).collect();
        let p = AnyParser::fresh(fmt, cb, 0, 18);
        let mut br = std::io::BufReader::with_capacity(block, text.as_bytes());
        let mut got = vec![];
        let mut buf = String::new();
        while let Some(x) = guarded(|| p.p().next(&mut br, buf))?? {
            got.push(x.trim_end().to_string());
            buf = x;
        }
        ensure!(got == want, "long text: {} examples instead of {}", got.len(), want.len());
        if cuts.len() < 5000 {
            let mut r = Cut { data: text.as_bytes(), pos: 0, cuts: &cuts, interrupt: true, pending: true, fail_at: None };
            let got = guarded(|| read_all(&p, &mut r, want.len() + 3))??;
            ensure!(got == want, "long text in blocks of {block}: {} examples instead of {}", got.len(), want.len());
        }
        t.eval();
        t.distinct(&(fmt, cb, n, block, text.len()));
        Ok(())
    });
    ctx.explore("invalid-utf8", |c, t| {
        let (fmt, cb) = *c.of(&[(Fmt::Vw, false), (Fmt::Vw, true), (Fmt::Json, false), (Fmt::Ds, true)]);
        let pos = c.choose(8);
        let mut data = b"ab\ncd\nef".to_vec();
        data.insert(pos, 0xff);
        let p = AnyParser::fresh(fmt, cb, 0, 18);
        let mut r = Cut { data: &data, pos: 0, cuts: &[], interrupt: false, pending: false, fail_at: None };
        let got = guarded(|| read_all(&p, &mut r, 5))?;
        t.eval();
        t.distinct(&(fmt, cb, pos));
        ensure!(got.is_err(), "invalid UTF-8 was read as {got:?}");
        Ok(())
    });
}

// ------------------------------------------------------------------ C08

/// A weight table that records which index is visited with which value.
pub struct Probe(pub std::cell::RefCell<Vec<u32>>, pub Vec<f32>);
impl reductionml_core::weights::Weights for Probe {
    fn weight_at(&self, i: reductionml_core::FeatureIndex, _: reductionml_core::ModelIndex) -> f32 {
        self.0.borrow_mut().push(u32::from(i));
        0.0
    }
    fn weight_at_mut(&mut self, _: reductionml_core::FeatureIndex, _: reductionml_core::ModelIndex) -> &mut f32 {
        unreachable!()
    }
    fn state_at(&self, i: reductionml_core::FeatureIndex, _: reductionml_core::ModelIndex) -> &[f32] {
        self.0.borrow_mut().push(u32::from(i));
        &self.1
    }
    fn state_at_mut(&mut self, i: reductionml_core::FeatureIndex, _: reductionml_core::ModelIndex) -> &mut [f32] {
        self.0.borrow_mut().push(u32::from(i));
        &mut self.1
    }
}

const FNV: u32 = 16777619;

/// Namespaces by name; the inverse table knows the default one as ":default" and " ".
fn inv(name: &str, f: &F, anon: &mut u32) -> Feature {
    let namespace = name.to_string();
    match f {
        F::Num(n, _, _) | F::Plain(n) => Feature::Simple { namespace, name: n.to_string() },
        F::Str(n, s) => Feature::SimpleWithStringValue { namespace, name: n.to_string(), value: s.to_string() },
        F::Anon(..) => {
            *anon += 1;
            Feature::Anonymous { namespace, offset: *anon - 1 }
        }
    }
}

pub fn c08(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.bound("every feature kind of a 13-letter alphabet in 7 namespaces (default included) x 32 index widths (0..=31) x 9 seeds, three of which put a namespace hash at 2^32-3; interactions of order 2 and 3 over all feature pairs/triples; names extracted from lines of 0..3 namespaces");
    let seeds: Vec<u32> = vec![0, 1, 7, 255, u32::MAX, 0x8000_0000, 2623688649, 2623491786, 2641386966];
    let names = [" ", "a", "b", "ns", "é", "N", ":default"];
    ctx.explore("single", |c, t| {
        let seed = *c.of(&seeds);
        let bits = c.choose(32) as u8;
        let name = *c.of(&names);
        let lead = c.choose(5); // anonymous features before it
        let f = *c.of(&VW_FEATS);
        let mut fs = vec![F::Anon("1", 1.0); lead];
        fs.push(f);
        t.eval();
        let (ns, nh) = ns_of(name, seed);
        let want = match f {
            F::Num(n, _, _) | F::Plain(n) => h(n, nh),
            F::Str(n, s) => h(s, h(n, nh)),
            F::Anon(..) => nh.wrapping_add(lead as u32),
        };
        let wm = mask(want, bits);
        // the parsers
        let mut got: Vec<(String, u32)> = vec![];
        if name != ":default" {
            let line = format!("1 |{}{}", if name == " " { "" } else { name }, fs.iter().map(|f| format!(" {}", vw_feat(f))).collect::<String>());
            let p = AnyParser::fresh(Fmt::Vw, false, seed, bits);
            let (ft, _) = guarded(|| p.p().parse(&line)).map_err(|e| format!("{line:?} seed {seed} bits {bits}: {e}"))??;
            let s: &SparseFeatures = reductionml_core::utils::AsInner::as_inner(&ft).unwrap();
            let x = s.get_namespace(ns).ok_or("namespace missing")?.iter().last().ok_or("no feature")?;
            got.push(("vw text".into(), u32::from(x.0)));
            // names extracted from the same line
            let pool = Arc::new(Pool::new());
            let vp = VwTextParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, seed, bits, pool);
            let m = guarded(|| vp.extract_feature_names(&line))?.map_err(|e| e.to_string())?;
            ensure!(m.len() == 1, "{line:?}: names of {} namespaces extracted", m.len());
            for (k, v) in &m {
                let n = match k {
                    ParsedNamespaceInfo::Named(n) => *n,
                    ParsedNamespaceInfo::Default => ":default",
                };
                ensure!(ns_of(n, seed).0 == ns, "{line:?}: names extracted for namespace {n:?}");
                let last = v.last().ok_or("no name extracted")?;
                let fh = guarded(|| Feature::from_parsed_feature(last, n).hash(seed)).map_err(|e| format!("{line:?} seed {seed}: {e}"))?;
                got.push(("extracted name".into(), u32::from(fh.mask(FeatureMask::from_num_bits(bits)))));
            }
        }
        {
            let body = match f {
                F::Num(n, v, _) => format!("{{\"{n}\":{v}}}"),
                F::Plain(n) => format!("{{\"{n}\":true}}"),
                F::Str(n, s) => format!("{{\"{n}\":\"{s}\"}}"),
                F::Anon(..) => format!("[{}]", fs.iter().map(|_| "1").collect::<Vec<_>>().join(",")),
            };
            let line = format!("{{\"label\":1,\"features\":{{\"{name}\":{body}}}}}");
            let p = AnyParser::fresh(Fmt::Json, false, seed, bits);
            let (ft, _) = guarded(|| p.p().parse(&line)).map_err(|e| format!("{line:?} seed {seed} bits {bits}: {e}"))??;
            let s: &SparseFeatures = reductionml_core::utils::AsInner::as_inner(&ft).unwrap();
            let x = s.get_namespace(ns).ok_or("namespace missing (json)")?.iter().last().ok_or("no feature (json)")?;
            got.push(("json".into(), u32::from(x.0)));
        }
        // the inverse lookup
        let mut k = if matches!(f, F::Anon(..)) { lead as u32 } else { 0 };
        let feat = inv(name, &f, &mut k);
        let fh = guarded(|| feat.hash(seed)).map_err(|e| format!("{feat:?} seed {seed}: {e}"))?;
        got.push(("inverse lookup".into(), u32::from(fh.mask(FeatureMask::from_num_bits(bits)))));
        for (who, g) in &got {
            ensure!((*g as u64) < (1u64 << bits), "{feat:?} seed {seed} bits {bits}: {who} gives {g}, out of range");
            ensure!(*g == wm, "{feat:?} seed {seed} bits {bits}: {who} gives {g}, want {wm}");
        }
        // and the table finds it
        let mut tab = InverseHashTable::new();
        tab.insert(wm.into(), feat.clone());
        tab.insert(wm.into(), feat.clone());
        ensure!(tab.get(wm.into()).map(|s| s.len() == 1 && s.contains(&feat)).unwrap_or(false), "inverse table lost {feat:?}");
        ensure!(tab.get((wm ^ 1).into()).is_none(), "inverse table invents entries");
        ensure!((u32::from(constant_feature_index(bits)) as u64) < (1u64 << bits), "constant feature out of range at {bits} bits");
        t.distinct(&(seed, bits, name, format!("{f:?}"), lead));
        t.sample(|| format!("{feat:?} seed {seed} bits {bits} -> {wm} from {} sources", got.len()));
        Ok(())
    });
    // Names, values and namespaces of every length where a hash might change its ways
    let lens: Vec<usize> = if q { vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 80, 127, 128, 129, 240, 241, 255, 256, 257, 300, 1025] } else { (0..=140).chain([239, 240, 241, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4096, 5000]).collect() };
    ctx.bound(format!("names x values of each of {} lengths up to {} in namespaces of 5 lengths, plain and multi-byte letters; both parsers, extracted names and inverse lookup", lens.len(), lens.last().unwrap()));
    ctx.explore("lengths", |c, t| {
        let letters = *c.of(&["abcdefg", "é日x", "17"]);
        let word = |n: usize, lead: &str| -> String { format!("{lead}{}", letters.chars().cycle().take(n).collect::<String>()) };
        let nl = *c.of(&lens);
        let vl = if c.flag() { Some(*c.of(&lens)) } else { None };
        let (name, value) = (word(nl, "q"), vl.map(|n| word(n, "s")));
        let nsn = word(*c.of(&[0usize, 3, 16, 64, 300]), "n");
        let (seed, bits) = *c.of(&[(7u32, 18u8), (0x8000_0000, 31)]);
        let (ns, nh) = ns_of(&nsn, seed);
        let want = match &value {
            Some(v) => h(v, h(&name, nh)),
            None => h(&name, nh),
        };
        let want = mask(want, bits);
        let (vw, js, feat) = match &value {
            Some(v) => (
                format!("1 |{nsn} {name}:{v}"),
                format!("{{\"label\":1,\"features\":{{\"{nsn}\":{{\"{name}\":\"{v}\"}}}}}}"),
                Feature::SimpleWithStringValue { namespace: nsn.clone(), name: name.clone(), value: v.clone() },
            ),
            None => (
                format!("1 |{nsn} {name}:2"),
                format!("{{\"label\":1,\"features\":{{\"{nsn}\":{{\"{name}\":2}}}}}}"),
                Feature::Simple { namespace: nsn.clone(), name: name.clone() },
            ),
        };
        let what = || format!("namespace of {}, name of {}, value of {:?} bytes, seed {seed}, {bits} bits", nsn.len(), name.len(), value.as_ref().map(|v| v.len()));
        let mut got: Vec<(&str, u32)> = vec![];
        for (fmt, who, line) in [(Fmt::Vw, "vw text", &vw), (Fmt::Json, "json", &js)] {
            let p = AnyParser::fresh(fmt, false, seed, bits);
            let (ft, _) = guarded(|| p.p().parse(line)).map_err(|e| format!("{}: {e}", what()))??;
            let s: &SparseFeatures = reductionml_core::utils::AsInner::as_inner(&ft).unwrap();
            let f: Vec<_> = s.get_namespace(ns).ok_or_else(|| format!("{}: {who} has another namespace", what()))?.iter().collect();
            ensure!(f.len() == 1, "{}: {who} gives {} features", what(), f.len());
            got.push((who, u32::from(f[0].0)));
        }
        let vp = VwTextParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, seed, bits, Arc::new(Pool::new()));
        for v in guarded(|| vp.extract_feature_names(&vw))?.map_err(|e| e.to_string())?.values() {
            for x in v {
                let f = Feature::from_parsed_feature(x, &nsn);
                ensure!(f == feat, "{}: the name extracted is {f:?}", what());
            }
        }
        got.push(("inverse lookup", u32::from(guarded(|| feat.hash(seed))?.mask(FeatureMask::from_num_bits(bits)))));
        for (who, g) in &got {
            ensure!(*g == want, "{}: {who} gives {g}, want {want}", what());
        }
        t.eval();
        t.distinct(&(nsn.len(), name.len(), vl, seed, letters.len()));
        Ok(())
    });
    ctx.explore("interacted", |c, t| {
        let seed = *c.of(&seeds);
        let bits = if q { *c.of(&[0u8, 1, 5, 18, 24, 31]) } else { c.choose(32) as u8 };
        let order = 2 + c.choose(2);
        let mut sf = SparseFeatures::new();
        let nss = [" ", "a", "ns"];
        let mut terms = vec![];
        let mut keys = vec![];
        for i in 0..order {
            let f = VW_FEATS[c.choose(if q { 6 } else { 8 })];
            let (ns, nh) = ns_of(nss[i], seed);
            let off = 2u32;
            let hh = match f {
                F::Num(n, _, _) | F::Plain(n) => h(n, nh),
                F::Str(n, s) => h(s, h(n, nh)),
                F::Anon(..) => nh.wrapping_add(off),
            };
            sf.get_or_create_namespace(ns).add_feature(mask(hh, bits).into(), 1.0);
            let mut k = off;
            terms.push(inv(nss[i], &f, &mut k));
            keys.push((ns, hh));
        }
        let want = if order == 2 {
            FNV.wrapping_mul(keys[0].1) ^ keys[1].1
        } else {
            FNV.wrapping_mul(FNV.wrapping_mul(keys[0].1) ^ keys[1].1) ^ keys[2].1
        };
        let want = mask(want, bits);
        t.eval();
        let feat = Feature::Interacted { terms };
        let fh = guarded(|| feat.hash(seed)).map_err(|e| format!("{feat:?} seed {seed}: {e}"))?;
        let g = u32::from(fh.mask(FeatureMask::from_num_bits(bits)));
        ensure!(g == want, "{feat:?} seed {seed} bits {bits}: inverse lookup gives {g}, want {want}");
        let (pairs, triples) = if order == 2 { (vec![(keys[0].0, keys[1].0)], vec![]) } else { (vec![], vec![(keys[0].0, keys[1].0, keys[2].0)]) };
        let pr = Probe(Default::default(), vec![0.0; 6]);
        guarded(|| reductionml_core::weights::foreach_feature(0.into(), &sf, &pr, &pairs, &triples, bits, false, |_, _| {}))?;
        let v = pr.0.borrow().clone();
        ensure!(v.len() == order + 1 && v[order] == want, "{feat:?} seed {seed} bits {bits}: the model visits {v:?}, want {want} last");
        let it: Vec<u32> = if order == 2 {
            sf.quadratic_features(keys[0].0, keys[1].0, bits).unwrap().map(|x| u32::from(x.0)).collect()
        } else {
            sf.cubic_features(keys[0].0, keys[1].0, keys[2].0, bits).unwrap().map(|x| u32::from(x.0)).collect()
        };
        ensure!(it == vec![want], "{feat:?} seed {seed} bits {bits}: the feature iterator gives {it:?}, want {want}");
        t.distinct(&(seed, bits, format!("{feat:?}")));
        Ok(())
    });
    ctx.explore("names-of-lines", |c, t| {
        // names extracted from whole lines denote exactly the parsed features, as multisets
        let (seed, bits) = *c.of(&EDGE);
        let cb = c.flag();
        let nl = if cb { 1 + c.choose(2) } else { 1 };
        let mut lines = vec![];
        for l in 0..nl {
            let mut s = if cb { if l == 0 { "shared ".to_string() } else { "0:1:0.5 ".into() } } else { "1 ".into() };
            let k = c.choose(if cb { 3 } else { 4 });
            for _ in 0..k {
                s.push_str(c.of(&["|a x y:2", "|a", "| :1 q:st", "|", "|b:2 :1 :2", "|a :4 ", "| ", "|a\tx\ty:2\t:1", "|b  :1   q ", "|é x:0 :é"]));
            }
            lines.push(s.trim_end().to_string());
        }
        let text = lines.join("\n");
        t.eval();
        let p = AnyParser::fresh(Fmt::Vw, cb, seed, bits);
        let (f, _) = guarded(|| p.p().parse(&text)).map_err(|e| format!("{text:?}: {e}"))?.map_err(|e| format!("{text:?}: {e}"))?;
        let parts: Vec<Feats> = match view(&f) {
            Ex::Simple(x) => vec![x],
            Ex::Cb(s, a) => s.into_iter().chain(a).collect(),
        };
        let mut want: Vec<(Namespace, u32)> = parts.iter().flat_map(|f| f.0.iter().flat_map(|(n, v)| v.iter().map(|x| (*n, x.0)))).collect();
        let (ft, lt) = if cb { (FeaturesType::SparseCBAdf, LabelType::CB) } else { (FeaturesType::SparseSimple, LabelType::Simple) };
        let vp = VwTextParserFactory::default().create(ft, lt, seed, bits, Arc::new(Pool::new()));
        let m = guarded(|| vp.extract_feature_names(&text)).map_err(|e| format!("names of {text:?}: {e}"))?.map_err(|e| format!("names of {text:?}: {e}"))?;
        let mut got = vec![];
        for (k, v) in &m {
            let n = match k {
                ParsedNamespaceInfo::Named(n) => *n,
                ParsedNamespaceInfo::Default => ":default",
            };
            for x in v {
                let feat = Feature::from_parsed_feature(x, n);
                let i = guarded(|| feat.hash(seed)).map_err(|e| format!("{feat:?} seed {seed}: {e}"))?;
                got.push((ns_of(n, seed).0, u32::from(i.mask(FeatureMask::from_num_bits(bits)))));
            }
        }
        got.sort();
        want.sort();
        ensure!(got == want, "{text:?} (seed {seed}, {bits} bits): names denote {got:?}, parsed features are {want:?}");
        t.distinct(&(text, seed, bits));
        Ok(())
    });
    let _ = NamespaceHash::from(0);
}
