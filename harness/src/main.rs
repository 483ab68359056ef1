//! Executes scripts of calls against elinor and records what every call answers.
//!
//! harness SCRIPT LOG: both are files of JSON lines, one segment per line:
//!   {"seg": n, "kt": "str"|"char"|"rev"|"u64"|"i32", "ev": [call, ...]}
//! The log is the script with the result `r` added to every call.  Doubles are written as "m:e"
//! (m * 2^e exactly) or as an integer.
use std::any::Any;
use std::collections::BTreeMap;
use std::fmt::Display;
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use elinor::errors::ElinorError;
use elinor::statistical_tests::bootstrap_test::BootstrapTester;
use elinor::statistical_tests::randomized_tukey_hsd_test::RandomizedTukeyHsdTester;
use elinor::statistical_tests::*;
use elinor::{
    Metric, PredRecord, PredRelStore, PredRelStoreBuilder, PredScore, TrueRecord, TrueRelStore,
    TrueRelStoreBuilder,
};
use serde_json::{json, Map, Value};

mod cli;

pub fn fnum(x: f64) -> String {
    if x.is_nan() {
        return "NaN".into();
    }
    if x.is_infinite() {
        return if x > 0.0 { "inf".into() } else { "-inf".into() };
    }
    if x == 0.0 {
        return "0".into();
    }
    if x.fract() == 0.0 && x.abs() < 9e15 {
        return format!("{}", x as i64);
    }
    let bits = x.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let f = bits & ((1 << 52) - 1);
    let (mut m, mut e) = if e == 0 { (f, -1074) } else { (f | (1 << 52), e - 1075) };
    while m % 2 == 0 {
        m /= 2;
        e += 1;
    }
    format!("{}{}:{}", if x < 0.0 { "-" } else { "" }, m, e)
}

pub fn num(s: &str) -> f64 {
    if s == "-0" {
        return -0.0;
    }
    if let Some((m, e)) = s.split_once(':') {
        let m: i64 = m.parse().unwrap();
        let mut e: i32 = e.parse().unwrap();
        let mut x = m as f64;
        // exact: steps stay in range except the last one
        while e < -1000 && x.abs() > 1e-200 {
            x *= 2f64.powi(-500);
            e += 500;
        }
        return x * 2f64.powi(e / 2) * 2f64.powi(e - e / 2);
    }
    if let Some((n, d)) = s.split_once('/') {
        return n.parse::<f64>().unwrap() / d.parse::<f64>().unwrap();
    }
    match s {
        "NaN" => f64::NAN,
        "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        _ => s.parse().unwrap(),
    }
}

pub fn kind_of(e: &ElinorError) -> &'static str {
    match e {
        ElinorError::DuplicateEntry(_) => "DuplicateEntry",
        ElinorError::MissingEntry(_) => "MissingEntry",
        ElinorError::Uncomputable(_) => "Uncomputable",
        ElinorError::InvalidArgument(_) => "InvalidArgument",
        ElinorError::InvalidFormat(_) => "InvalidFormat",
    }
}
fn err(e: ElinorError) -> Value {
    json!({"st": kind_of(&e)})
}
fn skip() -> Value {
    json!({"st": "skip"})
}

pub fn metric(m: &str, k: usize) -> Metric {
    match m {
        "hits" => Metric::Hits { k },
        "success" => Metric::Success { k },
        "precision" => Metric::Precision { k },
        "recall" => Metric::Recall { k },
        "f1" => Metric::F1 { k },
        "r_precision" => Metric::RPrecision,
        "ap" => Metric::AP { k },
        "rr" => Metric::RR { k },
        "bpref" => Metric::Bpref,
        "dcg" => Metric::DCG { k },
        "ndcg" => Metric::NDCG { k },
        "dcg_burges" => Metric::DCGBurges { k },
        "ndcg_burges" => Metric::NDCGBurges { k },
        _ => panic!("script: unknown metric {m}"),
    }
}
pub fn unmetric(m: Metric) -> (&'static str, usize) {
    match m {
        Metric::Hits { k } => ("hits", k),
        Metric::Success { k } => ("success", k),
        Metric::Precision { k } => ("precision", k),
        Metric::Recall { k } => ("recall", k),
        Metric::F1 { k } => ("f1", k),
        Metric::RPrecision => ("r_precision", 0),
        Metric::AP { k } => ("ap", k),
        Metric::RR { k } => ("rr", k),
        Metric::Bpref => ("bpref", 0),
        Metric::DCG { k } => ("dcg", k),
        Metric::NDCG { k } => ("ndcg", k),
        Metric::DCGBurges { k } => ("dcg_burges", k),
        Metric::NDCGBurges { k } => ("ndcg_burges", k),
    }
}

pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("script: string expected, got {v}"))
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("script: array expected, got {v}"))
}

trait Key: FromStr + Display + Ord + Clone + Any + Send {
    fn key(s: &str) -> Self {
        s.parse().unwrap_or_else(|_| panic!("script: bad key {s}"))
    }
    fn text(&self) -> String {
        self.to_string()
    }
}
/// An id type of a user's own: descending order, and all ids are shown alike.
#[derive(Clone, PartialEq, Eq)]
struct Rev(String);
impl Ord for Rev {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        other.0.cmp(&self.0)
    }
}
impl PartialOrd for Rev {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
impl FromStr for Rev {
    type Err = std::convert::Infallible;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Rev(s.to_string()))
    }
}
impl Display for Rev {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "id")
    }
}
impl Key for Rev {
    fn text(&self) -> String {
        self.0.clone()
    }
}
impl Key for String {}
impl Key for char {}
impl Key for u64 {}
impl Key for i32 {}

trait Sc: Ord + Clone {
    fn of(s: &str) -> Self;
    fn out(&self) -> String;
}
impl Sc for u32 {
    fn of(s: &str) -> Self {
        s.parse().unwrap()
    }
    fn out(&self) -> String {
        self.to_string()
    }
}
impl Sc for PredScore {
    fn of(s: &str) -> Self {
        num(s).into()
    }
    fn out(&self) -> String {
        fnum(self.0)
    }
}

enum B<K> {
    T(TrueRelStoreBuilder<K>),
    P(PredRelStoreBuilder<K>),
}
enum S<K> {
    T(TrueRelStore<K>),
    P(PredRelStore<K>),
}

struct World<K> {
    bld: BTreeMap<String, B<K>>,
    sto: BTreeMap<String, S<K>>,
    seed: String,
}

macro_rules! recs {
    ($rs:expr) => {
        Value::Array($rs.into_iter().map(|r| json!([r.query_id.text(), r.doc_id.text(), r.score.out()])).collect())
    };
}

macro_rules! describe {
    ($s:expr, $qs:expr) => {{
        let s = $s;
        let ids: Vec<Value> = s.query_ids().map(|q| json!(q.text())).collect();
        let mut maps = vec![];
        let mut ranks = vec![];
        for q in s.query_ids() {
            if let Some(m) = s.get_map(q) {
                let ps: Vec<Value> = m.iter().map(|(d, x)| json!([d.text(), x.out()])).collect();
                maps.push(json!([q.text(), ps]));
            }
            if let Some(r) = s.get_sorted(q) {
                let ps: Vec<Value> = r.iter().map(|r| json!([r.doc_id.text(), r.score.out()])).collect();
                ranks.push(json!([q.text(), ps]));
            }
        }
        json!({"nq": s.n_queries(), "nd": s.n_docs(), "ids": ids, "maps": maps, "ranks": ranks, "recs": recs!(s.records())})
    }};
}

fn dump<K: Key>(s: &S<K>) -> Value {
    match s {
        S::T(s) => describe!(s, K),
        S::P(s) => describe!(s, K),
    }
}

macro_rules! lookup {
    ($s:expr, $q:expr, $d:expr) => {{
        let x = $s.get_score($q, $d);
        json!({"st": "ok", "some": x.is_some(), "score": x.map_or("0".to_string(), |x| x.out()),
               "map": $s.get_map($q).is_some(), "rank": $s.get_sorted($q).is_some()})
    }};
}

fn pairs_in(v: &Value) -> Vec<(f64, f64)> {
    arr(v).iter().map(|p| (num(st(&p[0])), num(st(&p[1])))).collect()
}
fn table_in(v: &Value) -> Vec<Vec<f64>> {
    arr(v).iter().map(|r| arr(r).iter().map(|x| num(st(x))).collect()).collect()
}
fn fnums(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|&x| json!(fnum(x))).collect())
}
fn fmat(v: &[Vec<f64>]) -> Value {
    Value::Array(v.iter().map(|r| fnums(r)).collect())
}

/// Runs f, turning a panic into {"st": "panic"}.
fn guard(f: impl FnOnce() -> Value) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!({"st": "panic"}))
}

impl<K: Key> World<K> {
    fn new() -> Self {
        World { bld: BTreeMap::new(), sto: BTreeMap::new(), seed: String::new() }
    }

    fn store(&mut self, as_: &str, r: Result<S<K>, ElinorError>) -> Value {
        match r {
            Err(e) => err(e),
            Ok(s) => {
                let v = guard(|| json!({"st": "ok", "v": dump(&s)}));
                if v["st"] == "ok" {
                    self.sto.insert(as_.into(), s);
                }
                v
            }
        }
    }

    fn bulk(kind: &str, recs: &[Value]) -> Result<S<K>, ElinorError> {
        if kind == "true" {
            TrueRelStore::from_records(recs.iter().map(|r| TrueRecord {
                query_id: K::key(st(&r[0])), doc_id: K::key(st(&r[1])), score: Sc::of(st(&r[2])),
            })).map(S::T)
        } else {
            PredRelStore::from_records(recs.iter().map(|r| PredRecord {
                query_id: K::key(st(&r[0])), doc_id: K::key(st(&r[1])), score: Sc::of(st(&r[2])),
            })).map(S::P)
        }
    }

    fn trec(kind: &str, lines: &[String]) -> Result<S<K>, ElinorError> {
        fn cast<A: 'static, B: 'static>(a: A) -> B {
            *(Box::new(a) as Box<dyn Any>).downcast::<B>().expect("script: trec needs string keys")
        }
        if kind == "true" {
            elinor::trec::parse_true_rels_in_trec(lines.iter()).map(|s| S::T(cast::<TrueRelStore<String>, TrueRelStore<K>>(s)))
        } else {
            elinor::trec::parse_pred_rels_in_trec(lines.iter()).map(|s| S::P(cast::<PredRelStore<String>, PredRelStore<K>>(s)))
        }
    }

    fn call(&mut self, e: &mut Map<String, Value>) -> Value {
        let op = st(&e["op"]).to_string();
        match op.as_str() {
            "new" => {
                let b = if st(&e["kind"]) == "true" { B::T(TrueRelStoreBuilder::new()) } else { B::P(PredRelStoreBuilder::default()) };
                self.bld.insert(st(&e["b"]).into(), b);
                json!({"st": "ok"})
            }
            "add" => {
                let Some(b) = self.bld.get_mut(st(&e["b"])) else { return skip() };
                let (q, d, s) = (K::key(st(&e["q"])), K::key(st(&e["d"])), st(&e["s"]));
                guard(|| {
                    let r = match b {
                        B::T(b) => b.add_record(q, d, Sc::of(s)),
                        B::P(b) => b.add_record(q, d, Sc::of(s)),
                    };
                    r.map_or_else(err, |()| json!({"st": "ok"}))
                })
            }
            "build" => {
                let Some(b) = self.bld.remove(st(&e["b"])) else { return skip() };
                let mut out = None;
                let r = guard(|| {
                    out = Some(match b {
                        B::T(b) => S::T(b.build()),
                        B::P(b) => S::P(b.build()),
                    });
                    Value::Bool(true)
                });
                match out {
                    None => r,
                    Some(s) => self.store(st(&e["as"]), Ok(s)),
                }
            }
            "from" => {
                let mut out = None;
                let r = guard(|| {
                    out = Some(Self::bulk(st(&e["kind"]), arr(&e["recs"])));
                    Value::Bool(true)
                });
                out.map_or(r, |s| self.store(st(&e["as"]), s))
            }
            "trec" => {
                let lines: Vec<String> = arr(&e["lines"]).iter().map(|l| st(l).to_string()).collect();
                let mut out = None;
                let r = guard(|| {
                    out = Some(Self::trec(st(&e["kind"]), &lines));
                    Value::Bool(true)
                });
                out.map_or(r, |s| self.store(st(&e["as"]), s))
            }
            "copy" => {
                let Some(s) = self.sto.get(st(&e["s"])) else { return skip() };
                let bulk = st(&e["via"]) == "bulk";
                let mut out = None;
                let r = guard(|| {
                    out = Some(match s {
                        S::T(s) => if bulk { TrueRelStore::from_records(s.records()).map(S::T) } else {
                            let mut b = TrueRelStoreBuilder::new();
                            let mut res = Ok(());
                            for r in s.records() { res = res.and(b.add_record(r.query_id, r.doc_id, r.score)); }
                            res.map(|()| S::T(b.build()))
                        },
                        S::P(s) => if bulk { PredRelStore::from_records(s.records()).map(S::P) } else {
                            let mut b = PredRelStoreBuilder::new();
                            let mut res = Ok(());
                            for r in s.records() { res = res.and(b.add_record(r.query_id, r.doc_id, r.score)); }
                            res.map(|()| S::P(b.build()))
                        },
                    });
                    Value::Bool(true)
                });
                out.map_or(r, |s| self.store(st(&e["as"]), s))
            }
            "dump" => {
                let Some(s) = self.sto.get(st(&e["s"])) else { return skip() };
                guard(|| json!({"st": "ok", "v": dump(s)}))
            }
            "into" => {
                let Some(s) = self.sto.remove(st(&e["s"])) else { return skip() };
                guard(|| match s {
                    S::T(s) => json!({"st": "ok", "recs": recs!(s.into_records())}),
                    S::P(s) => json!({"st": "ok", "recs": recs!(s.into_records())}),
                })
            }
            "get" => {
                let Some(s) = self.sto.get(st(&e["s"])) else { return skip() };
                let (q, d) = (K::key(st(&e["q"])), K::key(st(&e["d"])));
                guard(|| match s {
                    S::T(s) => lookup!(s, &q, &d),
                    S::P(s) => lookup!(s, &q, &d),
                })
            }
            "eval" => {
                let (Some(S::T(t)), Some(S::P(p))) = (self.sto.get(st(&e["t"])), self.sto.get(st(&e["p"]))) else { return skip() };
                let m = metric(st(&e["m"]), st(&e["k"]).parse().unwrap());
                let scores = |v: &std::collections::BTreeMap<K, f64>| v.iter().map(|(q, x)| json!([q.text(), fnum(*x)])).collect::<Vec<Value>>();
                // the other way to the scores, reported where it answers something else
                let direct = guard(|| match elinor::metrics::compute_metric(t, p, m) {
                    Err(e) => err(e),
                    Ok(v) => json!({"st": "ok", "scores": scores(&v)}),
                });
                let mut r = guard(|| match elinor::evaluate(t, p, m) {
                    Err(e) => err(e),
                    Ok(v) => {
                        let (m, k) = unmetric(v.metric());
                        json!({"st": "ok", "scores": scores(v.scores()), "mean": fnum(v.mean()), "var": fnum(v.variance()), "sd": fnum(v.std_dev()),
                               "m": m, "k": k.to_string()})
                    }
                });
                if direct["st"] != r["st"] || direct["scores"] != r["scores"] {
                    r["direct"] = direct;
                }
                r
            }
            "mparse" => {
                let t = st(&e["text"]);
                guard(|| match t.parse::<Metric>() {
                    Err(e) => err(e),
                    Ok(m) => {
                        let (m, k) = unmetric(m);
                        json!({"st": "ok", "m": m, "k": k.to_string()})
                    }
                })
            }
            "mprint" => {
                let m = metric(st(&e["m"]), st(&e["k"]).parse().unwrap());
                guard(|| {
                    let t = m.to_string();
                    json!({"st": "ok", "text": t, "back": if t.parse::<Metric>() == Ok(m) { "same" } else { "other" }})
                })
            }
            "jser" => {
                let (q, d, s) = (st(&e["q"]).to_string(), st(&e["d"]).to_string(), st(&e["s"]));
                let kind = st(&e["kind"]);
                guard(|| {
                    let text = if kind == "true" {
                        serde_json::to_string(&TrueRecord { query_id: q, doc_id: d, score: Sc::of(s) })
                    } else {
                        serde_json::to_string(&PredRecord { query_id: q, doc_id: d, score: Sc::of(s) })
                    }.unwrap();
                    let v: Value = serde_json::from_str(&text).unwrap();
                    let fs: Vec<Value> = v.as_object().map_or(vec![], |o| o.iter().map(|(n, x)| match x {
                        Value::String(x) => json!([n, "str", x]),
                        Value::Number(x) if x.is_f64() => json!([n, "real", fnum(x.as_f64().unwrap())]),
                        Value::Number(x) => json!([n, "int", x.to_string()]),
                        _ => json!([n, "other", ""]),
                    }).collect());
                    json!({"st": "ok", "fields": fs, "back": read_json(kind, &text)})
                })
            }
            "jde" => {
                let (kind, t) = (st(&e["kind"]), st(&e["text"]));
                guard(|| read_json(kind, t))
            }
            "pairs" | "tuples" => {
                let maps: Vec<BTreeMap<K, f64>> = arr(&e["maps"]).iter()
                    .map(|m| arr(m).iter().map(|p| (K::key(st(&p[0])), num(st(&p[1])))).collect()).collect();
                guard(|| {
                    if op == "pairs" {
                        match pairs_from_maps(&maps[0], &maps[1]) {
                            Err(e) => err(e),
                            Ok(v) => json!({"st": "ok", "v": v.iter().map(|p| fnums(&[p.0, p.1])).collect::<Vec<_>>()}),
                        }
                    } else {
                        match tuples_from_maps(maps.iter()) {
                            Err(e) => err(e),
                            Ok(v) => json!({"st": "ok", "v": fmat(&v)}),
                        }
                    }
                })
            }
            "ttest" => {
                let x = pairs_in(&e["x"]);
                let lv = levels(e);
                guard(|| match StudentTTest::from_paired_samples(x) {
                    Err(e) => err(e),
                    Ok(t) => {
                        #[allow(deprecated)]
                        let n = if t.n_samples() == t.n_topics() { t.n_topics() as i64 } else { -1 };
                        let lv: Vec<Value> = lv.iter().map(|(s, a)| {
                            let moe = guard(|| t.margin_of_error(*a).map_or_else(err, |v| json!({"st": "ok", "v": fnum(v)})));
                            let ci = guard(|| t.confidence_interval(*a).map_or_else(err, |v| json!({"st": "ok", "lo": fnum(v.0), "hi": fnum(v.1)})));
                            json!({"a": s, "moe": moe, "ci": ci})
                        }).collect();
                        json!({"st": "ok", "n": n, "mean": fnum(t.mean()), "var": fnum(t.variance()), "es": fnum(t.effect_size()),
                               "t": fnum(t.t_stat()), "p": fnum(t.p_value()), "lv": lv})
                    }
                })
            }
            "anova" => {
                let x = table_in(&e["x"]);
                let lv = levels(e);
                let m = e["m"].as_u64().unwrap() as usize;
                guard(|| match TwoWayAnovaWithoutReplication::from_tupled_samples(&x, m) {
                    Err(e) => err(e),
                    Ok(t) => {
                        let lv: Vec<Value> = lv.iter().map(|(s, a)| {
                            let moe = guard(|| t.margin_of_error(*a).map_or_else(err, |v| json!({"st": "ok", "v": fnum(v)})));
                            json!({"a": s, "moe": moe})
                        }).collect();
                        json!({"st": "ok", "m": t.n_systems(), "n": t.n_topics(), "sm": fnums(&t.system_means()), "tm": fnums(&t.topic_means()),
                               "sA": fnum(t.between_system_variation()), "sB": fnum(t.between_topic_variation()), "sE": fnum(t.residual_variation()),
                               "vA": fnum(t.between_system_variance()), "vB": fnum(t.between_topic_variance()), "vE": fnum(t.residual_variance()),
                               "fA": fnum(t.between_system_f_stat()), "fB": fnum(t.between_topic_f_stat()),
                               "pA": fnum(t.between_system_p_value()), "pB": fnum(t.between_topic_p_value()), "lv": lv})
                    }
                })
            }
            "tukey" => {
                let x = table_in(&e["x"]);
                let m = e["m"].as_u64().unwrap() as usize;
                guard(|| match TukeyHsdTest::from_tupled_samples(&x, m) {
                    Err(e) => err(e),
                    Ok(t) => json!({"st": "ok", "m": t.n_systems(), "n": t.n_topics(), "es": fmat(&t.effect_sizes())}),
                })
            }
            "boot" | "rtukey" => {
                let mut sets = vec![];
                for x in e["sets"].as_array_mut().unwrap() {
                    if st(&x[1]) == "last" {
                        x[1] = json!(self.seed);
                    }
                    sets.push((st(&x[0]).to_string(), st(&x[1]).parse::<u64>().unwrap()));
                }
                let via = st(&e["via"]).to_string();
                let r = if op == "boot" {
                    let x = pairs_in(&e["x"]);
                    guard(|| {
                        let r = if via == "from" { BootstrapTest::from_paired_samples(x) } else {
                            let mut b = if via == "default" { BootstrapTester::default() } else { BootstrapTester::new() };
                            for (w, v) in &sets {
                                b = if w == "n" { b.with_n_resamples(*v as usize) } else { b.with_random_state(*v) };
                            }
                            b.test(x)
                        };
                        match r {
                            Err(e) => err(e),
                            Ok(t) => json!({"st": "ok", "n": t.n_resamples().to_string(), "seed": t.random_state().to_string(),
                                            "topics": t.n_topics(), "p": fnum(t.p_value())}),
                        }
                    })
                } else {
                    let x = table_in(&e["x"]);
                    let m = e["m"].as_u64().unwrap() as usize;
                    guard(|| {
                        let r = if via == "from" { RandomizedTukeyHsdTest::from_tupled_samples(&x, m) } else {
                            let mut b = RandomizedTukeyHsdTester::new(m);
                            for (w, v) in &sets {
                                b = if w == "n" { b.with_n_iters(*v as usize) } else { b.with_random_state(*v) };
                            }
                            b.test(&x)
                        };
                        match r {
                            Err(e) => err(e),
                            Ok(t) => json!({"st": "ok", "n": t.n_iters().to_string(), "seed": t.random_state().to_string(),
                                            "topics": t.n_topics(), "systems": t.n_systems(), "p": fmat(&t.p_values())}),
                        }
                    })
                };
                if let Some(s) = r.get("seed") {
                    self.seed = st(s).to_string();
                }
                r
            }
            _ => panic!("script: unknown op {op}"),
        }
    }
}

fn levels(e: &Map<String, Value>) -> Vec<(String, f64)> {
    arr(&e["levels"]).iter().map(|a| (st(a).to_string(), num(st(a)))).collect()
}

fn read_json(kind: &str, text: &str) -> Value {
    if kind == "true" {
        match serde_json::from_str::<TrueRecord<String>>(text) {
            Ok(r) => json!({"st": "ok", "q": r.query_id, "d": r.doc_id, "s": r.score.out()}),
            Err(_) => json!({"st": "rejected"}),
        }
    } else {
        match serde_json::from_str::<PredRecord<String>>(text) {
            Ok(r) => json!({"st": "ok", "q": r.query_id, "d": r.doc_id, "s": r.score.out()}),
            Err(_) => json!({"st": "rejected"}),
        }
    }
}

/// A segment in progress: the finished calls, the call under way and when it began.
#[derive(Default)]
struct Progress {
    done: Vec<String>,
    head: String,
    now: Option<(Instant, String)>,
    rest: usize,
}

fn run<K: Key>(seg: &mut Value, p: &Mutex<Progress>, stream: bool) {
    let mut w = World::<K>::new();
    let evs = seg["ev"].as_array_mut().unwrap();
    for e in evs.iter_mut() {
        let e = e.as_object_mut().unwrap();
        {
            let mut p = p.lock().unwrap();
            p.now = Some((Instant::now(), serde_json::to_string(&e).unwrap()));
        }
        let r = w.call(e);
        e.insert("r".into(), r);
        let text = serde_json::to_string(&e).unwrap();
        if stream {
            println!("{text}");
        }
        let mut p = p.lock().unwrap();
        p.done.push(text);
        p.now = None;
        p.rest -= 1;
    }
}

/// harness SCRIPT LOG            all segments; a call that does not return in time is logged as "hang"
/// harness stream SCRIPT SEG     one segment, every finished call printed at once (to place an abort)
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "lib" {
        return cli::main(&a[2..]);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().unwrap_or_default();
        if m.starts_with("script:") {
            eprintln!("{m}");
            std::process::exit(3);
        }
    }));
    let stream = a[1] == "stream";
    let file = if stream { &a[2] } else { &a[1] };
    let mut lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(file).unwrap()).lines().map(|l| l.unwrap()).collect();
    if stream {
        let i: usize = a[3].parse().unwrap();
        lines = vec![lines.swap_remove(i)];
    }
    let limit = Duration::from_secs(std::env::var("CALL_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60));
    let n = lines.len();
    let lines = Arc::new(lines);
    let out: Arc<Vec<Mutex<Progress>>> = Arc::new((0..n).map(|_| Mutex::new(Progress::default())).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let threads: Vec<_> = (0..8).map(|_| {
        let (lines, out, next) = (lines.clone(), out.clone(), next.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= lines.len() {
                break;
            }
            let mut seg: Value = serde_json::from_str(&lines[i]).unwrap();
            {
                let mut p = out[i].lock().unwrap();
                p.head = format!("\"seg\":{},\"kt\":{}", seg["seg"], seg["kt"]);
                p.rest = seg["ev"].as_array().unwrap().len();
            }
            match seg["kt"].as_str().unwrap() {
                "str" => run::<String>(&mut seg, &out[i], stream),
                "rev" => run::<Rev>(&mut seg, &out[i], stream),
                "char" => run::<char>(&mut seg, &out[i], stream),
                "u64" => run::<u64>(&mut seg, &out[i], stream),
                "i32" => run::<i32>(&mut seg, &out[i], stream),
                x => panic!("script: key type {x}"),
            }
        }).unwrap()
    }).collect();
    let mut hung = false;
    while !hung && threads.iter().any(|t| !t.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        hung = out.iter().any(|p| p.lock().unwrap().now.as_ref().is_some_and(|(t, _)| t.elapsed() > limit));
    }
    if stream {
        return;
    }
    let mut f = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for p in out.iter() {
        let p = p.lock().unwrap();
        if p.head.is_empty() || (p.rest > 0 && p.now.is_none()) {
            if hung {
                continue;
            }
            panic!("script: a segment was not finished");
        }
        let mut evs = p.done.join(",");
        if let Some((t, e)) = &p.now {
            if t.elapsed() <= limit {
                continue;
            }
            let mut e: Value = serde_json::from_str(e).unwrap();
            e["r"] = json!({"st": "hang"});
            evs = if evs.is_empty() { e.to_string() } else { format!("{evs},{e}") };
        }
        writeln!(f, "{{{},\"ev\":[{}]}}", p.head, evs).unwrap();
    }
    f.flush().unwrap();
    std::process::exit(0);
}
