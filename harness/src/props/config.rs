//! G01 and G02: configuration trees, lookups and typed settings.
use crate::pbt::*;
use crate::sim::*;
use crate::{check, check_eq};
use kompact::config::*;
use kompact::kompact_config;
use kompact::prelude::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub static PROPS: [&Prop; 2] = [
    &Prop::new("G01", "at least two sources set the same path or one table, and lookups both succeeded and failed below the top level", 200_000, 10_000_000, g01).segment(60_000),
    &Prop::new("G02", "a value was converted to text and back and another one was refused, or a system was built with a setting that is not a default", 300_000, 20_000_000, g02).segment(60_000),
];

#[derive(Clone, Debug)]
enum V {
    S(String),
    I(i64),
    F(f64),
    B(bool),
    D(toml::value::Datetime),
    A(Vec<V>),
    T(BTreeMap<String, V>),
}
use V::*;
type Tab = BTreeMap<String, V>;

fn same_f(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (S(x), S(y)) => x == y,
        (I(x), I(y)) => x == y,
        (F(x), F(y)) => same_f(*x, *y),
        (B(x), B(y)) => x == y,
        (D(x), D(y)) => x == y,
        (A(x), A(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (T(x), T(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, x), (l, y))| k == l && same(x, y)),
        _ => false,
    }
}

impl V {
    fn kind(&self) -> &'static str {
        match self {
            S(_) => "string",
            I(_) => "integer",
            F(_) => "float",
            B(_) => "boolean",
            D(_) => "datetime",
            A(_) => "array",
            T(_) => "table",
        }
    }
    fn toml(&self) -> toml::Value {
        match self {
            S(x) => toml::Value::String(x.clone()),
            I(x) => toml::Value::Integer(*x),
            F(x) => toml::Value::Float(*x),
            B(x) => toml::Value::Boolean(*x),
            D(x) => toml::Value::Datetime(*x),
            A(x) => toml::Value::Array(x.iter().map(V::toml).collect()),
            T(x) => toml::Value::Table(x.iter().map(|(k, v)| (k.clone(), v.toml())).collect()),
        }
    }
    fn from_toml(v: toml::Value) -> V {
        match v {
            toml::Value::String(x) => S(x),
            toml::Value::Integer(x) => I(x),
            toml::Value::Float(x) => F(x),
            toml::Value::Boolean(x) => B(x),
            toml::Value::Datetime(x) => D(x),
            toml::Value::Array(x) => A(x.into_iter().map(V::from_toml).collect()),
            toml::Value::Table(x) => T(x.into_iter().map(|(k, v)| (k, V::from_toml(v))).collect()),
        }
    }
}

const KEYS: [&str; 9] = ["a", "b", "c", "x-1", "0", "ä ö", "a.b", "", "long_key_name"];

fn text(s: &mut Src) -> String {
    let n = s.size(12);
    (0..n).map(|_| *s.pick(&['a', 'b', '"', '\'', '\\', '\n', '\t', ' ', '#', '=', '.', 'ß', '\u{7}', '𝄞', '\r', '[', '}', '\u{0}', '\u{7f}'])).collect()
}

fn int(s: &mut Src) -> i64 {
    match s.below(4) {
        0 => *s.pick(&[0, 1, -1, i64::MAX, i64::MIN, 10]),
        1 => s.range(0, 100) as i64,
        _ => s.bits() as i64,
    }
}

fn float(s: &mut Src) -> f64 {
    match s.below(4) {
        0 => *s.pick(&[0.0, -0.0, 1.0, 0.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e16, 1e300]),
        1 => s.range(0, 1000) as f64 / 8.0,
        _ => f64::from_bits(s.bits()),
    }
}

fn leaf(s: &mut Src) -> V {
    match s.below(5) {
        0 => I(int(s)),
        1 => S(text(s)),
        2 => B(s.flag()),
        3 => F(float(s)),
        _ => D(s.pick(&["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "1979-05-27T00:32:00.999999-07:00", "2026-11-19T02:00:01"]).parse().unwrap()),
    }
}

fn value(s: &mut Src, depth: u32) -> V {
    match s.weighted(&[4, if depth > 0 { 1 } else { 0 }, if depth > 0 { 4 } else { 0 }]) {
        0 => leaf(s),
        1 => A((0..s.size(4)).map(|_| value(s, depth - 1)).collect()),
        _ => T(table(s, depth - 1)),
    }
}

fn table(s: &mut Src, depth: u32) -> Tab {
    let n = s.range(0, 4);
    (0..n).map(|_| (key(s), value(s, depth))).collect()
}

fn key(s: &mut Src) -> String {
    let i = if s.chance(3, 4) { s.idx(3) } else { s.idx(KEYS.len()) };
    KEYS[i].to_string()
}

fn key_text(s: &mut Src, k: &str) -> String {
    let bare = !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-');
    if bare && !s.chance(1, 5) {
        k.to_string()
    } else if s.flag() {
        format!("\"{}\"", k)
    } else {
        format!("'{}'", k)
    }
}

/// One of the many ways to write a table down.
fn write(s: &mut Src, t: &Tab, prefix: &str, out: &mut String) {
    let mut later: Vec<(String, &V)> = vec![];
    for (k, v) in t {
        let kt = key_text(s, k);
        match v {
            T(_) if s.chance(2, 5) => later.push((kt, v)),
            A(x) if !x.is_empty() && x.iter().all(|v| matches!(v, T(_))) && s.flag() => later.push((kt, v)),
            _ => entry(s, &kt, v, out),
        }
    }
    for (kt, v) in later {
        let p = if prefix.is_empty() { kt } else { format!("{}.{}", prefix, kt) };
        match v {
            T(x) => {
                out.push_str(&format!("[{}] # section\n", p));
                write(s, x, &p, out);
            }
            A(x) => {
                for v in x {
                    out.push_str(&format!("[[ {} ]]\n", p));
                    if let T(x) = v {
                        write(s, x, &p, out);
                    }
                }
            }
            _ => unreachable!(),
        }
    }
}
fn entry(s: &mut Src, k: &str, v: &V, out: &mut String) {
    if let T(x) = v {
        if !x.is_empty() && s.flag() {
            for (l, v) in x {
                let lt = key_text(s, l);
                entry(s, &format!("{} . {}", k, lt), v, out);
            }
            return;
        }
    }
    out.push_str(&format!("{} = {}\n", k, v.toml()));
}

fn merge(cur: &mut Tab, next: &Tab) {
    for (k, v) in next {
        match (cur.get_mut(k), v) {
            (Some(T(c)), T(n)) => merge(c, n),
            _ => {
                cur.insert(k.clone(), v.clone());
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Miss {
    Invalid,
    Key,
    Index,
    NoTable(String, &'static str),
    NoArray(usize, &'static str),
}

fn kind_of(e: &ConfigPathError) -> (Miss, String) {
    match e {
        ConfigPathError::InvalidPath { path } => (Miss::Invalid, path.clone()),
        ConfigPathError::MissingKey { path } => (Miss::Key, path.clone()),
        ConfigPathError::MissingIndex { path } => (Miss::Index, path.clone()),
        ConfigPathError::InvalidKeyAccess { path, key, value_type } => (Miss::NoTable(key.clone(), value_type), path.clone()),
        ConfigPathError::InvalidIndexAccess { path, index, value_type } => (Miss::NoArray(*index, value_type), path.clone()),
    }
}

fn select<'a>(t: &'a Tab, p: &str) -> Result<&'a V, Miss> {
    let mut cur: Option<&V> = None;
    for seg in p.split('.') {
        if seg.is_empty() {
            return Err(Miss::Invalid);
        }
        let tab = match cur {
            None => t,
            Some(T(x)) => x,
            Some(v) => return Err(Miss::NoTable(seg.to_string(), v.kind())),
        };
        cur = Some(tab.get(seg).ok_or(Miss::Key)?);
    }
    cur.ok_or(Miss::Invalid)
}

/// Compares what a lookup says in every way it can be asked.
fn agree(l: &ConfigLookup<'_, '_>, exp: &Result<&V, Miss>, path: Option<&str>, what: &str) -> CaseResult {
    if let Some(p) = path {
        check_eq!(l.to_string(), p, "path-text", "{}: the lookup calls itself", what);
    }
    match (l.value(), exp) {
        (Ok(v), Ok(e)) => {
            check_eq!(v.as_string(), if let S(x) = e { Some(x.clone()) } else { None }, "value", "{}: as string", what);
            check_eq!(v.as_i64(), if let I(x) = e { Some(*x) } else { None }, "value", "{}: as integer", what);
            check_eq!(v.as_bool(), if let B(x) = e { Some(*x) } else { None }, "value", "{}: as boolean", what);
            check_eq!(v.as_datetime(), if let D(x) = e { Some(x) } else { None }, "value", "{}: as date", what);
            let f = match e {
                F(x) => Some(*x),
                I(x) => Some(*x as f64),
                _ => None,
            };
            check!(match (v.as_f64(), f) { (Some(x), Some(y)) => same_f(x, y), (None, None) => true, _ => false }, "value", "{}: as float {:?}, expected {:?}", what, v.as_f64(), f);
            check_eq!(v.as_array().map(|a| a.len()), if let A(x) = e { Some(x.len()) } else { None }, "value", "{}: length of the array", what);
            // the whole of it
            let frag = v.to_toml_fragment();
            let back: Result<toml::Table, _> = toml::from_str(&format!("it = {}\n", frag));
            match back {
                Ok(mut t) => {
                    let b = V::from_toml(t.remove("it").expect("it"));
                    check!(same(&b, e), "value", "{}: the value is {}, expected {:?}", what, frag, e);
                }
                Err(x) => return fail("fragment", format!("{}: {:?} is no TOML: {}", what, frag, x)),
            }
            // typed access of a value that is there: right, or refused and named
            let typed = [
                (l.as_string().map(|_| ()), matches!(e, S(_))),
                (l.as_i64().map(|_| ()), matches!(e, I(_))),
                (l.as_bool().map(|_| ()), matches!(e, B(_))),
                (l.as_f64().map(|_| ()), matches!(e, F(_) | I(_))),
                (l.as_datetime().map(|_| ()), matches!(e, D(_))),
                (l.as_array().map(|_| ()), matches!(e, A(_))),
            ];
            for (i, (r, ok)) in typed.iter().enumerate() {
                check_eq!(r.is_ok(), *ok, "typed", "{}: typed access {} succeeds", what, i);
                if let Err(x) = r {
                    match x {
                        ConfigError::ConversionError { path: p, .. } => {
                            if let Some(path) = path {
                                check_eq!(p.as_deref(), Some(path), "error-path", "{}: path named by the conversion error", what);
                            }
                        }
                        x => return fail("typed", format!("{}: {:?}", what, x)),
                    }
                }
            }
            if let (A(xs), Ok(it)) = (e, l.array_entries()) {
                check_eq!(it.len(), xs.len(), "value", "{}: number of array entries", what);
                for (n, (i, sub)) in it.enumerate() {
                    check_eq!(n, i, "value", "{}: index of array entry", what);
                    let p = path.map(|p| format!("{}[{}]", p, i));
                    agree(&sub, &Ok(&xs[i]), p.as_deref(), &format!("{}[{}]", what, i))?;
                }
            }
            Ok(())
        }
        (Err(ConfigError::PathError(x)), Err(e)) => {
            let (k, p) = kind_of(&x);
            check_eq!(&k, e, "wrong-error", "{}: error {}", what, x);
            check_eq!(x.is_missing(), matches!(e, Miss::Key | Miss::Index), "wrong-error", "{}: {} means something is missing", what, x);
            if let Some(path) = path {
                check_eq!(p, path, "error-path", "{}: path named by the error", what);
            }
            for r in [l.as_string().is_ok(), l.as_i64().is_ok(), l.as_bool().is_ok(), l.as_f64().is_ok(), l.as_array().is_ok(), l.as_bytes().is_ok(), l.as_duration().is_ok(), l.array_entries().is_ok()] {
                check!(!r, "value", "{}: there is a value although nothing is found", what);
            }
            Ok(())
        }
        (g, e) => fail("value", format!("{}: got {:?}, expected {:?}", what, g, e)),
    }
}

enum Step {
    K(String),
    I(usize),
}

fn walk(s: &mut Src, l: &ConfigLookup<'_, '_>, m: Result<&V, Miss>, path: String, tame: bool, depth: u32) -> CaseResult {
    agree(l, &m, if tame { Some(&path) } else { None }, &format!("lookup of {:?}", path))?;
    if depth == 0 || s.chance(1, 3) {
        return Ok(());
    }
    let step = match &m {
        Ok(T(x)) if !x.is_empty() && !s.chance(1, 6) => {
            let ks: Vec<&String> = x.keys().collect();
            Step::K(s.pick(&ks).to_string())
        }
        Ok(A(x)) if !s.chance(1, 6) => Step::I(s.idx(x.len() + 1)),
        _ if s.flag() => Step::K(key(s)),
        _ => Step::I(s.range(0, 3)),
    };
    match step {
        Step::K(k) => {
            let n = match m {
                Ok(T(x)) => x.get(&k).ok_or(Miss::Key),
                Ok(v) => Err(Miss::NoTable(k.clone(), v.kind())),
                Err(e) => Err(e),
            };
            let t = tame && !k.is_empty();
            walk(s, &l.get(&k), n, format!("{}.{}", path, k), t, depth - 1)
        }
        Step::I(i) => {
            let n = match m {
                Ok(A(x)) => x.get(i).ok_or(Miss::Index),
                Ok(v) => Err(Miss::NoArray(i, v.kind())),
                Err(e) => Err(e),
            };
            walk(s, &l.get_index(i), n, format!("{}[{}]", path, i), tame, depth - 1)
        }
    }
}

fn query(s: &mut Src, c: &Config, t: &Tab) -> CaseResult {
    let n = s.range(2, 9);
    for _ in 0..n {
        if s.flag() {
            // a dotted path
            let mut p: Vec<String> = vec![];
            let mut cur = Some(t);
            for _ in 0..s.range(1, 5) {
                let ks: Vec<String> = cur.map(|t| t.keys().cloned().collect()).unwrap_or_default();
                let k = if ks.is_empty() || s.chance(1, 8) { key(s) } else { s.pick(&ks).clone() };
                let next = cur.and_then(|t| t.get(&k));
                if next.is_none() && s.flag() {
                    p.push(k);
                    break;
                }
                cur = if let Some(T(x)) = next { Some(x) } else { None };
                p.push(k);
                if cur.is_none() && !s.chance(1, 4) {
                    break;
                }
            }
            let p = p.join(".");
            let m = select(t, &p);
            match &m {
                Ok(_) if p.contains('.') => once(s, "found below the top"),
                Err(_) if p.contains('.') => once(s, "missed below the top"),
                _ => {}
            }
            s.note(|| format!("select({:?}): {:?}", p, m));
            let empty = p.split('.').any(|x| x.is_empty());
            if empty {
                // which of several things is wrong first does not matter
                match c.select(&p).value() {
                    Err(ConfigError::PathError(_)) => {}
                    r => return fail("empty-segment", format!("select({:?}): {:?}", p, r)),
                }
                continue;
            }
            walk(s, &c.select(&p), m, p.clone(), true, 3)?;
        } else {
            let k = key(s);
            let m = t.get(&k).ok_or(Miss::Key);
            s.note(|| format!("get({:?})", k));
            walk(s, &c.get(&k), m, k.clone(), !k.is_empty(), 5)?;
        }
    }
    // nothing else is there
    for k in KEYS {
        agree(&c.get(k), &t.get(k).ok_or(Miss::Key), None, &format!("get({:?})", k))?;
    }
    Ok(())
}

fn once(s: &mut Src, l: &'static str) {
    if !s.labelled(l) {
        s.label(l);
    }
}

kompact_config!(E_A, key = "a", type = IntegerValue, doc = "", version = "0");
kompact_config!(E_AB, key = "a.b", type = StringValue, doc = "", version = "0");
kompact_config!(E_ABC, key = "a.b.c", type = ArrayOfValues<IntegerValue>, doc = "", version = "0");
kompact_config!(E_BC, key = "b.c", type = RealValue, doc = "", version = "0");

fn at(path: &[&str], v: V) -> Tab {
    let mut v = v;
    for k in path.iter().rev() {
        v = T([(k.to_string(), v)].into_iter().collect());
    }
    match v {
        T(t) => t,
        _ => unreachable!(),
    }
}

fn source(s: &mut Src) -> (Tab, String) {
    let t = table(s, 3);
    let mut out = String::new();
    write(s, &t, "", &mut out);
    (t, out)
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn g01(s: &mut Src) -> CaseResult {
    if s.chance(1, 3) {
        let (t, src) = source(s);
        s.note(|| src.clone());
        if let Err(e) = toml::from_str::<toml::Table>(&src) {
            return undecided(format!("the generator wrote bad TOML: {}\n{}", e, src));
        }
        let c = match parse_config_str(&src) {
            Ok(c) => c,
            Err(e) => return fail("parse", format!("valid TOML was refused: {}\n{}", e, src)),
        };
        return query(s, &c, &t);
    }
    let mut all = Tab::new();
    let mut files: Vec<Scratch> = vec![];
    let (mut cfg, sched, timer) = Sim::config();
    let n = s.range(2, 5);
    let mut bad = false;
    for _ in 0..n {
        let one = match s.weighted(&[6, 1, 4]) {
            0 | 1 if s.chance(1, 40) => {
                bad = true;
                let b = *s.pick(&["a = ", "[a", "a = 1\na = 2", "= 3", "a.b = 1\na = 2", "a = 1 2"]);
                s.note(|| format!("load {:?}", b));
                cfg.load_config_str(b);
                Tab::new()
            }
            0 => {
                let (t, src) = source(s);
                s.note(|| format!("load\n{}", src));
                cfg.load_config_str(src);
                t
            }
            1 => {
                let (t, src) = source(s);
                let p = std::env::temp_dir().join(format!("kv-config-{}-{:?}-{}.toml", std::process::id(), std::thread::current().id(), files.len()));
                if std::fs::write(&p, &src).is_err() {
                    return undecided("no scratch file");
                }
                s.note(|| format!("load file\n{}", src));
                cfg.load_config_file(p.clone());
                files.push(Scratch(p));
                t
            }
            _ => match s.below(4) {
                0 => {
                    let x = int(s);
                    s.note(|| format!("set a to {}", x));
                    cfg.set_config_value(&E_A, x);
                    at(&["a"], I(x))
                }
                1 => {
                    let x = text(s);
                    s.note(|| format!("set a.b to {:?}", x));
                    cfg.set_config_value(&E_AB, x.clone());
                    at(&["a", "b"], S(x))
                }
                2 => {
                    let x: Vec<i64> = (0..s.size(3)).map(|_| int(s)).collect();
                    s.note(|| format!("set a.b.c to {:?}", x));
                    cfg.set_config_value(&E_ABC, x.clone());
                    at(&["a", "b", "c"], A(x.into_iter().map(I).collect()))
                }
                _ => {
                    let x = float(s);
                    s.note(|| format!("set b.c to {:?}", x));
                    cfg.set_config_value(&E_BC, x);
                    at(&["b", "c"], F(x))
                }
            },
        };
        if one.keys().any(|k| all.contains_key(k)) {
            once(s, "overlap");
        }
        merge(&mut all, &one);
    }
    let r = no_panic(|| Sim::start(cfg, sched, timer));
    drop(files);
    let sim = match r {
        Ok(Ok(sim)) => sim,
        Ok(Err(e)) => {
            check!(bad && e.sig == "build-failed", "build", "no system with valid sources: {}", e.msg);
            return Ok(());
        }
        Err((m, l)) => return fail("build-panic", format!("building the system panicked: {} at {}", m, l)),
    };
    let r = if bad {
        fail("bad-source", "a system was built although a source is malformed")
    } else {
        query(s, sim.sys.config(), &all)
    };
    sim.dispose();
    s.nontrivial_if(s.labelled("overlap") && s.labelled("found below the top") && s.labelled("missed below the top"));
    r
}

// ------------------------------------------------------------------ G02

fn dur_of(n: u64) -> Duration {
    Duration::from_secs(n)
}

macro_rules! entries {
    ($($plain:ident $def:ident $ty:ty, $key:literal, $default:expr;)*) => { $(
        kompact_config!($plain, key = $key, type = $ty, doc = "", version = "0");
        kompact_config!($def, key = $key, type = $ty, default = $default, doc = "", version = "0");
    )* };
}
entries! {
    S1 S2 StringValue, "kv.value", "dflt".to_string();
    I1 I2 IntegerValue, "kv.value", -7;
    R1 R2 RealValue, "kv.value", 0.25;
    B1 B2 BooleanValue, "kv.value", true;
    Y1 Y2 BytesValue, "kv.value", 4096;
    D1 D2 DurationValue, "kv.value", dur_of(90);
    U1 U2 UsizeValue, "kv.value", 12;
    F1 F2 F32Value, "kv.value", 0.125;
    AI1 AI2 ArrayOfValues<IntegerValue>, "kv.value", vec![1, 2];
    AS1 AS2 ArrayOfValues<StringValue>, "kv.value", vec!["x".to_string()];
    AD1 AD2 ArrayOfValues<DurationValue>, "kv.value", vec![];
    AY1 AY2 ArrayOfValues<BytesValue>, "kv.value", vec![1];
    AA1 AA2 ArrayOfValues<ArrayOfValues<UsizeValue>>, "kv.value", vec![vec![]];
}
kompact_config!(V_I, key = "kv.value", type = IntegerValue, default = 5, validate = |v| *v >= -3 && *v < 1000, doc = "", version = "0");
kompact_config!(V_R, key = "kv.value", type = RealValue, default = 0.5, validate = |v| 0.0 < *v && *v < 1.0, doc = "", version = "0");
kompact_config!(V_S, key = "kv.value", type = StringValue, default = "on".to_string(), validate = |v| ["on", "off"].contains(&v.as_ref()), doc = "", version = "0");

trait Kind: ConfigValueType {
    fn make(s: &mut Src) -> Self::Value;
    fn copy(v: &Self::Value) -> Self::Value;
    fn eq(a: &Self::Value, b: &Self::Value) -> bool;
    fn show(v: &Self::Value) -> String;
    /// what reading this value must give; None: refused
    fn expect(v: &V) -> Option<Self::Value>;
}
macro_rules! kind {
    ($t:ty, $make:expr, $eq:expr, $expect:expr) => {
        impl Kind for $t {
            fn make(s: &mut Src) -> Self::Value {
                let f: fn(&mut Src) -> Self::Value = $make;
                f(s)
            }
            fn copy(v: &Self::Value) -> Self::Value {
                v.clone()
            }
            fn eq(a: &Self::Value, b: &Self::Value) -> bool {
                let f: fn(&Self::Value, &Self::Value) -> bool = $eq;
                f(a, b)
            }
            fn show(v: &Self::Value) -> String {
                format!("{:?}", v)
            }
            fn expect(v: &V) -> Option<Self::Value> {
                let f: fn(&V) -> Option<Self::Value> = $expect;
                f(v)
            }
        }
    };
}
kind!(StringValue, text, |a, b| a == b, |v| if let S(x) = v { Some(x.clone()) } else { None });
kind!(IntegerValue, int, |a, b| a == b, |v| if let I(x) = v { Some(*x) } else { None });
kind!(RealValue, float, |a, b| same_f(*a, *b), |v| match v {
    F(x) => Some(*x),
    I(x) => Some(*x as f64),
    _ => None,
});
kind!(BooleanValue, |s| s.flag(), |a, b| a == b, |v| if let B(x) = v { Some(*x) } else { None });
kind!(BytesValue, big, |a, b| a == b, |v| match v {
    I(x) => u64::try_from(*x).ok(),
    S(x) => BYTES.iter().find(|(t, _)| t == x).map(|(_, n)| *n),
    _ => None,
});
kind!(DurationValue, duration, |a, b| a == b, |v| match v {
    S(x) => DURATIONS.iter().find(|(t, _)| t == x).map(|(_, n)| Duration::from_millis(*n)),
    _ => None,
});
kind!(UsizeValue, |s| big(s).min(i64::MAX as u64) as usize, |a, b| a == b, |v| if let I(x) = v { usize::try_from(*x).ok() } else { None });
kind!(F32Value, |s| float(s) as f32, |a, b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), |v| match v {
    F(x) => Some(*x as f32),
    I(x) => Some(*x as f32),
    _ => None,
});
impl<K: Kind> Kind for ArrayOfValues<K> {
    fn make(s: &mut Src) -> Self::Value {
        (0..s.size(5)).map(|_| K::make(s)).collect()
    }
    fn copy(v: &Self::Value) -> Self::Value {
        v.iter().map(K::copy).collect()
    }
    fn eq(a: &Self::Value, b: &Self::Value) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(a, b)| K::eq(a, b))
    }
    fn show(v: &Self::Value) -> String {
        format!("[{}]", v.iter().map(K::show).collect::<Vec<_>>().join(", "))
    }
    fn expect(v: &V) -> Option<Self::Value> {
        match v {
            A(x) => x.iter().map(K::expect).collect(),
            _ => None,
        }
    }
}

/// Texts of byte sizes and what they mean; everything else that is generated means nothing.
const BYTES: [(&str, u64); 9] = [("0B", 0), ("1B", 1), ("17 B", 17), ("1kB", 1000), ("1KiB", 1024), ("1.5KiB", 1536), ("3 MiB", 3 << 20), ("2GB", 2_000_000_000), ("1 gib", 1 << 30)];
const DURATIONS: [(&str, u64); 8] = [("0s", 0), ("5s", 5000), ("20ms", 20), ("1h 30m", 5_400_000), ("2days", 172_800_000), ("1min", 60_000), ("1s 1ms", 1001), ("3weeks", 1_814_400_000)];
const NONSENSE: [&str; 9] = ["", "abc", "-1s", "-1B", "5 parsecs", "1..5kB", "s", "12h13", "kB"];

fn big(s: &mut Src) -> u64 {
    match s.below(4) {
        0 => *s.pick(&[0, 1, 1023, 1024, 1 << 20, u64::MAX, i64::MAX as u64, 1 << 63]),
        1 => s.range(0, 5000) as u64,
        _ => s.bits() >> s.below(64),
    }
}

fn duration(s: &mut Src) -> Duration {
    let secs = match s.below(4) {
        0 => *s.pick(&[0, 1, 59, 60, 3600, 86400, 31_557_600, 2_630_016]),
        1 => s.range(0, 100_000) as u64,
        2 => s.bits() >> s.range(20, 63),
        _ => s.bits() >> s.below(64),
    };
    let nanos = match s.below(3) {
        0 => 0,
        1 => *s.pick(&[1, 999, 1000, 1_000_000, 999_999_999, 500_000_000]),
        _ => s.below(1_000_000_000) as u32,
    };
    Duration::new(secs, nanos)
}

fn strange(s: &mut Src) -> V {
    match s.below(4) {
        0 => S(s.pick(&BYTES).0.to_string()),
        1 => S(s.pick(&DURATIONS).0.to_string()),
        2 => S(s.pick(&NONSENSE).to_string()),
        _ => value(s, 2),
    }
}

fn setting<K: Kind>(s: &mut Src, plain: &ConfigEntry<K>, dflt: &ConfigEntry<K>, built_ok: bool) -> CaseResult {
    let name = std::any::type_name::<K>();
    // there and back
    let v = K::make(s);
    let frag = K::config_string(K::copy(&v));
    s.note(|| format!("{} {} is written {:?}", name, K::show(&v), frag));
    let doc = format!("[kv]\nvalue = {}\n", frag);
    let c = match parse_config_str(&doc) {
        Ok(c) => c,
        Err(e) => return fail("fragment", format!("{} {} is written {:?}: {}", name, K::show(&v), frag, e)),
    };
    for e in [plain, dflt] {
        match no_panic(|| c.read(e)) {
            Ok(Ok(x)) => check!(K::eq(&x, &v), "round-trip", "{} {} is written {:?} and read as {}", name, K::show(&v), frag, K::show(&x)),
            Ok(Err(x)) => return fail("round-trip", format!("{} {} is written {:?} and not read back: {}", name, K::show(&v), frag, x)),
            Err((m, l)) => return fail("read-panic", format!("{} written {:?}: {} at {}", name, frag, m, l)),
        }
    }
    // set in a configuration of a system
    if built_ok {
        let (mut cfg, sched, timer) = Sim::config();
        let first = s.flag();
        if first {
            cfg.load_config_str("[kv]\nvalue = 'to be replaced'\nother = 1\n");
        }
        cfg.set_config_value(plain, K::copy(&v));
        let sim = Sim::start(cfg, sched, timer)?;
        let r = sim.sys.config().read(plain);
        sim.dispose();
        match r {
            Ok(x) => check!(K::eq(&x, &v), "round-trip", "{} was set to {} and read as {}", name, K::show(&v), K::show(&x)),
            Err(x) => return fail("round-trip", format!("{} was set to {} and not read back: {}", name, K::show(&v), x)),
        }
    }
    // any value
    let w = strange(s);
    let doc = format!("[kv]\nvalue = {}\n", w.toml());
    s.note(|| format!("{} from {:?}", name, w));
    let c = match parse_config_str(&doc) {
        Ok(c) => c,
        Err(e) => return undecided(format!("the generator wrote bad TOML: {} {}", e, doc)),
    };
    let exp = K::expect(&w);
    for (i, e) in [plain, dflt].into_iter().enumerate() {
        let r = match no_panic(|| if i == 0 { c.read(e) } else { c.read_or_default(e) }) {
            Ok(r) => r,
            Err((m, l)) => return fail("read-panic", format!("{} from {:?}: {} at {}", name, w, m, l)),
        };
        match (r, &exp) {
            (Ok(x), Some(y)) => check!(K::eq(&x, y), "conversion", "{} from {:?} is {}, expected {}", name, w, K::show(&x), K::show(y)),
            (Err(ConfigError::ConversionError { path, .. }), None) => {
                s.label("refused");
                check_eq!(path.as_deref(), Some("kv.value"), "error-path", "{} from {:?}: path named by the error", name, w)
            }
            (Ok(x), None) => return fail("wrong-type", format!("{} from {:?} is {}, expected an error", name, w, K::show(&x))),
            (Err(x), Some(y)) => return fail("conversion", format!("{} from {:?}: {}, expected {}", name, w, x, K::show(y))),
            (Err(x), None) => return fail("wrong-error", format!("{} from {:?}: {:?}", name, w, x)),
        }
    }
    // nothing there, or something else in its place
    let (doc, missing) = *s.pick(&[("", true), ("[kv]\n", true), ("[kv]\nvalues = 1\n", true), ("kv = 3\n", false), ("[[kv]]\nvalue = 1\n", false)]);
    let c = parse_config_str(doc).expect("fixed text");
    let (a, b, p) = (c.read(plain), c.read_or_default(dflt), c.read_or_default(plain));
    for (r, t) in [(&a, "read"), (&p, "read_or_default without default")] {
        match r {
            Err(ConfigError::PathError(e)) => check_eq!(e.is_missing(), missing, "missing", "{} from {:?}: {}", t, doc, e),
            Err(e) => return fail("missing", format!("{} from {:?}: {:?}", t, doc, e)),
            Ok(x) => return fail("missing", format!("{} from {:?}: {}", t, doc, K::show(x))),
        }
    }
    match b {
        Ok(x) => check!(missing && K::eq(&x, &dflt.default().expect("default")), "default", "{} from {:?} with a default: {}", name, doc, K::show(&x)),
        Err(e) => check!(!missing, "default", "{} from {:?} with a default: {}", name, doc, e),
    }
    Ok(())
}

fn validated<K: Kind>(s: &mut Src, e: &ConfigEntry<K>, ok: fn(&K::Value) -> bool) -> CaseResult {
    let v = K::make(s);
    validated_one(s, e, ok, v)
}
fn validated_one<K: Kind>(s: &mut Src, e: &ConfigEntry<K>, ok: fn(&K::Value) -> bool, v: K::Value) -> CaseResult {
    let c = parse_config_str(&format!("[kv]\nvalue = {}\n", K::config_string(K::copy(&v)))).map_err(|x| Failure::new("fragment", x.to_string()))?;
    s.note(|| format!("validate {}", K::show(&v)));
    for i in 0..2 {
        match (if i == 0 { c.read(e) } else { c.read_or_default(e) }, ok(&v)) {
            (Ok(x), true) => check!(K::eq(&x, &v), "round-trip", "{} is read as {}", K::show(&v), K::show(&x)),
            (Err(ConfigError::InvalidValue { path, .. }), false) => {
                s.label("refused");
                check_eq!(path.as_deref(), Some("kv.value"), "error-path", "path named by the error")
            }
            (r, o) => return fail("validation", format!("{} (valid: {}): {:?}", K::show(&v), o, r.map(|x| K::show(&x)))),
        }
    }
    Ok(())
}

fn system(s: &mut Src) -> CaseResult {
    let (mut cfg, sched, timer) = Sim::config();
    let asked: Arc<Mutex<Vec<usize>>> = Default::default();
    let (a2, s2) = (asked.clone(), sched.clone());
    cfg.scheduler(move |t| {
        a2.lock().unwrap().push(t);
        Box::new(s2.clone())
    });
    // what Sim::config sets
    let (mut label, mut thr, mut pri, mut threads, mut sch): (V, V, V, V, V) = (S("kv".into()), I(50), F(0.5), I(1), S("custom".into()));
    for _ in 0..s.range(1, 4) {
        let (k, v) = match s.below(5) {
            0 => {
                label = if s.chance(1, 4) { leaf(s) } else { S(text(s)) };
                ("label", &label)
            }
            1 => {
                thr = match s.below(4) {
                    0 => leaf(s),
                    1 => I(*s.pick(&[0, -1, i64::MIN, 1, i64::MAX])),
                    _ => I(s.range(1, 10_000) as i64),
                };
                ("throughput", &thr)
            }
            2 => {
                pri = match s.below(4) {
                    0 => leaf(s),
                    1 => F(*s.pick(&[0.0, 1.0, -0.5, 1.5, f64::NAN, f64::INFINITY, 1e-30, 0.999_999_999_999])),
                    _ => F(s.range(1, 999) as f64 / 1000.0),
                };
                ("message-priority", &pri)
            }
            3 => {
                threads = match s.below(3) {
                    0 => leaf(s),
                    1 => I(*s.pick(&[0, -1, 1, 64])),
                    _ => I(s.range(1, 100) as i64),
                };
                ("threads", &threads)
            }
            _ => {
                sch = match s.below(3) {
                    0 => S("custom".into()),
                    1 => S(s.pick(&["Custom", "bogus", "", "custom "]).to_string()),
                    _ => I(1),
                };
                ("scheduler", &sch)
            }
        };
        let doc = format!("[kompact.runtime]\n{} = {}\n", k, v.toml());
        s.note(|| doc.clone());
        cfg.load_config_str(doc);
    }
    let f = |v: &V| match v {
        F(x) => Some(*x as f32),
        I(x) => Some(*x as f32),
        _ => None,
    };
    let n = |v: &V| if let I(x) = v { Some(*x) } else { None };
    let valid = matches!(label, S(_)) && n(&thr).is_some_and(|x| x > 0) && f(&pri).is_some_and(|x| x > 0.0 && x < 1.0) && n(&threads).is_some_and(|x| x > 0) && matches!(&sch, S(x) if x == "custom");
    let sim = match no_panic(|| Sim::start(cfg, sched, timer)) {
        Ok(Ok(sim)) => sim,
        Ok(Err(e)) => {
            check!(!valid && e.sig == "build-failed", "build", "{}", e.msg);
            s.label("refused");
            s.nontrivial();
            return Ok(());
        }
        Err((m, l)) => return fail("build-panic", format!("building the system panicked: {} at {}", m, l)),
    };
    let (t, mm) = (sim.sys.throughput(), sim.sys.max_messages());
    sim.dispose();
    check!(valid, "bad-setting", "a system was built with label {:?}, throughput {:?}, priority {:?}, threads {:?}, scheduler {:?}", label, thr, pri, threads, sch);
    check_eq!(Some(t as i64), n(&thr), "not-as-configured", "throughput");
    check_eq!(asked.lock().unwrap().iter().map(|x| *x as i64).collect::<Vec<_>>(), vec![n(&threads).unwrap()], "not-as-configured", "threads asked of the scheduler");
    let want = t as f64 * f(&pri).unwrap() as f64;
    let tol = 1.0 + want * 1e-6;
    check!(mm >= 1 && (mm as f64 <= want + tol) && (mm as f64 >= want - tol || mm + 1 >= t), "not-as-configured", "{} messages of {} at priority {:?}", mm, t, pri);
    check!(t < 2 || mm < t, "not-as-configured", "no events: {} messages of {} at priority {:?}", mm, t, pri);
    s.nontrivial();
    Ok(())
}

/// The schedulers that can be chosen by name run components, and shut down.
fn pools(s: &mut Src) -> CaseResult {
    let name = *s.pick(&["auto", "small", "large", "dynamic"]);
    let threads = s.range(1, 4);
    s.note(|| format!("{} scheduler with {} threads", name, threads));
    s.label("pool");
    let mut cfg = KompactConfig::default();
    cfg.logger(quiet_logger());
    cfg.load_config_str(format!("kompact.runtime.threads = {}\nkompact.runtime.scheduler = '{}'\n", threads, name));
    let sys = match cfg.build().wait_timeout(Duration::from_secs(20)) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return fail("build", format!("no system: {:?}", e)),
        Err(_) => return undecided("the system took more than 20 s to start"),
    };
    let h = (0..8u64).map(|i| sys.spawn(async move { i })).collect::<Vec<_>>();
    for (i, h) in h.into_iter().enumerate() {
        match h.wait_timeout(Duration::from_secs(20)) {
            Ok(Ok(x)) => check_eq!(x, i as u64, "pool", "result of a task"),
            _ => return undecided("a task took more than 20 s"),
        }
    }
    match sys.shutdown().wait_timeout(Duration::from_secs(20)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail("pool", format!("shutdown: {:?}", e)),
        Err(_) => undecided("shutdown took more than 20 s"),
    }
}

fn g02(s: &mut Src) -> CaseResult {
    if s.chance(1, 8) {
        if s.chance(1, 1500) {
            return pools(s);
        }
        return system(s);
    }
    if s.chance(1, 5) {
        let r = match s.below(3) {
            0 => {
                let v = if s.flag() { *s.pick(&[-4, -3, 999, 1000]) } else { int(s) };
                validated_one::<IntegerValue>(s, &V_I, |v| *v >= -3 && *v < 1000, v)
            }
            1 => validated(s, &V_R, |v| 0.0 < *v && *v < 1.0),
            _ => {
                let v = if s.flag() { s.pick(&["on", "off", "On", "onn", ""]).to_string() } else { text(s) };
                validated_one::<StringValue>(s, &V_S, |v| v == "on" || v == "off", v)
            }
        };
        s.nontrivial_if(s.labelled("refused"));
        return r;
    }
    let b = s.chance(1, 4);
    match s.below(13) {
        0 => setting(s, &S1, &S2, b),
        1 => setting(s, &I1, &I2, b),
        2 => setting(s, &R1, &R2, b),
        3 => setting(s, &B1, &B2, b),
        4 => setting(s, &Y1, &Y2, b),
        5 => setting(s, &D1, &D2, b),
        6 => setting(s, &U1, &U2, b),
        7 => setting(s, &F1, &F2, b),
        8 => setting(s, &AI1, &AI2, b),
        9 => setting(s, &AS1, &AS2, b),
        10 => setting(s, &AD1, &AD2, b),
        11 => setting(s, &AY1, &AY2, b),
        _ => setting(s, &AA1, &AA2, b),
    }?;
    s.nontrivial_if(s.labelled("refused"));
    Ok(())
}
