//! Replays sessions (lines of JSON, each a list of operations) into the real
//! crate and writes each operation back with what was observed.
mod insp;
mod jail;
mod prov;
mod threads;
mod ty;
mod val;

use std::cell::RefCell;
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

use figment::error::{Actual, Kind};
use figment::providers::Env;
use figment::value::magic::{RelativePathBuf, Tagged};
use figment::value::{Dict, Value};
use figment::{Error, Figment, Profile, Provider, Source};
use serde_json::{json, Map as JMap, Value as J};

use val::*;

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn actual(a: &Actual) -> [String; 2] {
    let f = |n: &str, v: String| [n.to_string(), v];
    match a {
        Actual::Bool(v) => f("bool", v.to_string()),
        Actual::Unsigned(v) => f("unsigned", v.to_string()),
        Actual::Signed(v) => f("signed", v.to_string()),
        Actual::Float(v) => f("float", ftext(*v)),
        Actual::Char(v) => f("char", v.to_string()),
        Actual::Str(v) => f("str", v.clone()),
        Actual::Bytes(v) => f("bytes", format!("{v:?}")),
        Actual::Unit => f("unit", "".into()),
        Actual::Option => f("option", "".into()),
        Actual::NewtypeStruct => f("newtype", "".into()),
        Actual::Seq => f("seq", "".into()),
        Actual::Map => f("map", "".into()),
        Actual::Enum => f("enum", "".into()),
        Actual::UnitVariant => f("unitvariant", "".into()),
        Actual::NewtypeVariant => f("newtypevariant", "".into()),
        Actual::TupleVariant => f("tuplevariant", "".into()),
        Actual::StructVariant => f("structvariant", "".into()),
        Actual::Other(v) => f("other", v.clone()),
    }
}

/// `<<kind, ...>>`, all strings.
pub fn kind(k: &Kind) -> J {
    match k {
        Kind::Message(m) => json!(["Message", m]),
        Kind::InvalidType(a, e) => { let [n, v] = actual(a); json!(["InvalidType", n, v, e]) }
        Kind::InvalidValue(a, e) => { let [n, v] = actual(a); json!(["InvalidValue", n, v, e]) }
        Kind::InvalidLength(n, e) => json!(["InvalidLength", n.to_string(), e]),
        Kind::UnknownVariant(v, e) => json!(["UnknownVariant", v, e.join(",")]),
        Kind::UnknownField(v, e) => json!(["UnknownField", v, e.join(",")]),
        Kind::MissingField(v) => json!(["MissingField", v]),
        Kind::DuplicateField(v) => json!(["DuplicateField", v]),
        Kind::ISizeOutOfRange(v) => json!(["ISizeOutOfRange", v.to_string()]),
        Kind::USizeOutOfRange(v) => json!(["USizeOutOfRange", v.to_string()]),
        Kind::Unsupported(a) => { let [n, v] = actual(a); json!(["Unsupported", n, v]) }
        Kind::UnsupportedKey(a, e) => { let [n, v] = actual(a); json!(["UnsupportedKey", n, v, e]) }
    }
}

/// One record per error of the chain, in iteration order.
pub fn errs(e: &Error) -> J {
    J::Array(e.clone().into_iter().map(|e| json!({
        "kind": kind(&e.kind),
        "path": e.path,
        "prof": e.profile.as_ref().map(|p| p.as_str().as_str().to_ascii_lowercase()).unwrap_or_default(),
        "md": e.metadata.as_ref().map(|m| m.name.to_string()).unwrap_or_default(),
    })).collect())
}

fn low(p: &Profile) -> String { p.as_str().as_str().to_ascii_lowercase() }

fn enc_map(m: &figment::value::Map<Profile, Dict>, f: Option<&Figment>) -> J {
    let mut out = JMap::new();
    for (p, d) in m {
        out.insert(low(p), enc_dict(d, f));
    }
    J::Object(out)
}

fn none() -> J { json!({"k": "none"}) }

fn proj(f: &Figment) -> J {
    let (st, data) = match f.data() {
        Ok(m) => ("ok", enc_map(&m, Some(f))),
        Err(_) => ("err", json!({})),
    };
    let (merged, es) = match f.find_value("") {
        Ok(v) => (enc(&v, Some(f)), json!([])),
        Err(e) => (none(), errs(&e)),
    };
    let ext = match ty::with_fig(f, || f.extract::<Value>()) {
        Ok(v) => enc(&v, Some(f)),
        Err(_) => none(),
    };
    json!({
        "prof": low(f.profile()),
        "rawprof": f.profile().to_string(),
        "profs": f.profiles().map(low).collect::<Vec<_>>(),
        "mds": f.metadata().map(|m| m.name.to_string()).collect::<Vec<_>>(),
        "st": st, "data": data, "merged": merged, "ext": ext, "errs": es,
        "count": f.find_value("").err().map_or(0, |e| e.count()),
    })
}

/// Source kind and text; paths below `root` are made relative to it.
fn source(src: Option<&Source>, root: &Path) -> J {
    match src {
        None => json!(["", ""]),
        Some(x) => {
            if let Some(p) = x.file_path() {
                match p.strip_prefix(root) {
                    Ok(r) => json!(["file", r.display().to_string()]),
                    Err(_) => json!(["relfile", p.display().to_string()]),
                }
            } else if let Some(l) = x.code_location() {
                json!(["code", l.line().to_string()])
            } else if let Some(c) = x.custom() {
                json!(["custom", c])
            } else {
                json!(["other", ""])
            }
        }
    }
}

fn metas(f: &Figment, root: &Path) -> J {
    let all: Vec<_> = f.metadata().take(5).collect();
    J::Array(f.metadata().map(|m| json!({
        "eq": all.iter().map(|o| *o == m && !(*o != m)).collect::<Vec<_>>(),
        "name": m.name,
        "src": source(m.source.as_ref(), root),
        "line": m.provide_location.map(|l| l.line()).unwrap_or(0),
        "here": m.provide_location.map(|l| l.file().ends_with("prov.rs")).unwrap_or(false),
        "key": m.interpolate(&Profile::new("Dev"), &["a", "b_c"]),
    })).collect())
}

fn res_value(r: Result<Value, Error>, f: &Figment) -> J {
    match r {
        Ok(v) => json!({"st": "ok", "v": enc(&v, Some(f)), "errs": []}),
        Err(e) => json!({"st": "err", "v": none(), "errs": errs(&e)}),
    }
}

fn opt_value(r: Option<&Value>, f: &Figment) -> J {
    match r {
        Some(v) => json!({"st": "ok", "v": enc(v, Some(f)), "errs": []}),
        None => json!({"st": "none", "v": none(), "errs": []}),
    }
}

/// What was read with its tag, and the same without, given to the figment again.
fn tagged_again(f: &Figment, path: &str) -> J {
    let Ok(t) = f.extract_inner::<Tagged<Value>>(path) else { return json!([]) };
    let bare = Tagged::from(t.clone().into_inner());
    let g = f.clone().merge(figment::providers::Serialized::default("again", (&t, &bare)));
    let Ok((t, bare)) = g.extract_inner::<(Tagged<Value>, Tagged<Value>)>("again") else { return json!(["unreadable"]) };
    let here = g.find_value("again").expect("given").tag();
    let name = |t: &Tagged<Value>| match t.tag() == here { true => "here".into(), false => tag(t.tag(), Some(f)) };
    json!([name(&t), enc(&t, None), name(&bare), enc(&bare, None)])
}

fn query(f: &Figment, path: &str) -> J {
    let root = f.find_value("").unwrap_or_else(|_| Value::from(false));
    json!({
        "find": res_value(f.find_value(path), f),
        "contains": f.contains(path),
        "md": f.find_metadata(path).map(|m| m.name.to_string()).unwrap_or_default(),
        "inner": res_value(f.extract_inner::<Value>(path), f),
        "innerlossy": res_value(f.extract_inner_lossy::<Value>(path), f),
        "tagged": match f.extract_inner::<Tagged<Value>>(path) {
            Ok(t) => json!({"st": "ok", "v": enc(&t, Some(f)), "tag": tag(t.tag(), Some(f))}),
            Err(_) => json!({"st": "err", "v": none(), "tag": ""}),
        },
        "again": tagged_again(f, path),
        "vref": opt_value(root.find_ref(path), f),
        "vfind": opt_value(root.clone().find(path).as_ref(), f),
    })
}

fn outcome(r: Result<J, Error>) -> J {
    match r {
        Ok(v) => json!({"st": "ok", "r": v, "errs": [], "disp": ""}),
        Err(e) => json!({"st": "err", "r": {"r": "-"}, "errs": errs(&e), "disp": e.to_string()}),
    }
}

/// What a provider gives that reads `g`: the failure to, if it fails.
fn reads(g: &Figment, p: &J) -> Result<figment::value::Map<Profile, Dict>, Error> {
    ty::with_ty(ty::parse(&p["ty"]), || ty::with_fig(g, || match s(&p["root"]) == "true" {
        true => g.extract::<ty::Dyn>(),
        false => g.extract_inner::<ty::Dyn>(s(&p["path"])),
    }))?;
    let mut d = Dict::new();
    d.insert("inner".into(), true.into());
    Ok(Profile::Default.collect(d))
}

fn extract(f: &Figment, op: &J) -> J {
    let t = ty::parse(&op["ty"]);
    let path = s(&op["path"]);
    let lossy = s(&op["lossy"]) == "true";
    let inner = s(&op["inner"]) == "true";
    ty::with_ty(t, || ty::with_fig(f, || {
        let r = match (inner, lossy) {
            (false, false) => f.extract::<ty::Dyn>(),
            (false, true) => f.extract_lossy::<ty::Dyn>(),
            (true, false) => f.extract_inner::<ty::Dyn>(path),
            (true, true) => f.extract_inner_lossy::<ty::Dyn>(path),
        };
        let mut o = outcome(r.map(|d| d.0));
        let mut fc = JMap::new();
        if let Ok(v) = f.find_value("") { float_table(&v, &mut fc); }
        o["fc"] = J::Object(fc);
        o
    }))
}

/// Everything the standard library has to say about floats and code points
/// that may occur in `st`.
fn parse_tables(st: &str) -> (J, J) {
    let (mut ft, mut ut) = (JMap::new(), JMap::new());
    let ix: Vec<usize> = st.char_indices().map(|(i, _)| i).chain(Some(st.len())).collect();
    // In long texts, what may stand between delimiters only
    let long = st.len() > 300;
    let at = |i: usize| st[i..].chars().next();
    for (a, i) in ix.iter().enumerate() {
        if long && a > 0 && !at(ix[a - 1]).is_some_and(|c| c.is_whitespace() || "[{,=".contains(c)) {
            continue;
        }
        for j in ix[a + 1..].iter().take(90) {
            if long && at(*j).is_some_and(|c| !c.is_whitespace() && !"]},".contains(c)) {
                continue;
            }
            let sub = &st[*i..*j];
            if sub.contains('.') && sub.trim() == sub {
                if let Ok(x) = sub.parse::<f64>() {
                    ft.insert(sub.into(), ftext(x).into());
                }
            }
        }
    }
    for (a, i) in ix.iter().enumerate() {
        for n in [4, 8] {
            if let Some(j) = ix.get(a + n) {
                let sub = &st[*i..*j];
                if sub.chars().all(|c| c.is_ascii_hexdigit()) {
                    if let Some(c) = u32::from_str_radix(sub, 16).ok().and_then(char::from_u32) {
                        ut.insert(sub.into(), c.to_string().into());
                    }
                }
            }
        }
    }
    (J::Object(ft), J::Object(ut))
}

fn env_tables(ft: &mut JMap<String, J>, ut: &mut JMap<String, J>) {
    for (_, v) in std::env::vars_os() {
        let v = v.to_string_lossy().into_owned();
        let (a, b) = parse_tables(&v);
        ft.extend(a.as_object().unwrap().clone());
        ut.extend(b.as_object().unwrap().clone());
    }
}

/// Source locations without their column, which call sites cannot name.
fn drop_columns(text: &str) -> String {
    let (mut out, mut rest) = (String::new(), text);
    while let Some(i) = rest.find("src/prov.rs:") {
        let (head, tail) = rest.split_at(i + "src/prov.rs:".len());
        out.push_str(head);
        let line = tail.find(|c: char| !c.is_ascii_digit()).unwrap_or(tail.len());
        out.push_str(&tail[..line]);
        rest = &tail[line..];
        if let Some(col) = rest.strip_prefix(':') {
            rest = col.trim_start_matches(|c: char| c.is_ascii_digit());
        }
    }
    out.push_str(rest);
    out
}

fn map_text(j: J, f: &dyn Fn(&str) -> String) -> J {
    match j {
        J::String(s) => J::String(f(&s)),
        J::Array(a) => J::Array(a.into_iter().map(|j| map_text(j, f)).collect()),
        J::Object(m) => J::Object(m.into_iter().map(|(k, v)| (f(&k), map_text(v, f))).collect()),
        j => j,
    }
}

fn hash(p: &Profile) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}

struct Exec {
    root: PathBuf,
    figs: Vec<Figment>,
    /// Providers made earlier on, the lines they were made at, their kinds.
    held: Vec<(Box<dyn Provider>, u32, bool)>,
}

/// An unused name, or an empty directory by one, that links can lead to.
fn elsewhere(root: &Path, dir: bool) -> PathBuf {
    let all = root.join(".else");
    std::fs::create_dir_all(&all).unwrap();
    let p = all.join(std::fs::read_dir(&all).unwrap().count().to_string());
    if dir { std::fs::create_dir(&p).unwrap(); }
    p
}

fn clear_env() {
    for (k, _) in std::env::vars_os() {
        std::env::remove_var(k);
    }
}

impl Exec {
    fn fig(&self, op: &J) -> &Figment { &self.figs[op["h"].as_u64().unwrap() as usize - 1] }

    fn new_fig(&mut self, f: Figment) -> J {
        let p = proj(&f);
        self.figs.push(f);
        p
    }

    fn provide(&mut self, op: &J, base: Option<Figment>) -> J {
        let p = &op["p"];
        let (ord, site) = (op["ord"].as_str().unwrap_or(""), op["site"].as_u64().unwrap_or(0));
        let byref = s(&op["byref"]) == "true";
        macro_rules! go { ($p:expr) => ({
            match base {
                Some(b) => prov::provide(b, ord, site, $p),
                None => prov::from($p),
            }
        }) }
        let mut cline = 0;
        let mut isenv = s(&p["kind"]) == "env";
        let mut fc = JMap::new();
        let (f, line) = if s(&p["kind"]) == "fig" {
            let g = self.figs[p["h"].as_u64().unwrap() as usize - 1].clone();
            match byref { true => go!(&g), false => go!(g) }
        } else if s(&p["kind"]) == "held" {
            let (inner, l, e) = &self.held[p["i"].as_u64().unwrap() as usize - 1];
            (cline, isenv) = (*l, *e);
            let q = prov::P { inner: inner.as_ref(), name: Some(s(&p["name"]).into()) };
            match byref { true => go!(&q), false => go!(q) }
        } else if s(&p["kind"]) == "tuple" && s(&p["name"]).is_empty() {
            // The pair itself, with its own metadata.
            let q = (s(&p["key"]).to_string(), dec(&p["val"]));
            match byref { true => go!(&q), false => go!(q) }
        } else {
            let (inner, l) = match s(&p["kind"]) {
                k @ ("graft" | "inner") => {
                    let g = &self.figs[p["h"].as_u64().unwrap() as usize - 1];
                    if let Ok(v) = g.find_value("") { float_table(&v, &mut fc); }
                    let pr = match k {
                        "graft" => prov::graft(p, &self.root, g),
                        _ => prov::custom(p, &self.root, reads(g, p)),
                    };
                    (pr, 0)
                }
                _ => prov::build(p, &self.root),
            };
            cline = l;
            let name = match s(&p["name"]) { "" => None, n => Some(n.to_string()) };
            let q = prov::P { inner: inner.as_ref(), name };
            match byref { true => go!(&q), false => go!(q) }
        };
        let mut o = self.new_fig(f);
        o["line"] = line.into();
        o["cline"] = cline.into();
        let (mut ft, mut ut) = (JMap::new(), JMap::new());
        if isenv { env_tables(&mut ft, &mut ut); }
        o["ft"] = J::Object(ft);
        o["ut"] = J::Object(ut);
        o["fc"] = J::Object(fc);
        o
    }

    fn op(&mut self, op: &J) -> J {
        let root = self.root.clone();
        match s(&op["op"]) {
            "setenv" => { std::env::set_var(jail::os(s(&op["k"])), jail::os(s(&op["v"]))); json!({}) }
            "unsetenv" => { std::env::remove_var(jail::os(s(&op["k"]))); json!({}) }
            "mkdir" => {
                let p = root.join(s(&op["path"]));
                if op["link"] == "true" {
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    std::os::unix::fs::symlink(elsewhere(root.as_ref(), true), p).unwrap();
                } else {
                    std::fs::create_dir_all(p).unwrap();
                }
                json!({})
            }
            "wfile" => {
                let p = root.join(s(&op["path"]));
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                let at = match op["link"] == "true" && !p.exists() {
                    true => elsewhere(root.as_ref(), false),
                    false => p.clone(),
                };
                std::fs::write(&at, jail::os(s(&op["text"])).as_encoded_bytes()).unwrap();
                if at != p { std::os::unix::fs::symlink(at, p).unwrap(); }
                json!({})
            }
            "mkodd" => {
                let p = root.join(s(&op["path"]));
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                if s(&op["how"]) == "dangling" {
                    std::os::unix::fs::symlink(root.join(".none/at/all"), p).unwrap();
                } else {
                    // From within its directory, as names of sockets must be short.
                    let back = std::env::current_dir().unwrap();
                    std::env::set_current_dir(p.parent().unwrap()).unwrap();
                    std::os::unix::net::UnixListener::bind(p.file_name().unwrap()).unwrap();
                    std::env::set_current_dir(back).unwrap();
                }
                json!({})
            }
            "rm" => { std::fs::remove_file(root.join(s(&op["path"]))).unwrap(); json!({}) }
            "cd" => { std::env::set_current_dir(root.join(s(&op["path"]))).unwrap(); json!({}) }
            "new" => self.new_fig(Figment::new()),
            "default" => self.new_fig(Figment::default()),
            "from" => self.provide(op, None),
            "hold" => {
                let (b, l) = prov::build(&op["p"], &self.root);
                self.held.push((b, l, s(&op["p"]["kind"]) == "env"));
                json!({})
            }
            "prov" => { let b = self.fig(op).clone(); self.provide(op, Some(b)) }
            "select" => { let f = self.fig(op).clone().select(s(&op["prof"])); self.new_fig(f) }
            "focus" => { let f = self.fig(op).focus(s(&op["key"])); self.new_fig(f) }
            "proj" => json!({"all": self.figs.iter().map(proj).collect::<Vec<_>>()}),
            "q" => query(self.fig(op), s(&op["path"])),
            "x" => extract(self.fig(op), op),
            "meta" => json!({"metas": metas(self.fig(op), &root)}),
            "parse" => {
                let st = s(&op["s"]);
                let v: Value = st.parse().unwrap();
                let (ft, ut) = parse_tables(st);
                json!({"v": enc_deep(&v), "ft": ft, "ut": ut})
            }
            "envdata" => {
                let e = prov::env_of(&op["p"]);
                let data = e.data().map_err(|e| e.to_string()).unwrap();
                let it: Vec<J> = e.iter().map(|(k, v)| json!([k.as_str(), v])).collect();
                let (mut ft, mut ut) = (JMap::new(), JMap::new());
                env_tables(&mut ft, &mut ut);
                json!({"data": enc_map(&data, None), "iter": it, "ft": ft, "ut": ut,
                    "name": e.metadata().name})
            }
            "envvar" => {
                let n = s(&op["name"]);
                let o = |v: Option<String>| match v { Some(v) => json!(["some", v]), None => json!(["none", ""]) };
                json!({
                    "var": o(Env::var(n)), "varor": Env::var_or(n, "DFLT"),
                    "prof": o(Profile::from_env(n).map(|p| p.to_string())),
                    "profor": Profile::from_env_or(n, "DFLT").to_string(),
                })
            }
            "diff" => {
                let (p, b) = (s(&op["p"]), s(&op["b"]));
                match figment::util::diff_paths(p, b) {
                    Some(d) => json!({"st": "some", "d": d.display().to_string()}),
                    None => json!({"st": "none", "d": ""}),
                }
            }
            "srcdisp" => {
                // Display of a file source, with the working directory at `cwd`.
                let src = Source::from(root.join(s(&op["path"])).as_path());
                let rel = Source::from(Path::new(s(&op["path"])));
                let c = Source::from(s(&op["path"]));
                json!({"abs": src.to_string(),
                    "rel": rel.to_string(), "custom": c.to_string()})
            }
            "ser" => {
                let t = ty::parse(&op["ty"]);
                match Value::serialize(ty::Ser(t, &op["val"])) {
                    Ok(v) => {
                        let t = if s(&op["ty"]["t"]) == "bytes" { ty::parse(&json!({"t": "value"})) } else { t };
                        let back = ty::with_ty(t, || outcome(v.deserialize::<ty::Dyn>().map(|d| d.0)));
                        let again = Value::serialize(&v).map(|v| enc(&v, None)).unwrap_or(none());
                        let mut fc = JMap::new();
                        float_table(&v, &mut fc);
                        json!({"v": enc(&v, None), "back": back, "again": again, "fc": fc})
                    }
                    Err(e) => json!({"v": none(), "back": {"st": "err", "errs": errs(&e)}, "again": none(), "fc": {}}),
                }
            }
            "vde" => {
                // A value by itself, with no figment, read as a type.
                let (t, v) = (ty::parse(&op["ty"]), dec(&op["val"]));
                let mut fc = JMap::new();
                float_table(&v, &mut fc);
                let mut o = ty::with_ty(t, || outcome(v.deserialize::<ty::Dyn>().map(|d| d.0)));
                o["fc"] = fc.into();
                o
            }
            "badmap" => {
                let k = ty::leak(s(&op["key"]));
                match Value::serialize(ty::BadMap(k)) {
                    Ok(v) => json!({"st": "ok", "v": enc(&v, None), "errs": []}),
                    Err(e) => json!({"st": "err", "v": none(), "errs": errs(&e)}),
                }
            }
            "lossy" => {
                let v = dec(&op["val"]);
                let mut fc = JMap::new();
                float_table(&v, &mut fc);
                json!({
                    "b": match v.to_bool_lossy() { Some(b) => json!(["some", b.to_string()]), None => json!(["none", ""]) },
                    "n": match v.to_num_lossy() {
                        Some(n) => { let (y, v) = num_parts(&n); json!(["some", y, v]) }
                        None => json!(["none", "", ""]),
                    },
                    "u": v.to_u128().map(|x| x.to_string()).unwrap_or_default(),
                    "i": v.to_i128().map(|x| x.to_string()).unwrap_or_default(),
                    "f": v.to_f64().map(ftext).unwrap_or_default(),
                    "act": actual(&v.to_actual()),
                    "fc": fc,
                })
            }
            "nest" => {
                let v = figment::util::nest(s(&op["key"]), dec(&op["val"]));
                json!({"v": enc(&v, None), "found": opt_value(v.find_ref(s(&op["key"])), &Figment::new())})
            }
            "profeq" => {
                let (a, b) = (Profile::new(s(&op["a"])), Profile::new(s(&op["b"])));
                json!({
                    "eq": a == b && &a == b && a == &b,
                    "eqstr": a == *s(&op["b"]) && a == s(&op["b"]) && *s(&op["b"]) == a && s(&op["b"]) == a,
                    "hash": hash(&a) == hash(&b),
                    "ord": (a.cmp(&b) as i8).to_string(),
                    "custom": a.is_custom(),
                    "disp": a.to_string(), "str": String::from(a.clone()),
                    "starts": a.starts_with(s(&op["b"])),
                    "ser": match Value::serialize(&a) { Ok(v) => enc(&v, None), Err(_) => none() },
                    "de": match Value::from(s(&op["a"])).deserialize::<Profile>() { Ok(p) => p.to_string(), Err(_) => "?".into() },
                })
            }
            "relser" => {
                // Serializes an extracted path into another figment, extracts again.
                let f = self.fig(op);
                match f.extract_inner::<RelativePathBuf>(s(&op["path"])) {
                    Err(e) => json!({"st": "err", "errs": errs(&e)}),
                    Ok(p) => {
                        let g = Figment::from(figment::providers::Serialized::default("p", &p));
                        let q = g.extract_inner::<RelativePathBuf>("p");
                        #[derive(serde::Serialize)]
                        struct O<'a>(#[serde(serialize_with = "RelativePathBuf::serialize_original")] &'a RelativePathBuf);
                        #[derive(serde::Serialize)]
                        struct R<'a>(#[serde(serialize_with = "RelativePathBuf::serialize_relative")] &'a RelativePathBuf);
                        json!({"st": "ok", "a": ty::relpath(&p), "b": match &q {
                            Ok(q) => ty::relpath(q), Err(_) => json!({"r": "-"}) },
                            "orig": enc(&Value::serialize(O(&p)).unwrap(), None),
                            "rel": enc(&Value::serialize(R(&p)).unwrap(), None),
                            "from": ty::relpath(&RelativePathBuf::from(p.original())),
                            "fromeq": p == RelativePathBuf::from(p.relative()),
                            "eq": match f.extract_inner::<RelativePathBuf>(s(&op["other"])) {
                                Ok(o) => json!([p == o, o == p, o != p]), Err(_) => json!(["-"]) },
                            "teq": match (f.extract_inner::<Tagged<String>>(s(&op["path"])), f.extract_inner::<Tagged<String>>(s(&op["other"]))) {
                                (Ok(p), Ok(o)) => json!([p == o, o == p, o != p, p == Tagged::from(o.into_inner())]), _ => json!(["-"]) },
                            "errs": []})
                    }
                }
            }
            "errdisp" => {
                // A figment whose provider fails with the given error.
                let f = self.fig(op);
                match f.extract::<Value>() {
                    Ok(_) => json!({"disp": "", "errs": []}),
                    Err(e) => json!({"disp": e.to_string(), "errs": errs(&e)}),
                }
            }
            "val" => insp::val(op),
            "err" => insp::err(op),
            o => bug(format!("op {o}")),
        }
    }
}

fn exec(sessions: &str, out: &str, scratch: &str) {
    let input = std::io::BufReader::new(std::fs::File::open(sessions).expect("sessions"));
    let mut w = BufWriter::new(std::fs::File::create(out).expect("out"));
    let scratch = std::fs::canonicalize(scratch).expect("scratch");
    let cur = scratch.join("current");
    for (n, line) in input.lines().enumerate() {
        let line = line.expect("line");
        std::fs::write(&cur, n.to_string()).expect("current");
        let sess: J = serde_json::from_str(&line).expect("session");
        clear_env();
        let root = scratch.join(format!("r{n}"));
        std::fs::create_dir_all(&root).expect("root");
        std::env::set_current_dir(&root).expect("cd");
        let rootstr = root.to_str().unwrap();
        let mut ex = Exec { root: root.clone(), figs: vec![], held: vec![] };
        let mut evs = vec![];
        for op in sess["ops"].as_array().unwrap() {
            let r = catch_unwind(AssertUnwindSafe(|| ex.op(op)));
            let mut ev = op.clone();
            match r {
                Ok(o) => {
                    // Paths below the session's root are shown as `ROOT/..`.
                    ev["obs"] = map_text(o, &|s| drop_columns(&s.replace(rootstr, "ROOT")));
                    ev["ok"] = true.into();
                    evs.push(ev);
                }
                Err(_) => {
                    ev["obs"] = json!({"panic": PANIC.with(|p| p.borrow().clone())});
                    ev["ok"] = false.into();
                    evs.push(ev);
                    break;
                }
            }
        }
        serde_json::to_writer(&mut w, &json!({"ev": evs, "depth": root.components().count()})).unwrap();
        w.write_all(b"\n").unwrap();
        w.flush().unwrap();
        std::env::set_current_dir(&scratch).expect("cd");
        std::fs::remove_dir_all(&root).expect("cleanup");
    }
    std::fs::write(&cur, "done").expect("current");
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<String>().cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = msg + &at);
    }));
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or_else(|| bug("usage".into()));
    match a(1) {
        "exec" => exec(a(2), a(3), a(4)),
        "jail" => jail::run(a(2), a(3), a(4)),
        "jailthreads" => threads::jails(a(2), a(3), a(4)),
        "tags" => threads::tags(a(2), a(3), a(4)),
        m => bug(format!("mode {m}")),
    }
}
