//! Providers described by JSON.
use std::path::Path;

use figment::providers::*;
use figment::value::{Dict, Map, Tag, Uncased, UncasedStr, Value};
use figment::{Error, Figment, Metadata, Profile, Provider};
use serde_json::Value as J;

use crate::ty::{self, Ser};
use crate::val::{bug, dec, dec_dict, obj, s};

/// Any provider, optionally with the name of its metadata replaced so that
/// sources can be told apart.
pub struct P<'a> {
    pub inner: &'a dyn Provider,
    pub name: Option<String>,
}

impl Provider for P<'_> {
    fn metadata(&self) -> Metadata {
        let mut m = self.inner.metadata();
        if let Some(n) = &self.name {
            m.name = n.clone().into();
        }
        m
    }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { self.inner.data() }
    fn profile(&self) -> Option<Profile> { self.inner.profile() }
    fn __metadata_map(&self) -> Option<Map<Tag, Metadata>> { self.inner.__metadata_map() }
}

struct Custom {
    asked: std::sync::atomic::AtomicU32,
    data: Result<Map<Profile, Dict>, Error>,
    prof: Option<Profile>,
    md: Metadata,
}

impl Provider for Custom {
    fn metadata(&self) -> Metadata { self.md.clone() }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
        match self.asked.fetch_add(1, std::sync::atomic::Ordering::SeqCst) {
            0 => self.data.clone(),
            n => Err(Error::from(format!("asked {} times", n + 1))),
        }
    }
    fn profile(&self) -> Option<Profile> { self.prof.clone() }
}

pub fn interp_md(md: Metadata, kind: &str) -> Metadata {
    match kind {
        "" | "default" => md,
        "upper" => md.interpolater(|_: &Profile, k: &[&str]| {
            k.iter().map(|k| k.to_ascii_uppercase()).collect::<Vec<_>>().join(".")
        }),
        "slash" => md.interpolater(|p: &Profile, k: &[&str]| format!("{}/{}", p, k.join("/"))),
        "count" => md.interpolater(|_: &Profile, k: &[&str]| format!("#{}", k.len())),
        k => bug(format!("interpolater {k}")),
    }
}

fn source_md(name: &str, src: &J, root: &Path) -> Metadata {
    let md = Metadata::named(name.to_string());
    match src.as_array() {
        None => md,
        Some(a) => match s(&a[0]) {
            "" => md,
            "file" => md.source(root.join(s(&a[1])).as_path()),
            "absfile" => md.source(Path::new(s(&a[1]))),
            "custom" => md.source(s(&a[1])),
            "code" => md.source(std::panic::Location::caller()),
            k => bug(format!("source {k}")),
        },
    }
}

/// A format of one's own: JSON, behind `%` in strings and behind `@` in files.
struct Cust;

fn marked<T: serde::de::DeserializeOwned>(text: &str, mark: char) -> Result<T, serde::de::value::Error> {
    use serde::de::Error;
    let rest = text.strip_prefix(mark).ok_or_else(|| Error::custom(format!("no {mark}")))?;
    serde_json::from_str(rest).map_err(|e| Error::custom(e))
}

impl Format for Cust {
    type Error = serde::de::value::Error;
    const NAME: &'static str = "Own";
    fn from_str<'de, T: serde::de::DeserializeOwned>(s: &'de str) -> Result<T, Self::Error> { marked(s, '%') }
    fn from_path<T: serde::de::DeserializeOwned>(p: &Path) -> Result<T, Self::Error> {
        marked(&std::fs::read_to_string(p).map_err(serde::de::Error::custom)?, '@')
    }
}

fn data_opts<F: Format + 'static>(mut d: Data<F>, opts: &[J]) -> Box<dyn Provider> {
    for o in opts {
        d = match s(&o[0]) {
            "nested" => d.nested(),
            "profile" => d.profile(s(&o[1])),
            "required" => d.required(s(&o[1]) == "true"),
            "search" => d.search(s(&o[1]) == "true"),
            k => bug(format!("data option {k}")),
        };
    }
    Box::new(d)
}

fn data<F: Format + 'static>(p: &J, root: &Path) -> Box<dyn Provider> {
    // `search(false)` in the first place has another name.
    let exact = p["opts"][0] == serde_json::json!(["search", "false"]);
    let path = || match p["abs"] == "true" {
        true => root.join(s(&p["path"])),
        false => s(&p["path"]).into(),
    };
    #[allow(deprecated)]
    let d: Data<F> = match s(&p["kind"]) {
        "text" if exact => Data::string(s(&p["text"])),
        "text" => F::string(s(&p["text"])),
        "file" if exact && p["opts"][1].is_null() => Data::file_exact(path()),
        "file" if exact => F::file_exact(path()),
        "file" => F::file(path()),
        _ => unreachable!(),
    };
    let opts = p["opts"].as_array().unwrap();
    data_opts(d, &opts[(exact && s(&p["kind"]) == "file") as usize..])
}

fn mapf(f: &str) -> fn(&UncasedStr) -> Uncased<'_> {
    match f {
        "id" => |k| k.into(),
        "dots" => |k| k.as_str().replace('_', ".").into(),
        "upper" => |k| k.as_str().to_ascii_uppercase().into(),
        "lower" => |k| k.as_str().to_ascii_lowercase().into(),
        "pre" => |k| format!("pre.{}", k).into(),
        "suf" => |k| format!("{}x", k).into(),
        "tail" => |k| {
            let mut c = k.as_str().chars();
            c.next();
            c.as_str().into()
        },
        "abtox" => |k| match k == "a_b" { true => "x.y".into(), false => k.into() },
        "pad" => |k| format!(" {} ", k).into(),
        "empty" => |_| "".into(),
        f => bug(format!("map {f}")),
    }
}

fn env(p: &J) -> Env {
    let steps = p["steps"].as_array().unwrap();
    let mut e = Env::raw();
    for (i, st) in steps.iter().enumerate() {
        let strs = |j: &J| j.as_array().unwrap().iter().map(|x| s(x).to_string()).collect::<Vec<_>>();
        e = match s(&st[0]) {
            "prefixed" if i == 0 => Env::prefixed(s(&st[1])),
            "prefixed" => bug("prefixed must be first".into()),
            "split" => e.split(s(&st[1])),
            "only" => e.only(&strs(&st[1]).iter().map(|x| x.as_str()).collect::<Vec<_>>()),
            "ignore" => e.ignore(&strs(&st[1]).iter().map(|x| x.as_str()).collect::<Vec<_>>()),
            "map" => e.map(mapf(s(&st[1]))),
            "filter" => {
                let pat = s(&st[1]).to_string();
                e.filter(move |k| k.starts_with(pat.as_str()))
            }
            "filternot" => {
                let pat = s(&st[1]).to_string();
                e.filter(move |k| !k.starts_with(pat.as_str()))
            }
            "filtermap" => {
                let (pat, f) = (s(&st[1]).to_string(), mapf(s(&st[2])));
                e.filter_map(move |k| match k.starts_with(pat.as_str()) {
                    true => Some(f(k)),
                    false => None,
                })
            }
            "lowercase" => e.lowercase(s(&st[1]) == "true"),
            "profile" => e.profile(s(&st[1])),
            "global" => e.global(),
            k => bug(format!("env step {k}")),
        };
    }
    e
}

pub fn env_of(p: &J) -> Env { env(p) }

/// Constructs a `Serialized` through one of its constructors; also returns
/// the line of the constructing call.
fn serialized<T>(p: &J, v: T) -> (Serialized<T>, u32) {
    let prof = s(&p["prof"]).to_string();
    let key = s(&p["key"]).to_string();
    match s(&p["ctor"]) {
        "from" => (Serialized::from(v, prof), line!()),
        "defaults" => (Serialized::defaults(v), line!()),
        "globals" => (Serialized::globals(v), line!()),
        "default" => (Serialized::default(&key, v), line!()),
        "global" => (Serialized::global(&key, v), line!()),
        "defaultprof" => { let l = line!(); (Serialized::default(&key, v).profile(prof), l + 0) }
        "fromkey" => { let l = line!(); (Serialized::from(v, prof).key(&key), l + 0) }
        k => bug(format!("ctor {k}")),
    }
}

/// A provider of one's own with the given outcome.
pub fn custom(p: &J, root: &Path, data: Result<Map<Profile, Dict>, Error>) -> Box<dyn Provider> {
    Box::new(Custom {
        asked: Default::default(),
        data,
        prof: match s(&p["prof"]) { "" => None, x => Some(Profile::new(x)) },
        md: interp_md(source_md("custom", &p["src"], root), p["interp"].as_str().unwrap_or("")),
    })
}

/// A provider that takes a value out of `g` and adds one of its own.
pub fn graft(p: &J, root: &Path, g: &Figment) -> Box<dyn Provider> {
    let fresh = dec(&p["fresh"]);
    let v = match g.find_value(s(&p["path"])) {
        Ok(Value::Dict(t, mut d)) => { d.insert("fresh".into(), fresh); Value::Dict(t, d) }
        Ok(v) => v,
        Err(_) => fresh,
    };
    let dict = figment::util::nest(s(&p["key"]), v).into_dict().unwrap_or_else(|| bug("graft key".into()));
    let mut map = Map::new();
    map.insert(Profile::new(s(&p["layer"])), dict);
    custom(p, root, Ok(map))
}

/// Builds the provider; figments are handled by the caller.
pub fn build(p: &J, root: &Path) -> (Box<dyn Provider>, u32) {
    let mut line = 0;
    let b: Box<dyn Provider> = match s(&p["kind"]) {
        "map" => custom(p, root, Ok(obj(&p["data"]).map(|(k, v)| (Profile::new(k), dec_dict(v))).collect())),
        "err" => {
            // The error that iterates over `msgs` in order.
            let mut err: Option<Error> = None;
            for m in p["msgs"].as_array().into_iter().flatten().rev() {
                let mut e = Error::from(s(&m[0]).to_string());
                if !s(&m[1]).is_empty() {
                    e = e.with_path(s(&m[1]));
                }
                err = Some(match err { None => e, Some(prev) => prev.chain(e) });
            }
            let err = match p.get("tree") {
                Some(t) => crate::insp::tree(t),
                None => err.unwrap(),
            };
            custom(p, root, Err(err))
        }
        "tuple" => Box::new((s(&p["key"]).to_string(), dec(&p["val"]))),
        "ser" => {
            let (x, l) = serialized::<Value>(p, dec(&p["val"]));
            line = l;
            Box::new(x)
        }
        "sert" => {
            let t = ty::parse(&p["ty"]);
            let j: &'static J = Box::leak(Box::new(p["typed"].clone()));
            let (x, l) = serialized(p, Ser(t, j));
            line = l;
            Box::new(x)
        }
        "env" => Box::new(env(p)),
        "text" | "file" => match s(&p["fmt"]) {
            "toml" => data::<Toml>(p, root),
            "json" => data::<Json>(p, root),
            "yaml" => data::<Yaml>(p, root),
            "yamlx" => data::<YamlExtended>(p, root),
            "cust" => data::<Cust>(p, root),
            k => bug(format!("format {k}")),
        },
        k => bug(format!("provider {k}")),
    };
    (b, line)
}

/// Provides at one of several call sites; returns the line of the call.
pub fn provide<Q: Provider>(f: Figment, ord: &str, site: u64, p: Q) -> (Figment, u32) {
    match (ord, site) {
        ("merge", 0) => (f.merge(p), line!()),
        ("merge", _) => (f.merge(p), line!()),
        ("join", 0) => (f.join(p), line!()),
        ("join", _) => (f.join(p), line!()),
        ("adjoin", 0) => (f.adjoin(p), line!()),
        ("adjoin", _) => (f.adjoin(p), line!()),
        ("admerge", 0) => (f.admerge(p), line!()),
        ("admerge", _) => (f.admerge(p), line!()),
        (o, _) => bug(format!("order {o}")),
    }
}

pub fn from<Q: Provider>(p: Q) -> (Figment, u32) {
    (Figment::from(p), line!())
}
