//! Run-time described types: they drive the deserializer exactly as the code
//! that `#[derive(Deserialize)]` / `#[derive(Serialize)]` generates does, so
//! that any type of the serde data model can be extracted or provided.
use std::cell::Cell;
use std::fmt;

use figment::value::{magic::*, Value};
use figment::Figment;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess};
use serde::de::{IgnoredAny, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde::Deserialize;
use serde_json::{json, Map as JMap, Value as J};

use crate::val::{bug, enc, ftext, s};

pub type T = &'static Ty;

pub enum Ty {
    Prim(&'static str),
    Opt(T),
    Seq(T),
    Tup(Vec<T>),
    Map(T),
    Struct { name: &'static str, fields: &'static [&'static str], tys: Vec<T>, dflt: Vec<bool>, deny: bool },
    Enum { name: &'static str, names: &'static [&'static str], vars: Vec<Var> },
    Newtype(T),
    UnitStruct,
    TupStruct(Vec<T>),
    Tagged(T),
    RelPath,
    Value,
    BoolHelper,
    Pairs(T),
    /// `Either<Tagged<A>, B>`
    Either(T, T),
    /// `Either<RelativePathBuf, B>`
    EitherPath(T),
    Ip4,
    Path,
    /// A map with keys of the first type.
    KeyMap(T, T),
    Untagged,
    /// Known fields, and the others as a map of such values
    Flat(T),
    Internal,
}

/// What `#[derive(Deserialize)]` makes of the representations that buffer.
#[derive(Deserialize)]
#[serde(untagged)]
enum UMix {
    Flag(bool),
    Int(i64),
    Real(f64),
    Text(String),
    List(Vec<u8>),
    Pair { a: u8, b: Option<String> },
}

#[derive(Deserialize)]
struct FlatS {
    a: u8,
    b: Option<String>,
    #[serde(flatten)]
    rest: std::collections::BTreeMap<String, Dyn>,
}

#[derive(Deserialize)]
#[serde(tag = "kind")]
enum ITag {
    A,
    B { x: u8 },
    C(std::collections::BTreeMap<String, i64>),
}

pub enum Var {
    Unit,
    New(T),
    Tup(Vec<T>),
    Struct(&'static [&'static str], Vec<T>),
}

pub fn leak(st: &str) -> &'static str {
    Box::leak(st.to_string().into_boxed_str())
}

fn leaks(v: Vec<&'static str>) -> &'static [&'static str] {
    Box::leak(v.into_boxed_slice())
}

fn arr(j: &J) -> &Vec<J> {
    j.as_array().unwrap_or_else(|| bug(format!("not an array: {j}")))
}

pub fn parse(j: &J) -> T {
    let tys = |j: &J| arr(j).iter().map(parse).collect::<Vec<_>>();
    let names = |j: &J| leaks(arr(j).iter().map(|n| leak(s(n))).collect());
    Box::leak(Box::new(match s(&j["t"]) {
        "opt" => Ty::Opt(parse(&j["e"])),
        "seq" => Ty::Seq(parse(&j["e"])),
        "tup" => Ty::Tup(tys(&j["es"])),
        "map" => Ty::Map(parse(&j["e"])),
        "struct" => Ty::Struct {
            name: leak(s(&j["n"])),
            fields: names(&j["fn"]),
            tys: tys(&j["es"]),
            dflt: arr(&j["df"]).iter().map(|b| b.as_bool().unwrap()).collect(),
            deny: j["deny"].as_bool().unwrap(),
        },
        "enum" => Ty::Enum {
            name: leak(s(&j["n"])),
            names: names(&j["vn"]),
            vars: arr(&j["vs"]).iter().map(|v| match s(&v["k"]) {
                "unit" => Var::Unit,
                "new" => Var::New(parse(&v["es"][0])),
                "tup" => Var::Tup(tys(&v["es"])),
                "struct" => Var::Struct(names(&v["fn"]), tys(&v["es"])),
                k => bug(format!("variant kind {k}")),
            }).collect(),
        },
        "newtype" => Ty::Newtype(parse(&j["e"])),
        "unitstruct" => Ty::UnitStruct,
        "tupstruct" => Ty::TupStruct(tys(&j["es"])),
        "tagged" => Ty::Tagged(parse(&j["e"])),
        "relpath" => Ty::RelPath,
        "value" => Ty::Value,
        "boolh" => Ty::BoolHelper,
        "pairs" => Ty::Pairs(parse(&j["e"])),
        "either" => Ty::Either(parse(&j["e"]), parse(&j["e2"])),
        "eitherpath" => Ty::EitherPath(parse(&j["e"])),
        "ip4" => Ty::Ip4,
        "path" => Ty::Path,
        "kmap" => Ty::KeyMap(parse(&j["kt"]), parse(&j["e"])),
        "untag" => Ty::Untagged,
        "flat" => Ty::Flat(parse(&j["e"])),
        "itag" => Ty::Internal,
        p => Ty::Prim(leak(p)),
    }))
}

thread_local! {
    static CUR: Cell<Option<T>> = const { Cell::new(None) };
    static FIG: Cell<*const Figment> = const { Cell::new(std::ptr::null()) };
}

fn with<R>(t: T, f: impl FnOnce() -> R) -> R {
    let old = CUR.with(|c| c.replace(Some(t)));
    let r = f();
    CUR.with(|c| c.set(old));
    r
}

/// Runs `f` with `fig` resolving the tags of encoded values.
pub fn with_fig<R>(fig: &Figment, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) { FIG.with(|c| c.set(std::ptr::null())); }
    }
    FIG.with(|c| c.set(fig as *const _));
    let _reset = Reset;
    f()
}

fn fig() -> Option<&'static Figment> {
    FIG.with(|c| unsafe { c.get().as_ref() })
}

/// The type `CUR` describes.
pub struct Dyn(pub J);

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = CUR.with(|c| c.get()).expect("no current type");
        t.deserialize(d).map(Dyn)
    }
}

/// The type `CUR2` describes; second alternative of `Either`.
pub struct Dyn2(pub J);
thread_local! { static CUR2: Cell<Option<T>> = const { Cell::new(None) }; }
impl<'de> Deserialize<'de> for Dyn2 {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = CUR2.with(|c| c.get()).expect("no current type");
        t.deserialize(d).map(Dyn2)
    }
}

fn with2<R>(t: T, f: impl FnOnce() -> R) -> R {
    let old = CUR2.with(|c| c.replace(Some(t)));
    let r = f();
    CUR2.with(|c| c.set(old));
    r
}

fn prim(r: &str, v: impl ToString) -> J {
    json!({"r": r, "v": v.to_string()})
}

pub fn relpath(p: &RelativePathBuf) -> J {
    json!({"r": "relpath", "v": p.original().display().to_string(),
        "md": p.metadata_path().map(|p| p.display().to_string()).unwrap_or_default(),
        "rel": p.relative().display().to_string()})
}

impl<'de> DeserializeSeed<'de> for T {
    type Value = J;

    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        match self {
            Ty::Prim(p) => Ok(match *p {
                "bool" => prim(p, bool::deserialize(d)?),
                "u8" => prim(p, u8::deserialize(d)?),
                "u16" => prim(p, u16::deserialize(d)?),
                "u32" => prim(p, u32::deserialize(d)?),
                "u64" => prim(p, u64::deserialize(d)?),
                "u128" => prim(p, u128::deserialize(d)?),
                "usize" => prim(p, usize::deserialize(d)?),
                "i8" => prim(p, i8::deserialize(d)?),
                "i16" => prim(p, i16::deserialize(d)?),
                "i32" => prim(p, i32::deserialize(d)?),
                "i64" => prim(p, i64::deserialize(d)?),
                "i128" => prim(p, i128::deserialize(d)?),
                "isize" => prim(p, isize::deserialize(d)?),
                "f32" => prim(p, ftext(f32::deserialize(d)? as f64)),
                "f64" => prim(p, ftext(f64::deserialize(d)?)),
                "char" => prim(p, char::deserialize(d)?),
                "string" => prim(p, String::deserialize(d)?),
                "unit" => { <()>::deserialize(d)?; prim(p, "") }
                "ignored" => { IgnoredAny::deserialize(d)?; prim(p, "") }
                _ => bug(format!("type {p}")),
            }),
            Ty::Opt(e) => d.deserialize_option(OptV(e)),
            Ty::Seq(e) => d.deserialize_seq(SeqV(e)),
            Ty::Tup(es) => d.deserialize_tuple(es.len(), TupV(es, "a tuple of size")),
            Ty::TupStruct(es) => d.deserialize_tuple_struct("TS", es.len(), TupV(es, "tuple struct of size")),
            Ty::Map(e) => d.deserialize_map(MapV(e)),
            Ty::Struct { name, fields, .. } => d.deserialize_struct(name, fields, StructV(self)),
            Ty::Enum { name, names, .. } => d.deserialize_enum(name, names, EnumV(self)),
            Ty::Newtype(e) => d.deserialize_newtype_struct("N", NewV(e)),
            Ty::UnitStruct => d.deserialize_unit_struct("U", UnitV),
            Ty::Tagged(e) => {
                let t = with(e, || Tagged::<Dyn>::deserialize(d))?;
                let tag = crate::val::tag(t.tag(), fig());
                Ok(json!({"r": "tagged", "t": tag, "x": t.into_inner().0}))
            }
            Ty::RelPath => RelativePathBuf::deserialize(d).map(|p| relpath(&p)),
            Ty::Value => Ok(json!({"r": "value", "y": enc(&<Value as Deserialize>::deserialize(d)?, fig())})),
            Ty::BoolHelper => Ok(prim("bool", figment::util::bool_from_str_or_int(d)?)),
            Ty::Pairs(e) => {
                let v: Vec<(String, Dyn)> = with(e, || figment::util::vec_tuple_map::deserialize(d))?;
                let (ks, vs): (Vec<J>, Vec<J>) = v.into_iter().map(|(k, v)| (J::from(k), v.0)).unzip();
                Ok(json!({"r": "pairs", "ks": ks, "xs": vs}))
            }
            Ty::Either(a, b) => {
                let v = with(a, || with2(b, || Either::<Tagged<Dyn>, Dyn2>::deserialize(d)))?;
                Ok(match v {
                    Either::Left(t) => json!({"r": "left", "x":
                        {"r": "tagged", "t": crate::val::tag(t.tag(), fig()), "x": t.into_inner().0}}),
                    Either::Right(b) => json!({"r": "right", "x": b.0}),
                })
            }
            Ty::EitherPath(b) => {
                let v = with2(b, || Either::<RelativePathBuf, Dyn2>::deserialize(d))?;
                Ok(match v {
                    Either::Left(p) => json!({"r": "left", "x": relpath(&p)}),
                    Either::Right(b) => json!({"r": "right", "x": b.0}),
                })
            }
            Ty::Ip4 => Ok(prim("ip4", std::net::Ipv4Addr::deserialize(d)?)),
            Ty::Path => Ok(prim("path", std::path::PathBuf::deserialize(d)?.display())),
            Ty::KeyMap(k, e) => d.deserialize_map(KeyMapV(k, e)),
            Ty::Untagged => {
                let (v, x) = match UMix::deserialize(d)? {
                    UMix::Flag(b) => ("Flag", prim("bool", b)),
                    UMix::Int(n) => ("Int", prim("i64", n)),
                    UMix::Real(n) => ("Real", prim("f64", ftext(n))),
                    UMix::Text(s) => ("Text", prim("string", s)),
                    UMix::List(xs) => ("List", json!({"r": "seq",
                        "xs": xs.iter().map(|x| prim("u8", x)).collect::<Vec<_>>()})),
                    UMix::Pair { a, b } => ("Pair", json!({"r": "struct",
                        "m": {"a": prim("u8", a), "b": opt(b)}})),
                };
                Ok(json!({"r": "untag", "v": v, "x": x}))
            }
            Ty::Flat(e) => {
                let f = with(e, || FlatS::deserialize(d))?;
                let m: JMap<_, _> = f.rest.into_iter().map(|(k, v)| (k, v.0)).collect();
                Ok(json!({"r": "flat", "a": prim("u8", f.a), "b": opt(f.b), "m": m}))
            }
            Ty::Internal => Ok(match ITag::deserialize(d)? {
                ITag::A => json!({"r": "itag", "v": "A", "x": {"r": "none"}}),
                ITag::B { x } => json!({"r": "itag", "v": "B", "x": prim("u8", x)}),
                ITag::C(m) => json!({"r": "itag", "v": "C", "x": {"r": "map",
                    "m": m.into_iter().map(|(k, n)| (k, prim("i64", n))).collect::<JMap<_, _>>()}}),
            }),
        }
    }
}

fn opt(s: Option<String>) -> J {
    s.map_or(json!({"r": "none"}), |s| json!({"r": "some", "x": prim("string", s)}))
}

struct KeyMapV(T, T);
impl<'de> Visitor<'de> for KeyMapV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "a map") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let (mut ks, mut xs) = (vec![], vec![]);
        while let Some(k) = a.next_key_seed(self.0)? {
            ks.push(k);
            xs.push(a.next_value_seed(self.1)?);
        }
        Ok(json!({"r": "kmap", "ks": ks, "xs": xs}))
    }
}

struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "unit struct U") }
    fn visit_unit<E: de::Error>(self) -> Result<J, E> { Ok(prim("unitstruct", "")) }
}

struct OptV(T);
impl<'de> Visitor<'de> for OptV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "option") }
    fn visit_unit<E: de::Error>(self) -> Result<J, E> { Ok(json!({"r": "none"})) }
    fn visit_none<E: de::Error>(self) -> Result<J, E> { Ok(json!({"r": "none"})) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        Ok(json!({"r": "some", "x": self.0.deserialize(d)?}))
    }
}

struct SeqV(T);
impl<'de> Visitor<'de> for SeqV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "a sequence") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut xs = vec![];
        while let Some(x) = a.next_element_seed(self.0)? {
            xs.push(x);
        }
        Ok(json!({"r": "seq", "xs": xs}))
    }
}

struct TupV(&'static [T], &'static str);
impl<'de> Visitor<'de> for TupV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{} {}", self.1, self.0.len()) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut xs = vec![];
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(*t)? {
                Some(x) => xs.push(x),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(json!({"r": "seq", "xs": xs}))
    }
}

struct MapV(T);
impl<'de> Visitor<'de> for MapV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "a map") }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut m = JMap::new();
        while let Some(k) = a.next_key::<String>()? {
            m.insert(k, a.next_value_seed(self.0)?);
        }
        Ok(json!({"r": "map", "m": m}))
    }
}

struct NewV(T);
impl<'de> Visitor<'de> for NewV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "tuple struct N") }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        Ok(json!({"r": "newtype", "x": self.0.deserialize(d)?}))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        match a.next_element_seed(self.0)? {
            Some(x) => Ok(json!({"r": "newtype", "x": x})),
            None => Err(de::Error::invalid_length(0, &"tuple struct N with 1 element")),
        }
    }
}

/// Identifies a field: `None` for an unknown, ignored one.
struct Ident(&'static [&'static str], bool);
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "field identifier") }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        match self.0.iter().position(|n| *n == v) {
            None if self.1 => Err(de::Error::unknown_field(v, self.0)),
            p => Ok(p),
        }
    }
}

fn missing<E: de::Error>(t: T, name: &'static str, dflt: bool) -> Result<J, E> {
    match t {
        _ if dflt => Ok(json!({"r": "default"})),
        Ty::Opt(_) => Ok(json!({"r": "none"})),
        _ => Err(de::Error::missing_field(name)),
    }
}

struct Fields { what: String, fields: &'static [&'static str], tys: &'static [T], dflt: Vec<bool>, deny: bool }
impl<'de> Visitor<'de> for Fields {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.what) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut vals: Vec<Option<J>> = self.fields.iter().map(|_| None).collect();
        while let Some(i) = a.next_key_seed(Ident(self.fields, self.deny))? {
            match i {
                Some(i) if vals[i].is_some() => return Err(de::Error::duplicate_field(self.fields[i])),
                Some(i) => vals[i] = Some(a.next_value_seed(self.tys[i])?),
                None => { a.next_value::<IgnoredAny>()?; }
            }
        }
        let mut m = JMap::new();
        for (i, v) in vals.into_iter().enumerate() {
            let v = match v {
                Some(v) => v,
                None => missing(self.tys[i], self.fields[i], self.dflt[i])?,
            };
            m.insert(self.fields[i].into(), v);
        }
        Ok(json!({"r": "struct", "m": m}))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut m = JMap::new();
        for (i, t) in self.tys.iter().enumerate() {
            let v = match a.next_element_seed(*t)? {
                Some(v) => v,
                None if self.dflt[i] => json!({"r": "default"}),
                None => return Err(de::Error::invalid_length(i,
                    &format!("{} with {} elements", self.what, self.tys.len()).as_str())),
            };
            m.insert(self.fields[i].into(), v);
        }
        Ok(json!({"r": "struct", "m": m}))
    }
}

struct StructV(T);
impl<'de> Visitor<'de> for StructV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.fields().what) }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<J, A::Error> { self.fields().visit_map(a) }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<J, A::Error> { self.fields().visit_seq(a) }
}
impl StructV {
    fn fields(&self) -> Fields {
        match self.0 {
            Ty::Struct { name, fields, tys, dflt, deny } => Fields {
                what: format!("struct {name}"), fields, tys, dflt: dflt.clone(), deny: *deny,
            },
            _ => unreachable!(),
        }
    }
}

struct VarIdent(&'static [&'static str]);
impl<'de> DeserializeSeed<'de> for VarIdent {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for VarIdent {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "variant identifier") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
        if (v as usize) < self.0.len() { return Ok(v as usize) }
        Err(de::Error::invalid_value(de::Unexpected::Unsigned(v),
            &format!("variant index 0 <= i < {}", self.0.len()).as_str()))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> {
        self.0.iter().position(|n| *n == v).ok_or_else(|| de::Error::unknown_variant(v, self.0))
    }
}

struct EnumV(T);
impl<'de> Visitor<'de> for EnumV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.0 { Ty::Enum { name, .. } => write!(f, "enum {name}"), _ => unreachable!() }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<J, A::Error> {
        let Ty::Enum { name, names, vars } = self.0 else { unreachable!() };
        let (i, va) = a.variant_seed(VarIdent(names))?;
        let (kind, x) = match &vars[i] {
            Var::Unit => { va.unit_variant()?; ("unit", json!({"r": "none"})) }
            Var::New(t) => ("new", va.newtype_variant_seed(*t)?),
            Var::Tup(ts) => ("tup", va.tuple_variant(ts.len(), TupV(ts, "a tuple variant of size"))?),
            Var::Struct(fs, ts) => ("struct", va.struct_variant(fs, Fields {
                what: format!("struct variant {name}::{}", names[i]), fields: fs, tys: ts,
                dflt: vec![false; ts.len()], deny: false,
            })?),
        };
        Ok(json!({"r": "enum", "v": names[i], "kind": kind, "x": x}))
    }
}

/// A typed value: `(type, result-form JSON)`, serialized as a derive would.
pub struct Ser<'a>(pub T, pub &'a J);

impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, se: S) -> Result<S::Ok, S::Error> {
        use ser::*;
        let j = self.1;
        fn p<X: std::str::FromStr>(j: &J) -> X {
            s(&j["v"]).parse().unwrap_or_else(|_| bug(format!("bad primitive {j}")))
        }
        let elems = |ts: &'static [T]| ts.iter().zip(arr(&j["xs"])).map(|(t, x)| Ser(t, x));
        match self.0 {
            Ty::Prim(n) => match *n {
                "bool" => se.serialize_bool(s(&j["v"]) == "true"),
                "u8" => p::<u8>(j).serialize(se),
                "u16" => p::<u16>(j).serialize(se),
                "u32" => p::<u32>(j).serialize(se),
                "u64" => p::<u64>(j).serialize(se),
                "u128" => p::<u128>(j).serialize(se),
                "usize" => p::<usize>(j).serialize(se),
                "i8" => p::<i8>(j).serialize(se),
                "i16" => p::<i16>(j).serialize(se),
                "i32" => p::<i32>(j).serialize(se),
                "i64" => p::<i64>(j).serialize(se),
                "i128" => p::<i128>(j).serialize(se),
                "isize" => p::<isize>(j).serialize(se),
                "f32" => (p::<f64>(j) as f32).serialize(se),
                "f64" => p::<f64>(j).serialize(se),
                "char" => s(&j["v"]).chars().next().unwrap().serialize(se),
                "string" => s(&j["v"]).serialize(se),
                "unit" => ().serialize(se),
                "bytes" => se.serialize_bytes(s(&j["v"]).as_bytes()),
                n => bug(format!("cannot serialize {n}")),
            },
            Ty::Opt(t) => match s(&j["r"]) {
                "none" => se.serialize_none(),
                _ => se.serialize_some(&Ser(t, &j["x"])),
            },
            Ty::Seq(t) => {
                let xs = arr(&j["xs"]);
                let mut q = se.serialize_seq(Some(xs.len()))?;
                for x in xs { q.serialize_element(&Ser(t, x))?; }
                q.end()
            }
            Ty::Tup(ts) => {
                let mut q = se.serialize_tuple(ts.len())?;
                for e in elems(ts) { q.serialize_element(&e)?; }
                q.end()
            }
            Ty::TupStruct(ts) => {
                let mut q = se.serialize_tuple_struct("TS", ts.len())?;
                for e in elems(ts) { q.serialize_field(&e)?; }
                q.end()
            }
            Ty::Map(t) => {
                let m = j["m"].as_object().unwrap();
                let mut q = se.serialize_map(Some(m.len()))?;
                for (k, x) in m { q.serialize_entry(k, &Ser(t, x))?; }
                q.end()
            }
            Ty::Struct { name, fields, tys, .. } => {
                let mut q = se.serialize_struct(name, fields.len())?;
                for (f, t) in fields.iter().zip(tys) { q.serialize_field(f, &Ser(t, &j["m"][*f]))?; }
                q.end()
            }
            Ty::Enum { name, names, vars } => {
                let i = names.iter().position(|n| *n == s(&j["v"])).unwrap();
                let (x, ix) = (&j["x"], i as u32);
                match &vars[i] {
                    Var::Unit => se.serialize_unit_variant(name, ix, names[i]),
                    Var::New(t) => se.serialize_newtype_variant(name, ix, names[i], &Ser(t, x)),
                    Var::Tup(ts) => {
                        let mut q = se.serialize_tuple_variant(name, ix, names[i], ts.len())?;
                        for (t, x) in ts.iter().zip(arr(&x["xs"])) { q.serialize_field(&Ser(t, x))?; }
                        q.end()
                    }
                    Var::Struct(fs, ts) => {
                        let mut q = se.serialize_struct_variant(name, ix, names[i], ts.len())?;
                        for (f, t) in fs.iter().zip(ts) { q.serialize_field(f, &Ser(t, &x["m"][*f]))?; }
                        q.end()
                    }
                }
            }
            Ty::Newtype(t) => se.serialize_newtype_struct("N", &Ser(t, &j["x"])),
            Ty::UnitStruct => se.serialize_unit_struct("U"),
            Ty::Pairs(t) => {
                let v: Vec<(String, Ser)> = arr(&j["ks"]).iter().zip(arr(&j["xs"]))
                    .map(|(k, x)| (s(k).to_string(), Ser(t, x))).collect();
                figment::util::vec_tuple_map::serialize(&v, se)
            }
            Ty::Value => crate::val::dec(&j["y"]).serialize(se),
            Ty::Ip4 => p::<std::net::Ipv4Addr>(j).serialize(se),
            Ty::Path => std::path::PathBuf::from(s(&j["v"])).serialize(se),
            _ => bug("cannot serialize this type".into()),
        }
    }
}

/// A map with non-string keys, for the rejection rule.
pub struct BadMap(pub &'static str);
impl Serialize for BadMap {
    fn serialize<S: Serializer>(&self, se: S) -> Result<S::Ok, S::Error> {
        use ser::SerializeMap;
        let mut q = se.serialize_map(Some(1))?;
        match self.0 {
            "u8" => q.serialize_entry(&1u8, "x")?,
            "bool" => q.serialize_entry(&true, "x")?,
            "char" => q.serialize_entry(&'c', "x")?,
            "unit" => q.serialize_entry(&(), "x")?,
            "none" => q.serialize_entry(&None::<u8>, "x")?,
            "f64" => q.serialize_entry(&1.5f64, "x")?,
            "seq" => q.serialize_entry(&vec![1u8], "x")?,
            "map" => q.serialize_entry(&std::collections::BTreeMap::from([("k", 1u8)]), "x")?,
            _ => q.serialize_entry("k", "x")?,
        }
        q.end()
    }
}

pub fn with_ty<R>(t: T, f: impl FnOnce() -> R) -> R { with(t, f) }
