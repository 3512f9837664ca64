//! Looking at values and at errors without any figment.
use figment::error::{Actual, Error, Kind, OneOf};
use figment::value::{Empty, Map, Value};
use serde::de::{Error as _, Unexpected};
use serde_json::{json, Value as J};

use crate::val::*;

/// An option, as an array.
fn opt<T: Into<J>>(o: Option<T>) -> J {
    match o { Some(v) => json!([v.into()]), None => json!([]) }
}

fn num(n: figment::value::Num) -> J {
    let (y, v) = num_parts(&n);
    json!([y, v])
}

pub fn val(op: &J) -> J {
    let (a, b) = (dec(&op["a"]), dec(&op["b"]));
    let path = s(&op["path"]);
    let e = |v: &Value| enc(v, None);
    let n = a.to_num();
    let map: Map<&str, Value> = [("k", a.clone()), ("", b.clone())].into_iter().collect();
    let none: Option<Value> = None;
    json!({
        "str": opt(a.as_str()),
        "istr": opt(a.clone().into_string()),
        "char": opt(a.to_char().map(|c| c.to_string())),
        "bool": opt(a.to_bool().map(|c| c.to_string())),
        "num": opt(n.map(num)),
        "empty": opt(a.to_empty().map(|x| match x { Empty::None => "none", Empty::Unit => "unit" })),
        "dict": opt(a.as_dict().map(|d| e(&Value::from(d.clone())))),
        "idict": opt(a.clone().into_dict().map(|d| e(&Value::from(d)))),
        "arr": opt(a.as_array().map(|d| e(&Value::from(d)))),
        "iarr": opt(a.clone().into_array().map(|d| e(&Value::from(d)))),
        "u32": opt(n.and_then(|n| n.to_u32()).map(|v| v.to_string())),
        "u128": opt(a.to_u128().map(|v| v.to_string())),
        "i128": opt(a.to_i128().map(|v| v.to_string())),
        "ul": opt(n.and_then(|n| n.to_u128_lossy()).map(|v| v.to_string())),
        "f64": opt(a.to_f64().map(ftext)),
        "act": crate::actual(&a.to_actual()),
        "find": opt(a.clone().find(path).map(|v| e(&v))),
        "findref": opt(a.find_ref(path).map(e)),
        "eq": (a == b).to_string(),
        "eqr": (b == a).to_string(),
        "ne": (a != b).to_string(),
        "self": (a == a.clone()).to_string(),
        "vec": e(&Value::from(vec![a.clone(), b.clone()])),
        "slice": e(&Value::from(&[a.clone(), b.clone(), a.clone()][..])),
        "fixed": e(&Value::from(&[b.clone(), a.clone()])),
        "map": e(&Value::from(map)),
        "ser": match Value::serialize(&a) { Ok(v) => e(&v), Err(_) => e(&Value::from("!")) },
        "none": match Value::serialize(none) { Ok(v) => e(&v), Err(_) => e(&Value::from("!")) },
    })
}

const LISTS: [&[&str]; 4] = [&[], &["a"], &["a", "b"], &["x", "y", "z"]];

fn unexpected<'a>(n: &str, v: &'a str) -> Unexpected<'a> {
    let p = |v: &str| v.parse::<i64>().unwrap_or_else(|_| bug(format!("number {v}")));
    match n {
        "bool" => Unexpected::Bool(v == "true"),
        "unsigned" => Unexpected::Unsigned(v.parse().unwrap()),
        "signed" => Unexpected::Signed(p(v)),
        "float" => Unexpected::Float(v.parse().unwrap()),
        "char" => Unexpected::Char(v.chars().next().unwrap()),
        "str" => Unexpected::Str(v),
        "bytes" => Unexpected::Bytes(v.as_bytes()),
        "unit" => Unexpected::Unit,
        "option" => Unexpected::Option,
        "newtype" => Unexpected::NewtypeStruct,
        "seq" => Unexpected::Seq,
        "map" => Unexpected::Map,
        "enum" => Unexpected::Enum,
        "unitvariant" => Unexpected::UnitVariant,
        "newtypevariant" => Unexpected::NewtypeVariant,
        "tuplevariant" => Unexpected::TupleVariant,
        "structvariant" => Unexpected::StructVariant,
        "other" => Unexpected::Other(v),
        n => bug(format!("actual {n}")),
    }
}

fn leaf(j: &J) -> Error {
    let x = s(&j["x"]);
    let act = || Actual::from(unexpected(s(&j["a"][0]), s(&j["a"][1])));
    let list = LISTS[j["list"].as_u64().unwrap_or(0) as usize];
    let mut e: Error = match s(&j["how"]) {
        "msg" => x.into(),
        "string" => x.to_string().into(),
        "custom" => Error::custom(x),
        "sercustom" => <Error as serde::ser::Error>::custom(x),
        "kind" => Kind::Message(x.into()).into(),
        "missing" => Error::missing_field("gone"),
        "kindmissing" => Kind::MissingField(x.to_string().into()).into(),
        "dup" => Error::duplicate_field("twice"),
        "type" => Error::invalid_type(unexpected(s(&j["a"][0]), s(&j["a"][1])), &x),
        "kindtype" => Kind::InvalidType(act(), x.into()).into(),
        "typeone" => Error::invalid_type(unexpected(s(&j["a"][0]), s(&j["a"][1])), &OneOf(list)),
        "value" => Error::invalid_value(unexpected(s(&j["a"][0]), s(&j["a"][1])), &x),
        "len" => Error::invalid_length(x.len(), &x),
        "variant" => Error::unknown_variant(x, list),
        "field" => Error::unknown_field(x, list),
        "isize" => Kind::ISizeOutOfRange(-7).into(),
        "usize" => Kind::USizeOutOfRange(7).into(),
        "unsup" => Kind::Unsupported(act()).into(),
        "unsupkey" => Kind::UnsupportedKey(act(), x.to_string().into()).into(),
        h => bug(format!("leaf {h}")),
    };
    for p in j["paths"].as_array().unwrap() {
        e = e.with_path(s(p));
    }
    e
}

/// The error a tree of chained errors stands for.
pub fn tree(j: &J) -> Error {
    match s(&j["n"]) {
        "leaf" => leaf(j),
        _ => {
            let e = tree(&j["l"]).chain(tree(&j["r"]));
            match j["path"].as_str() { Some(p) if !p.is_empty() => e.with_path(p), _ => e }
        }
    }
}

pub fn err(op: &J) -> J {
    let e = tree(&op["tree"]);
    let (count, disp) = (e.count(), e.to_string());
    let same = e.clone() == e;
    let items: Vec<_> = e.into_iter().map(|e| json!({
        "kind": crate::kind(&e.kind), "path": e.path, "missing": e.missing().to_string(),
        "count": e.count(), "text": e.to_string(), "ktext": e.kind.to_string(),
        "bare": (e.metadata.is_none() && e.profile.is_none()).to_string(),
    })).collect();
    json!({"count": count, "disp": disp, "same": same.to_string(), "items": items})
}
