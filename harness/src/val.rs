//! JSON <-> figment values, in the uniform representation the TLA+ modules use.
use figment::value::{Dict, Empty, Num, Tag, Value};
use figment::Figment;
use serde_json::{json, Map as JMap, Value as J};

pub fn ftext(v: f64) -> String {
    format!("{:?}", v)
}

pub fn s(j: &J) -> &str {
    j.as_str().unwrap_or_else(|| panic!("harness: not a string: {j}"))
}

/// Harness bug (bad session), as opposed to a panic of the code under test.
pub fn bug(msg: String) -> ! {
    eprintln!("harness bug: {msg}");
    std::process::exit(3)
}

pub fn num_of(y: &str, v: &str) -> Num {
    fn p<T: std::str::FromStr>(v: &str) -> T {
        v.parse().unwrap_or_else(|_| bug(format!("bad number {v}")))
    }
    match y {
        "u8" => Num::U8(p(v)),
        "u16" => Num::U16(p(v)),
        "u32" => Num::U32(p(v)),
        "u64" => Num::U64(p(v)),
        "u128" => Num::U128(p(v)),
        "usize" => Num::USize(p(v)),
        "i8" => Num::I8(p(v)),
        "i16" => Num::I16(p(v)),
        "i32" => Num::I32(p(v)),
        "i64" => Num::I64(p(v)),
        "i128" => Num::I128(p(v)),
        "isize" => Num::ISize(p(v)),
        "f32" => Num::F32(p::<f64>(v) as f32),
        "f64" => Num::F64(p(v)),
        _ => bug(format!("bad number type {y}")),
    }
}

pub fn num_parts(n: &Num) -> (&'static str, String) {
    match *n {
        Num::U8(v) => ("u8", v.to_string()),
        Num::U16(v) => ("u16", v.to_string()),
        Num::U32(v) => ("u32", v.to_string()),
        Num::U64(v) => ("u64", v.to_string()),
        Num::U128(v) => ("u128", v.to_string()),
        Num::USize(v) => ("usize", v.to_string()),
        Num::I8(v) => ("i8", v.to_string()),
        Num::I16(v) => ("i16", v.to_string()),
        Num::I32(v) => ("i32", v.to_string()),
        Num::I64(v) => ("i64", v.to_string()),
        Num::I128(v) => ("i128", v.to_string()),
        Num::ISize(v) => ("isize", v.to_string()),
        Num::F32(v) => ("f32", ftext(v as f64)),
        Num::F64(v) => ("f64", ftext(v)),
    }
}

/// Decodes an (untagged) value.
pub fn dec(j: &J) -> Value {
    match s(&j["k"]) {
        "s" => Value::from(s(&j["v"])),
        "c" => Value::from(s(&j["v"]).chars().next().unwrap()),
        "b" => Value::from(s(&j["v"]) == "true"),
        "n" => Value::from(num_of(s(&j["y"]), s(&j["v"]))),
        "e" => Value::from(if s(&j["v"]) == "none" { Empty::None } else { Empty::Unit }),
        "d" => Value::from(dec_dict(&j["m"])),
        "a" => Value::from(j["x"].as_array().unwrap().iter().map(dec).collect::<Vec<_>>()),
        k => bug(format!("bad kind {k}")),
    }
}

/// An object; sessions the model generates write empty ones as `[]`.
pub fn obj(j: &J) -> impl Iterator<Item = (&String, &J)> {
    if j.as_array().map_or(true, |a| !a.is_empty()) && !j.is_object() {
        bug(format!("not an object: {j}"));
    }
    j.as_object().into_iter().flatten()
}

pub fn dec_dict(j: &J) -> Dict {
    obj(j).map(|(k, v)| (k.clone(), dec(v))).collect()
}

pub fn ptag(tag: Tag) -> &'static str {
    match tag.profile() {
        Some(p) if p == "default" => "default",
        Some(p) if p == "global" => "global",
        Some(_) => "other",
        None => "custom",
    }
}

/// `""` for the default tag, otherwise `source-name:profile-kind`.
pub fn tag(t: Tag, f: Option<&Figment>) -> String {
    if t.is_default() {
        return String::new();
    }
    let name = match f.and_then(|f| f.get_metadata(t)) {
        Some(md) => md.name.to_string(),
        None => "?".into(),
    };
    format!("{}:{}", name, ptag(t))
}

pub fn enc(v: &Value, f: Option<&Figment>) -> J {
    let t = tag(v.tag(), f);
    match v {
        Value::String(_, v) => json!({"k": "s", "t": t, "v": v}),
        Value::Char(_, v) => json!({"k": "c", "t": t, "v": v.to_string()}),
        Value::Bool(_, v) => json!({"k": "b", "t": t, "v": v.to_string()}),
        Value::Num(_, n) => {
            let (y, v) = num_parts(n);
            json!({"k": "n", "t": t, "y": y, "v": v})
        }
        Value::Empty(_, Empty::None) => json!({"k": "e", "t": t, "v": "none"}),
        Value::Empty(_, Empty::Unit) => json!({"k": "e", "t": t, "v": "unit"}),
        Value::Dict(_, d) => json!({"k": "d", "t": t, "m": enc_dict(d, f)}),
        Value::Array(_, a) => {
            json!({"k": "a", "t": t, "x": a.iter().map(|v| enc(v, f)).collect::<Vec<_>>()})
        }
    }
}

pub fn enc_dict(d: &Dict, f: Option<&Figment>) -> J {
    let mut m = JMap::new();
    for (k, v) in d {
        m.insert(k.clone(), enc(v, f));
    }
    J::Object(m)
}

fn depth(v: &Value) -> usize {
    match v {
        Value::Dict(_, d) => 1 + d.values().map(depth).max().unwrap_or(0),
        Value::Array(_, a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

fn written(v: &Value, out: &mut String) {
    match v {
        Value::Dict(_, d) => {
            out.push('{');
            for (i, (k, v)) in d.iter().enumerate() {
                if i > 0 { out.push(';'); }
                out.push_str(k);
                out.push('=');
                written(v, out);
            }
            out.push('}');
        }
        Value::Array(_, a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 { out.push(';'); }
                written(v, out);
            }
            out.push(']');
        }
        v => {
            let e = enc(v, None);
            out.push_str(&format!("{}:{}", s(&e["k"]), s(&e["v"])));
        }
    }
}

/// As text, if it is too deep to be read back as JSON.
pub fn enc_deep(v: &Value) -> J {
    if depth(v) < 60 { return enc(v, None); }
    let mut out = String::new();
    written(v, &mut out);
    json!({"k": "deep", "v": out})
}

/// Conversions between float representations, by the standard library: the
/// specification treats `as` casts and float syntax as given.
pub fn float_table(v: &Value, out: &mut JMap<String, J>) {
    match v {
        Value::Num(_, n) => {
            let (_, text) = num_parts(n);
            let (a, b) = match *n {
                Num::F32(x) => (x, x as f64),
                Num::F64(x) => (x as f32, x),
                Num::I8(x) => (x as f32, x as f64),
                Num::I16(x) => (x as f32, x as f64),
                Num::I32(x) => (x as f32, x as f64),
                Num::I64(x) => (x as f32, x as f64),
                Num::I128(x) => (x as f32, x as f64),
                Num::ISize(x) => (x as f32, x as f64),
                Num::U8(x) => (x as f32, x as f64),
                Num::U16(x) => (x as f32, x as f64),
                Num::U32(x) => (x as f32, x as f64),
                Num::U64(x) => (x as f32, x as f64),
                Num::U128(x) => (x as f32, x as f64),
                Num::USize(x) => (x as f32, x as f64),
            };
            out.insert(format!("f32:{text}"), ftext(a as f64).into());
            out.insert(format!("f64:{text}"), ftext(b).into());
        }
        Value::String(_, st) => {
            let st = st.trim();
            if let Ok(x) = st.parse::<f64>() {
                out.insert(format!("f64:{st}"), ftext(x).into());
                out.insert(format!("f32:{}", ftext(x)), ftext(x as f32 as f64).into());
                out.insert(format!("f64:{}", ftext(x)), ftext(x).into());
            }
            if let Ok(x) = st.parse::<u128>() {
                out.insert(format!("f32:{x}"), ftext(x as f32 as f64).into());
                out.insert(format!("f64:{x}"), ftext(x as f64).into());
            } else if let Ok(x) = st.parse::<i128>() {
                out.insert(format!("f32:{x}"), ftext(x as f32 as f64).into());
                out.insert(format!("f64:{x}"), ftext(x as f64).into());
            }
        }
        Value::Dict(_, d) => d.values().for_each(|v| float_table(v, out)),
        Value::Array(_, a) => a.iter().for_each(|v| float_table(v, out)),
        _ => {}
    }
}
