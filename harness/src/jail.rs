//! Sessions of jails. Each session runs below its own directory, some levels
//! deep, so that nothing a jail may do wrong leaves the scratch directory.
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::io::{BufRead, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

use figment::{Error, Jail};
use serde_json::{json, Value as J};

use crate::val::{bug, s};

/// U+F8FF stands for a byte that is not UTF-8.
pub fn os(t: &str) -> OsString {
    let mut out = vec![];
    for c in t.chars() {
        match c {
            '\u{f8ff}' => out.push(0xff),
            c => out.extend(c.to_string().as_bytes()),
        }
    }
    OsString::from_vec(out)
}

fn un_os(t: &OsStr) -> String {
    let (mut out, mut b) = (String::new(), t.as_bytes());
    while !b.is_empty() {
        match std::str::from_utf8(b) {
            Ok(x) => { out.push_str(x); break }
            Err(e) => {
                let (x, rest) = b.split_at(e.valid_up_to());
                out.push_str(std::str::from_utf8(x).unwrap());
                out.push('\u{f8ff}');
                b = &rest[1..];
            }
        }
    }
    out
}

struct World {
    root: PathBuf,
    tmp: PathBuf,
    /// Names of the jails' directories so far.
    names: Vec<String>,
}

impl World {
    /// Real paths as sessions spell them.
    fn plain(&self, t: &str) -> String {
        let mut t = t.replace(self.tmp.to_str().unwrap(), "TMP")
            .replace(self.root.join("link").to_str().unwrap(), "TMP")
            .replace(self.root.to_str().unwrap(), "UP");
        for (i, n) in self.names.iter().enumerate() {
            t = t.replace(n, &format!("J{}", i + 1));
        }
        t
    }

    fn real(&self, t: &str) -> String {
        let t = t.replace("JNAME", self.names.last().unwrap());
        match t.strip_prefix("TMP") {
            Some(r) => format!("{}{}", self.tmp.display(), r),
            None => t,
        }
    }

    fn list(&self) -> J {
        fn walk(d: &Path, out: &mut BTreeMap<PathBuf, String>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let (p, t) = (e.path(), e.file_type().unwrap());
                if t.is_dir() {
                    out.insert(p.clone(), "D".into());
                    walk(&p, out);
                } else if t.is_symlink() {
                    out.insert(p.clone(), "L".into());
                } else {
                    let c = std::fs::read(&p).unwrap_or_default();
                    out.insert(p, format!("F:{}", un_os(OsStr::from_bytes(&c))));
                }
            }
        }
        let mut m = BTreeMap::new();
        walk(&self.root, &mut m);
        let mut o = serde_json::Map::new();
        for (p, c) in m {
            if self.tmp.starts_with(&p) || p == self.root.join("link") {
                continue;
            }
            o.insert(self.plain(p.to_str().unwrap_or("?")), c.into());
        }
        J::Object(o)
    }

    fn see(&self) -> J {
        let mut env = serde_json::Map::new();
        for (k, v) in std::env::vars_os() {
            env.insert(un_os(&k), self.plain(&un_os(&v)).into());
        }
        let cwd = std::env::current_dir().map(|p| self.plain(&p.display().to_string())).unwrap_or("?".into());
        json!({"env": env, "cwd": cwd, "fs": self.list()})
    }
}

fn obs(w: &World, res: &str, ret: &str) -> J {
    let mut o = w.see();
    o["res"] = res.into();
    o["ret"] = w.plain(ret).into();
    o
}

/// Runs one jail; records events. `ops` are those up to the leave.
fn jail(w: &mut World, enter: &J, ops: &[J], leave: &J, evs: &mut Vec<J>) {
    let mut inner: Vec<J> = vec![];
    let end = s(&leave["end"]);
    let body = |jail: &mut Jail| -> Result<(), Error> {
        w.names.push(jail.directory().file_name().unwrap().to_str().unwrap().to_string());
        let mut e = enter.clone();
        e["obs"] = obs(w, "ok", jail.directory().to_str().unwrap());
        inner.push(e);
        for op in ops {
            let mut ev = op.clone();
            let k = s(&op["op"]);
            if k == "jset" {
                // A panic in here ends the jail; the event is then missing.
                jail.set_env(s(&op["k"]), s(&op["v"]));
                ev["obs"] = obs(w, "ok", "");
                inner.push(ev);
                continue;
            }
            let p = match op["path"].as_str() { Some(p) => w.real(p), None => String::new() };
            let r: Result<String, Error> = match k {
                "jclear" => { jail.clear_env(); Ok(String::new()) }
                "jfile" => jail.create_file(&p, s(&op["text"])).map(|_| String::new()),
                "jbin" => jail.create_binary(&p, os(s(&op["text"])).as_bytes()).map(|_| String::new()),
                "jdir" => jail.create_dir(&p).map(|p| p.display().to_string()),
                "jcd" => jail.change_dir(&p).map(|p| p.display().to_string()),
                "jsib" => {
                    std::fs::create_dir_all(w.real("TMP/JNAMEx")).unwrap();
                    Ok(String::new())
                }
                "jlook" => Ok(jail.directory().display().to_string()),
                k => bug(format!("jail op {k}")),
            };
            ev["obs"] = match &r {
                Ok(p) => obs(w, "ok", p),
                Err(_) => obs(w, "err", ""),
            };
            inner.push(ev);
            if s(&op["q"]) == "true" { r?; }
        }
        match end {
            "ok" => Ok(()),
            "err" => Err(Error::from(s(&leave["msg"]).to_string())),
            _ => std::panic::panic_any(s(&leave["msg"]).to_string()),
        }
    };
    let how = s(&enter["how"]);
    let r = catch_unwind(AssertUnwindSafe(|| match how {
        "try" => Jail::try_with(body),
        _ => { Jail::expect_with(body); Ok(()) }
    }));
    evs.append(&mut inner);
    let (res, ret) = match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", e.to_string()),
        Err(p) => ("panic", p.downcast_ref::<String>().cloned()
            .or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    };
    let mut ev = leave.clone();
    ev["obs"] = obs(w, res, &ret);
    evs.push(ev);
}

pub fn run(sessions: &str, out: &str, scratch: &str) {
    let input = std::io::BufReader::new(std::fs::File::open(sessions).expect("sessions"));
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).expect("out"));
    let scratch = std::fs::canonicalize(scratch).expect("scratch");
    let cur = scratch.join("current");
    for (n, line) in input.lines().enumerate() {
        let sess: J = serde_json::from_str(&line.expect("line")).expect("session");
        std::fs::write(&cur, n.to_string()).expect("current");
        for (k, _) in std::env::vars_os() { std::env::remove_var(k); }
        let root = scratch.join(format!("r{n}"));
        let tmp = root.join("n1/n2/n3/n4/n5/n6/n7/n8/tmp");
        std::fs::create_dir_all(tmp.join("out")).expect("tmp");
        std::fs::write(tmp.join("out/keep"), "k").expect("keep");
        std::fs::set_permissions(tmp.join("out"), std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
        std::os::unix::fs::symlink(&tmp, root.join("link")).expect("link");
        std::env::set_current_dir(tmp.join("out")).expect("cd");
        let ops = sess["ops"].as_array().unwrap();
        let link = ops.iter().any(|o| s(&o["op"]) == "viasym");
        std::env::set_var("TMPDIR", if link { root.join("link") } else { tmp.clone() });
        let mut w = World { root: root.clone(), tmp, names: vec![] };
        let mut evs = vec![];
        let mut i = 0;
        while i < ops.len() {
            let op = &ops[i];
            match s(&op["op"]) {
                "jenter" => {
                    let j = i + ops[i..].iter().position(|o| s(&o["op"]) == "jleave").expect("leave");
                    jail(&mut w, op, &ops[i + 1..j], &ops[j], &mut evs);
                    i = j;
                }
                k => {
                    match k {
                        "osenv" => std::env::set_var(os(s(&op["k"])), os(s(&op["v"]))),
                        "viasym" => { }
                        k => bug(format!("op {k}")),
                    }
                    let mut ev = op.clone();
                    ev["obs"] = obs(&w, "ok", "");
                    evs.push(ev);
                }
            }
            i += 1;
        }
        serde_json::to_writer(&mut o, &json!({"ops": ops, "ev": evs})).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
        std::env::set_current_dir(&scratch).expect("cd");
        std::fs::remove_dir_all(&root).expect("cleanup");
    }
    std::fs::write(&cur, "done").expect("current");
}
