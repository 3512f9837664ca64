//! Jails and providers used from several threads at once.
use std::collections::BTreeSet;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

use figment::value::{Dict, Map, Tag, Value};
use figment::{Error, Figment, Jail, Metadata, Profile, Provider};
use serde_json::{json, Value as J};

use crate::val::{bug, s};

fn num(j: &J) -> u64 { s(j).parse().unwrap_or_else(|_| bug(format!("number {j}"))) }

fn each(sessions: &str, out: &str, scratch: &str, f: impl Fn(&J, &Path) -> Vec<J>) {
    let input = std::io::BufReader::new(std::fs::File::open(sessions).expect("sessions"));
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).expect("out"));
    let scratch = std::fs::canonicalize(scratch).expect("scratch");
    let cur = scratch.join("current");
    for (n, line) in input.lines().enumerate() {
        let sess: J = serde_json::from_str(&line.expect("line")).expect("session");
        std::fs::write(&cur, n.to_string()).expect("current");
        let evs = f(&sess, &scratch.join(format!("r{n}")));
        serde_json::to_writer(&mut o, &json!({"ops": sess["ops"], "ev": evs})).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
    std::fs::write(&cur, "done").expect("current");
}

// ---------------------------------- jails ----------------------------------
/// Who set the variables that all jails set: `none`, one jail, or `mixed`.
fn env_of() -> String {
    let who: BTreeSet<_> = std::env::vars().filter(|(k, _)| k.starts_with("JV")).map(|(_, v)| v).collect();
    match who.len() {
        0 => "none".into(),
        1 => who.into_iter().next().unwrap(),
        _ => "mixed".into(),
    }
}

fn cwd_of(own: Option<&Path>, base: &Path) -> &'static str {
    match std::env::current_dir() {
        Ok(p) if p == base => "base",
        Ok(p) if Some(p.as_path()) == own => "own",
        Ok(_) => "other",
        Err(_) => "gone",
    }
}

fn one(id: &str, j: &J, base: &Path, log: &Mutex<Vec<J>>) {
    let say = |what: &str, own: &Path| {
        let (env, cwd) = (env_of(), cwd_of(Some(own), base));
        log.lock().unwrap().push(json!({"op": what, "id": id, "env": env, "cwd": cwd}));
    };
    let body = |jail: &mut Jail| -> Result<(), Error> {
        let own = jail.directory().to_path_buf();
        say("start", &own);
        let pause = || std::thread::sleep(Duration::from_micros(num(&j["pause"])));
        for k in 0..num(&j["looks"]) {
            if k == 1 {
                for n in 0..num(&j["vars"]) {
                    jail.set_env(format!("JV{n}"), id);
                }
                jail.create_file("f", id)?;
                say("set", &own);
            }
            pause();
            std::thread::yield_now();
            say("look", &own);
        }
        say("end", &own);
        match s(&j["end"]) {
            "ok" => Ok(()),
            "err" => Err(Error::from("err".to_string())),
            _ => std::panic::panic_any("panic".to_string()),
        }
    };
    let r = catch_unwind(AssertUnwindSafe(|| match s(&j["how"]) {
        "try" => Jail::try_with(body),
        _ => { Jail::expect_with(body); Ok(()) }
    }));
    let out = match r { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" };
    log.lock().unwrap().push(json!({"op": "out", "id": id, "env": out, "cwd": ""}));
}

pub fn jails(sessions: &str, out: &str, scratch: &str) {
    each(sessions, out, scratch, |sess, root| {
        for (k, _) in std::env::vars_os() { std::env::remove_var(k); }
        let tmp = root.join("n1/n2/n3/tmp");
        let base = tmp.join("base");
        std::fs::create_dir_all(&base).expect("base");
        std::env::set_current_dir(&base).expect("cd");
        std::env::set_var("TMPDIR", &tmp);
        let log = Arc::new(Mutex::new(vec![]));
        let ops = sess["ops"].as_array().unwrap().clone();
        let barrier = Arc::new(Barrier::new(ops.len()));
        let ts: Vec<_> = ops.into_iter().enumerate().map(|(t, op)| {
            let (log, barrier, base): (_, _, PathBuf) = (log.clone(), barrier.clone(), base.clone());
            std::thread::spawn(move || {
                barrier.wait();
                for (i, j) in op["jails"].as_array().unwrap().iter().enumerate() {
                    one(&format!("t{}.{}", t + 1, i + 1), j, &base, &log);
                }
            })
        }).collect();
        for t in ts { t.join().expect("thread"); }
        let mut evs = std::mem::take(&mut *log.lock().unwrap());
        let left = std::fs::read_dir(&tmp).unwrap().count();
        evs.push(json!({"op": "final", "id": left.to_string(), "env": env_of(), "cwd": cwd_of(None, &base)}));
        let parent = root.parent().unwrap();
        std::env::set_current_dir(parent).expect("cd");
        std::fs::remove_dir_all(root).expect("cleanup");
        evs
    })
}

// ---------------------------------- tags -----------------------------------
struct Prov(String);

impl Provider for Prov {
    fn metadata(&self) -> Metadata { Metadata::named(self.0.clone()) }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> {
        let mut d = Dict::new();
        d.insert(self.0.clone(), Value::from(1u8));
        Ok(Profile::Default.collect(d))
    }
}

struct Nothing;

impl Provider for Nothing {
    fn metadata(&self) -> Metadata { Metadata::named("nothing") }
    fn data(&self) -> Result<Map<Profile, Dict>, Error> { Ok(Map::new()) }
}

fn name_of(f: &Figment, k: &str) -> String {
    f.find_metadata(k).map(|m| m.name.to_string()).unwrap_or("?".into())
}

/// A session is one operation: `t` threads each make `figs` figments of
/// `provs` providers each, on top of a figment all of them share, and add to
/// the `relay` figments they hand to each other. Half way each makes its share
/// of `gap` figments that nobody keeps.
pub fn tags(sessions: &str, out: &str, scratch: &str) {
    each(sessions, out, scratch, |sess, _| {
        let op = &sess["ops"][0];
        let (t, figs, provs, relays) = (num(&op["t"]), num(&op["figs"]), num(&op["provs"]), num(&op["relay"]));
        let gap = num(&op["gap"]);
        let base = Figment::from(Prov("b".into()));
        let threads = t;
        let barrier = Arc::new(Barrier::new(t as usize));
        type Made = (Figment, Vec<String>);
        let handed: Arc<Vec<Mutex<Option<Made>>>> =
            Arc::new((0..relays).map(|_| Mutex::new(Some((base.clone(), vec![])))).collect());
        let ts: Vec<_> = (1..=t).map(|t| {
            let (barrier, base, handed) = (barrier.clone(), base.clone(), handed.clone());
            std::thread::spawn(move || {
                barrier.wait();
                let mut n = 0;
                let mut call = |(f, mut ns): Made| {
                    n += 1;
                    ns.push(format!("t{t}-{n}"));
                    (f.merge(Prov(format!("t{t}-{n}"))), ns)
                };
                (0..figs).map(|i| {
                    if i == figs / 2 {
                        for _ in 0..gap / threads { let _ = Figment::from(Nothing); }
                    }
                    let mut f = (base.clone(), vec![]);
                    for _ in 0..provs { f = call(f); }
                    if let Some(slot) = handed.get(((i * t) % relays.max(1)) as usize) {
                        let mut slot = slot.lock().expect("slot");
                        if slot.as_ref().unwrap().1.len() < 400 {
                            *slot = slot.take().map(&mut call);
                        }
                    }
                    f
                }).collect::<Vec<Made>>()
            })
        }).collect();
        let all: Vec<Vec<Made>> = ts.into_iter().map(|t| t.join().expect("thread")).collect();
        let handed: Vec<Made> = handed.iter().map(|s| s.lock().expect("slot").take().unwrap()).collect();
        let calls: usize = all.iter().flatten().chain(&handed).map(|f| f.1.len()).sum();
        // Every value's tag: what has the same identity is grouped.
        let mut tags: Vec<(Tag, String)> = vec![];
        for (f, _) in all.iter().flatten().chain(&handed) {
            for (k, v) in f.extract::<Dict>().expect("dict") {
                if k != "b" { tags.push((v.tag(), k)); }
            }
        }
        tags.sort();
        let mut groups: Vec<Vec<String>> = vec![];
        let mut last = None;
        for (tag, k) in tags {
            if last == Some(tag) { groups.last_mut().unwrap().push(k) } else { groups.push(vec![k]) }
            last = Some(tag);
        }
        let mut evs: Vec<J> = groups.into_iter().map(|g| json!({"op": "tag", "names": g})).collect();
        // Figments of different threads combined: the n-th of each, the n-th
        // of one with another of the next, and everything.
        let mut combos: Vec<Vec<(usize, usize)>> = vec![];
        for i in (0..figs as usize).step_by((figs as usize / 12).max(1)) {
            combos.push((0..t as usize).map(|k| (k, i)).collect());
            combos.push((0..t as usize).rev().map(|k| (k, (i + k) % figs as usize)).collect());
        }
        for c in combos {
            let mut f = Figment::new();
            let names: Vec<String> = c.iter().flat_map(|(k, i)| all[*k][*i].1.clone()).collect();
            for (k, i) in &c { f = f.merge(&all[*k][*i].0); }
            let md: Vec<String> = f.metadata().map(|m| m.name.to_string()).collect();
            let vals: Vec<[String; 2]> = names.iter().map(|k| [k.clone(), name_of(&f, k)]).collect();
            evs.push(json!({"op": "combo", "names": names, "md": md, "vals": vals, "base": name_of(&f, "b")}));
        }
        for (f, names) in &handed {
            let md: Vec<String> = f.metadata().map(|m| m.name.to_string()).collect();
            evs.push(json!({"op": "handed", "names": names, "md": md}));
        }
        let mut all: Vec<Vec<Figment>> = vec![all.into_iter().flatten().chain(handed).map(|f| f.0).collect()];
        while all.iter().map(|a| a.len()).sum::<usize>() > 1 {
            // Halve: neighbours are combined.
            let flat: Vec<Figment> = all.drain(..).flatten().collect();
            let mut next = vec![];
            let mut it = flat.into_iter();
            while let Some(a) = it.next() {
                next.push(match it.next() { Some(b) => a.merge(b), None => a });
            }
            all.push(next);
        }
        let f = all.pop().unwrap().pop().unwrap();
        let ms: Vec<String> = f.metadata().map(|m| m.name.to_string()).filter(|n| n != "Default").collect();
        let d = f.extract::<Dict>().expect("dict");
        let wrong: Vec<[String; 2]> = d.iter().map(|(k, v)| [k.clone(),
            f.get_metadata(v.tag()).map(|m| m.name.to_string()).unwrap_or("?".into())])
            .filter(|[a, b]| a != b).take(5).collect();
        evs.push(json!({"op": "all", "md": ms, "calls": calls.to_string(), "count": d.len().to_string(), "wrong": wrong}));
        evs
    })
}
