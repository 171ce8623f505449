//! Writes the crates of generated parsers
//!   simcorpus make <property> <seed> <count> <dir>   all of a corpus
//!   simcorpus replay <file> <dir>                    what a replay file needs
//!   simcorpus failed <log> <dir>                     takes out what cannot be compiled according to cargo's log
//!   simcorpus library <spec> <out>                   generates with the library
use gram::corpus::{self, Corpus, Entry, Failure};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const PARTS: u32 = 8;

fn put(path: &str, text: &str) {
    if std::fs::read_to_string(path).ok().as_deref() != Some(text) {
        std::fs::write(path, text).unwrap();
    }
}
fn limited(mut c: Command) -> Result<(), String> {
    let mut child = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("{e}"))?;
    let mut err = child.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut err, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let start = Instant::now();
    let status = loop {
        match child.try_wait().unwrap() {
            Some(s) => break Some(s),
            None if start.elapsed() > Duration::from_secs(60) => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(3)),
        }
    };
    let err = reader.join().unwrap();
    let lines: Vec<&str> = err.lines().filter(|l| !l.contains("Warning:")).take(12).collect();
    match status {
        Some(s) if s.success() => Ok(()),
        Some(s) => Err(format!("{s}: {}", lines.join("; "))),
        None => Err("does not end".into()),
    }
}
fn generate(e: &mut Entry, dir: &str, kind: &str) {
    let (base, src) = (format!("{dir}/specs/{kind}-{}", e.index), format!("{dir}/corpus{}/src/g{}.rs", e.part, e.index));
    let ext = if e.g.augmented { "alaps" } else { "laps" };
    let (spec, out) = (format!("{base}.{ext}"), format!("{base}.rs"));
    put(&spec, &e.spec);
    let _ = std::fs::remove_file(&out);
    let c = if e.index % 4 == 3 {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(["library", &spec, &out]);
        c
    } else {
        let gens = std::env::var("SIM_GENERATORS").expect("SIM_GENERATORS");
        let mut c = Command::new(format!("{gens}/{}", if e.g.augmented { "alalr1_gen" } else { "lalr1_gen" }));
        c.args(["--force", &spec]);
        c
    };
    let r = limited(c).and_then(|_| std::fs::read_to_string(&out).map_err(|x| format!("no parser file: {x}")));
    match r {
        Ok(code) => put(&src, &code),
        Err(text) => {
            let _ = std::fs::remove_file(&src);
            e.failed = Some(Failure { class: "refused".into(), text })
        }
    }
}
fn write_crates(c: &Corpus, dir: &str) {
    for part in 0..PARTS {
        let mut lib = "#![allow(warnings)]\n".to_string();
        let mut list = String::new();
        for e in c.entries.iter().filter(|e| e.part == part && e.failed.is_none()) {
            lib.push_str(&format!("pub mod g{};\n", e.index));
            list.push_str(&format!("({}, g{}::new as fn() -> Box<dyn genrt::Generated>), ", e.index, e.index));
        }
        lib.push_str(&format!("pub fn parsers() -> Vec<(u32, fn() -> Box<dyn genrt::Generated>)> {{\n    vec![{list}]\n}}\n"));
        put(&format!("{dir}/corpus{part}/src/lib.rs"), &lib);
    }
    std::fs::write(format!("{dir}/corpus.json"), serde_json::to_string(c).unwrap()).unwrap();
}
fn make(kind: &str, seed: u64, list: &[u32], dir: &str) {
    std::fs::create_dir_all(format!("{dir}/specs")).unwrap();
    let sim = Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap();
    let repo = std::env::var("SIM_REPO").unwrap_or("/repo".into());
    for part in 0..PARTS {
        let d = format!("{dir}/corpus{part}");
        std::fs::create_dir_all(format!("{d}/src")).unwrap();
        put(
            &format!("{d}/Cargo.toml"),
            &format!(
                "[package]\nname = \"corpus{part}\"\nversion = \"0.1.0\"\nedition = \"2024\"\n\n[dependencies]\ngenrt = {{ path = \"{}/genrt\" }}\nlexan = {{ path = \"{repo}/lexan\" }}\nlalr1 = {{ path = \"{repo}/lalr1\" }}\nalalr1 = {{ path = \"{repo}/alalr1\" }}\nlazy_static = \"1\"\n",
                sim.display()
            ),
        );
        let wanted: BTreeSet<String> = list.iter().enumerate().filter(|(n, _)| *n as u32 % PARTS == part).map(|(_, i)| format!("g{i}.rs")).collect();
        for f in std::fs::read_dir(format!("{d}/src")).unwrap().flatten() {
            let name = f.file_name().to_string_lossy().into_owned();
            if name != "lib.rs" && !wanted.contains(&name) {
                let _ = std::fs::remove_file(f.path());
            }
        }
    }
    let mut entries: Vec<Entry> = list
        .iter()
        .enumerate()
        .map(|(n, i)| {
            let (g, t) = corpus::grammar(kind, seed, *i);
            let spec = corpus::specification(&g, &t);
            Entry { index: *i, part: n as u32 % PARTS, g, spec, failed: None }
        })
        .collect();
    std::thread::scope(|s| {
        let n = entries.len().div_ceil(8).max(1);
        for chunk in entries.chunks_mut(n) {
            s.spawn(move || {
                for e in chunk {
                    generate(e, dir, kind);
                }
            });
        }
    });
    write_crates(&Corpus { kind: kind.into(), seed, entries }, dir);
}
fn load(dir: &str) -> Corpus {
    serde_json::from_str(&std::fs::read_to_string(format!("{dir}/corpus.json")).unwrap()).unwrap()
}
fn grammars(v: &Value, out: &mut BTreeSet<u32>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| grammars(x, out)),
        Value::Object(o) => {
            for (k, x) in o {
                if k == "grammar" || k == "probe" {
                    out.extend(x.as_u64().map(|x| x as u32));
                }
                grammars(x, out);
            }
        }
        _ => (),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a[..] {
        ["make", kind, seed, count, dir] => {
            let list: Vec<u32> = (0..count.parse().unwrap()).collect();
            make(kind, seed.parse().unwrap(), &list, dir)
        }
        ["replay", file, dir] => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            let kind = v["property"].as_str().unwrap();
            let mut list = BTreeSet::new();
            grammars(&v["plans"], &mut list);
            let seed = v["plans"][0]["corpus"].as_u64().expect("a plan's corpus");
            make(kind, seed, &list.into_iter().collect::<Vec<_>>(), dir)
        }
        ["failed", log, dir, ref rest @ ..] => {
            let log = std::fs::read_to_string(log).unwrap();
            let mut c = load(dir);
            // the first error of each file
            let mut found: BTreeMap<u32, String> = Default::default();
            let mut error: Vec<&str> = vec![];
            for l in log.lines() {
                if l.starts_with("error") {
                    error.clear();
                } else if l.starts_with("warning") {
                    error.clear();
                    continue;
                } else if error.is_empty() {
                    continue;
                }
                error.push(l);
                if let Some(at) = l.find("/src/g")
                    && l.contains("/corpus")
                    && let Some(n) = l[at + 6..].split('.').next().and_then(|n| n.parse().ok())
                {
                    found.entry(n).or_insert_with(|| error[..error.len().min(4)].join(" "));
                }
            }
            let mut any = false;
            for e in c.entries.iter_mut().filter(|e| e.failed.is_none()) {
                if let Some(text) = found.get(&e.index) {
                    e.failed = Some(Failure { class: "uncompilable".into(), text: text.clone() });
                    any = true;
                }
            }
            if rest == ["drop"] {
                // enough is known: leave the crates that fail out as a whole
                let parts: BTreeSet<u32> = c.entries.iter().filter(|e| found.contains_key(&e.index)).map(|e| e.part).collect();
                for e in c.entries.iter_mut().filter(|e| e.failed.is_none() && parts.contains(&e.part)) {
                    e.failed = Some(Failure { class: "dropped".into(), text: String::new() });
                }
            }
            write_crates(&c, dir);
            std::process::exit(!any as i32)
        }
        ["library", spec, out] => {
            let r = if spec.ends_with(".alaps") {
                alalr1_lib::ParserGenerator::new(spec).map_err(|e| e.to_string()).and_then(|g| g.write_parser_code_to_file(out).map_err(|e| e.to_string()))
            } else {
                lalr1_lib::ParserGenerator::new(spec).map_err(|e| e.to_string()).and_then(|g| g.write_parser_code_to_file(out).map_err(|e| e.to_string()))
            };
            if let Err(e) = r {
                eprintln!("{e}");
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage");
            std::process::exit(2)
        }
    }
}
