//! Operations on the real parser.
use crate::{canon, enc, proj};
use onenote_parser::errors::Error;
use onenote_parser::Parser;
use serde_json::{json, Map, Value};
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static SEQ: AtomicU64 = AtomicU64::new(0);

pub fn payload(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default()
}
/// Kind of an error, from the public Display text.
pub fn kind(e: &Error) -> (String, String) {
    let t = e.to_string();
    let k = if t.starts_with("Unexpected end of file") {
        "UnexpectedEof"
    } else if t.starts_with("Not a table of contents file") {
        "NotATocFile"
    } else if t.starts_with("Not a section file") {
        "NotASectionFile"
    } else if t.starts_with("Table of contents file is missing") {
        "TocFileMissing"
    } else if t.starts_with("Malformed UTF-16") {
        "Utf16Error"
    } else if t.starts_with("Malformed ") {
        "Malformed"
    } else if t.starts_with("Invalid path") {
        "InvalidPath"
    } else if t.starts_with("I/O failure") {
        "IO"
    } else {
        "Other"
    };
    (k.to_string(), t)
}
fn outcome(r: Result<Value, Error>) -> Value {
    match r {
        Ok(v) => json!({"ok": true, "v": v}),
        Err(e) => {
            let (k, t) = kind(&e);
            json!({"ok": false, "err": k, "msg": t})
        }
    }
}
fn guarded(f: impl FnOnce() -> Result<Value, Error>) -> Value {
    match catch_unwind(AssertUnwindSafe(|| outcome(f()))) {
        Ok(v) => v,
        Err(p) => json!({"panic": format!("{} [{}]", payload(&*p), LAST_PANIC.lock().map(|p| p.clone()).unwrap_or_default())}),
    }
}
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::var("VH_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let p = base.join(format!("vh-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
pub fn parse_bytes(data: &[u8], as_: &str, fname: &str) -> Value {
    match as_ {
        "section" => guarded(|| Parser::new().parse_section_buffer(data, Path::new(fname)).map(|s| proj::section(&s))),
        _ => {
            let d = Scratch::new();
            let p = d.0.join(fname);
            fs::write(&p, data).expect("write");
            if as_ == "disk" {
                guarded(|| Parser::new().parse_section(&p).map(|s| proj::section(&s)))
            } else {
                guarded(|| Parser::new().parse_notebook(&p).map(|s| proj::notebook(&s)))
            }
        }
    }
}
fn units(v: Option<&Value>, def: &str) -> String {
    match v {
        Some(Value::String(s)) => s.clone(),
        Some(Value::Array(a)) => String::from_utf16_lossy(&a.iter().map(|x| x.as_u64().unwrap_or(0) as u16).collect::<Vec<_>>()),
        _ => def.to_string(),
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    s.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap_or("0"), 16).unwrap_or(0)).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
static BASES: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
fn bases() -> Vec<Vec<u8>> {
    let t = fs::read_to_string(std::env::var("VH_BASES").unwrap_or_default()).unwrap_or_default();
    let one = |l: &str| serde_json::from_str::<Value>(l).ok().map(|v| content_of(&json!({"bytes": v["b"]})));
    t.lines().filter_map(one).collect()
}
pub fn content_of(v: &Value) -> Vec<u8> {
    if let Some(h) = v.get("hex").and_then(|x| x.as_str()) {
        return unhex(h);
    }
    if let Some(b) = v.get("bytes").and_then(|x| x.as_array()) {
        return b.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect();
    }
    if let Some(f) = v.get("file").and_then(|x| x.as_str()) {
        return fs::read(f).unwrap_or_default();
    }
    // file number "base" (from 1) of the list VH_BASES, with "edits"
    if let Some(k) = v.get("base").and_then(|x| x.as_u64()) {
        let mut b = BASES.get_or_init(bases).get(k.wrapping_sub(1) as usize).cloned().unwrap_or_default();
        for e in v.get("edits").and_then(|x| x.as_array()).into_iter().flatten() {
            let at = (e["at"].as_u64().unwrap_or(1) - 1) as usize;
            let put: Vec<u8> = e["put"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0) as u8).collect();
            let put = put.repeat(e["times"].as_u64().unwrap_or(1) as usize);
            b.splice(at..at + e["del"].as_u64().unwrap_or(0) as usize, put);
        }
        return b;
    }
    match v.get("doc") {
        Some(d) => enc::encode(d),
        None => vec![],
    }
}
/// Judge an outcome against an expectation: None = as expected.
pub fn judge(expect: &Value, got: &Value, blobs: &Value) -> Option<(&'static str, String)> {
    if let Some(p) = got.get("panic") {
        return Some(("crash", format!("panic: {}", p.as_str().unwrap_or(""))));
    }
    if expect.get("any").is_some() {
        return None;
    }
    let (eo, go) = (expect.get("ok").and_then(|x| x.as_bool()).unwrap_or(true), got["ok"].as_bool().unwrap_or(false));
    if eo != go {
        return Some(("mismatch", format!("expected {} got {}", if eo { "a value" } else { "an error" }, if go { "a value".to_string() } else { format!("error {}", got["msg"]) })));
    }
    if !eo {
        let k = expect.get("err").and_then(|x| x.as_str()).unwrap_or("");
        if !k.is_empty() && got["err"].as_str() != Some(k) {
            return Some(("mismatch", format!("expected error {k} got {} ({})", got["err"], got["msg"])));
        }
        return None;
    }
    match expect.get("v") {
        None => None,
        Some(v) => canon::diff(&canon::norm(v, blobs), &got["v"], "").map(|d| ("mismatch", d)),
    }
}
fn overlay(doc: &Value, e: &Value) -> Value {
    let mut d = doc.clone();
    if let (Some(m), Some(o)) = (d.as_object_mut(), e.as_object()) {
        for (k, v) in o {
            if k == "enc" {
                let mut base = m.get("enc").cloned().unwrap_or(json!({}));
                if let (Some(b), Some(x)) = (base.as_object_mut(), v.as_object()) {
                    for (k, v) in x {
                        b.insert(k.clone(), v.clone());
                    }
                }
                m.insert("enc".into(), base);
            } else {
                m.insert(k.clone(), v.clone());
            }
        }
    }
    d
}

pub fn run(c: &Value) -> Value {
    let mut r = match c.get("op").and_then(|x| x.as_str()).unwrap_or("section") {
        "section" => op_section(c),
        "bytes" => op_bytes(c),
        "truncate" => op_truncate(c),
        "record" => op_record(c),
        "notebook" => op_notebook(c),
        "session" => crate::ops::session::op_session(c),
        o => json!({"verdict":"harness-error","diff":format!("unknown op {o}")}),
    };
    if let (Some(m), Some(id)) = (r.as_object_mut(), c.get("id")) {
        m.insert("id".into(), id.clone());
    }
    r
}
fn ok(n: usize) -> Value {
    json!({"verdict":"ok","n":n})
}
fn bad(v: &str, d: String, extra: Value) -> Value {
    json!({"verdict":v,"diff":d,"at":extra})
}
fn op_section(c: &Value) -> Value {
    let doc = c.get("doc").cloned().unwrap_or(Value::Null);
    let fname = units(c.get("fname"), "Section.one");
    let blobs = doc.get("blobs").cloned().unwrap_or(Value::Null);
    let expect = c.get("expect").cloned().unwrap_or(json!({"any":true}));
    let one = vec![json!({})];
    let encs = c.get("encs").and_then(|x| x.as_array()).filter(|x| !x.is_empty()).unwrap_or(&one);
    let mut n = 0;
    for e in encs {
        let d = overlay(&doc, e);
        let b = enc::encode(&d);
        let got = parse_bytes(&b, "section", &fname);
        n += 1;
        if let Some((v, m)) = judge(&expect, &got, &blobs) {
            return bad(v, m, e.clone());
        }
        if c.get("disk").and_then(|x| x.as_bool()).unwrap_or(false) {
            let got = parse_bytes(&b, "disk", &fname);
            n += 1;
            if let Some((v, m)) = judge(&expect, &got, &blobs) {
                return bad(v, format!("from disk: {m}"), e.clone());
            }
        }
    }
    ok(n)
}
fn op_bytes(c: &Value) -> Value {
    let data = content_of(c);
    let as_ = c.get("as").and_then(|x| x.as_str()).unwrap_or("section");
    let fname = units(c.get("fname"), "Section.one");
    let got = parse_bytes(&data, as_, &fname);
    if let Some((v, m)) = judge(c.get("expect").unwrap_or(&json!({"any":true})), &got, &Value::Null) {
        return bad(v, m, Value::Null);
    }
    // "again": parse it more often, from memory and from disk
    let k = c.get("again").and_then(|x| x.as_u64()).or(std::env::var("VH_AGAIN").ok().and_then(|x| x.parse().ok())).unwrap_or(0);
    if k > 0 {
        let d = Scratch::new();
        let p = d.0.join(&fname);
        fs::write(&p, &data).expect("write");
        let before = snapshot(&d.0);
        let same = |a: &Value, b: &Value| a == b;
        let one = Parser::new();
        for i in 0..k {
            let other = if as_ != "section" {
                guarded(|| one.parse_notebook(&p).map(|s| proj::notebook(&s)))
            } else if i % 2 == 0 {
                guarded(|| one.parse_section(&p).map(|s| proj::section(&s)))
            } else {
                guarded(|| one.parse_section_buffer(&data, Path::new(&fname)).map(|s| proj::section(&s)))
            };
            let named = |v: &Value| v["msg"].as_str().is_some_and(|x| x.contains(&*fname));
            if !(same(&got, &other) || (named(&got) && named(&other) && got["err"] == other["err"])) {
                return bad("mismatch", format!("parsed again ({i}): {} after {}", other["msg"], got["msg"]), Value::Null);
            }
        }
        if snapshot(&d.0) != before {
            return bad("mismatch", "parsing changed files".into(), Value::Null);
        }
    }
    ok(1 + k as usize)
}
/// Every proper prefix of the package must be rejected.
fn op_truncate(c: &Value) -> Value {
    let doc = c.get("doc").cloned().unwrap_or(Value::Null);
    let step = c.get("step").and_then(|x| x.as_u64()).unwrap_or(1).max(1) as usize;
    let one = vec![json!({})];
    let encs = c.get("encs").and_then(|x| x.as_array()).filter(|x| !x.is_empty()).unwrap_or(&one);
    let mut n = 0;
    for e in encs {
        let d = overlay(&doc, e);
        let toc = enc::s(&d, "schema") == "toc";
        let as_ = if toc { "notebook" } else { "section" };
        let fname = if toc { "x.onetoc2" } else { "Section.one" };
        let (b, _) = enc::encode_marked(&d);
        let got = parse_bytes(&b, as_, fname);
        if got["ok"].as_bool() != Some(true) {
            return bad("mismatch", format!("complete file rejected: {got}"), e.clone());
        }
        let mut cut = enc::Rng(b.len() as u64).below(step as u64) as usize;
        while cut < b.len() {
            let got = parse_bytes(&b[..cut], as_, fname);
            n += 1;
            if got.get("panic").is_some() {
                return bad("crash", format!("cut at {cut} of {}: {got}", b.len()), e.clone());
            }
            if got["ok"].as_bool() != Some(false) {
                return bad("mismatch", format!("file cut at {cut} of {} accepted", b.len()), e.clone());
            }
            cut += step;
        }
    }
    ok(n)
}
/// Produce byte-level traces: (bytes, outcome) of the encoded document and of mutants.
fn op_record(c: &Value) -> Value {
    let doc = c.get("doc").cloned().unwrap_or(Value::Null);
    let as_ = c.get("as").and_then(|x| x.as_str()).unwrap_or("section");
    let fname = units(c.get("fname"), "Section.one");
    let base = if c.get("doc").is_some() { enc::encode(&overlay(&doc, c.get("over").unwrap_or(&json!({})))) } else { content_of(c) };
    let mut recs = vec![];
    let mut push = |name: String, b: &[u8]| {
        let got = parse_bytes(b, as_, &fname);
        recs.push(json!({"m": name, "bytes": b, "out": got}));
    };
    if c.get("plain").and_then(|x| x.as_bool()).unwrap_or(true) {
        push("plain".into(), &base);
    }
    let seed = c.get("seed").and_then(|x| x.as_u64()).unwrap_or(1);
    let n = c.get("muts").and_then(|x| x.as_u64()).unwrap_or(0);
    let skip = c.get("from").and_then(|x| x.as_u64()).unwrap_or(16) as usize;
    let mut r = enc::Rng(seed);
    for _ in 0..n {
        let mut b = base.clone();
        let k = 1 + if r.below(4) == 0 { r.below(3) } else { 0 };
        let mut name = String::new();
        for _ in 0..k {
            if b.len() <= skip + 1 {
                break;
            }
            let i = skip + r.below((b.len() - skip) as u64) as usize;
            match r.below(8) {
                0 => {
                    let bit = r.below(8);
                    b[i] ^= 1 << bit;
                    name += &format!("flip {i}.{bit};");
                }
                1 => {
                    let v = [0u8, 1, 0x7f, 0x80, 0xff][r.below(5) as usize];
                    b[i] = v;
                    name += &format!("set {i}={v};");
                }
                2 => {
                    b[i] = b[i].wrapping_add(1);
                    name += &format!("inc {i};");
                }
                3 => {
                    b[i] = b[i].wrapping_sub(1);
                    name += &format!("dec {i};");
                }
                4 => {
                    b.remove(i);
                    name += &format!("del {i};");
                }
                5 => {
                    let v = r.below(256) as u8;
                    b.insert(i, v);
                    name += &format!("ins {i}={v};");
                }
                6 => {
                    // swap or duplicate a block
                    let l = (1 + r.below(24) as usize).min(b.len() - i);
                    let j = skip + r.below((b.len() - skip - l + 1) as u64) as usize;
                    let blk = b[i..i + l].to_vec();
                    b[j..j + l].copy_from_slice(&blk);
                    name += &format!("copy {i}+{l}->{j};");
                }
                _ => {
                    let bit = r.below(8);
                    b[i] ^= 1 << bit;
                    name += &format!("flip {i}.{bit};");
                }
            }
        }
        push(name, &b);
    }
    json!({"verdict":"ok","n":recs.len(),"recs":recs})
}
/// Materialise a directory tree in a scratch directory; returns the directory.
pub fn materialise(tree: &[Value], root: &Path) -> std::io::Result<()> {
    for t in tree {
        let p = root.join(units(t.get("p"), ""));
        if let Some(d) = p.parent() {
            fs::create_dir_all(d)?;
        }
        match enc::s(t, "t") {
            "dir" => fs::create_dir_all(&p)?,
            "deep" => {
                // directories below directories, each with the same files
                let mut d = p;
                for _ in 0..t.get("n").and_then(|x| x.as_u64()).unwrap_or(0) {
                    d.push(units(t.get("name"), "d"));
                    fs::create_dir_all(&d)?;
                    materialise(t.get("files").and_then(|x| x.as_array()).map(|x| &x[..]).unwrap_or(&[]), &d)?;
                }
            }
            "link" => {
                let to = units(t.get("to"), "").replace("@ROOT", &root.to_string_lossy());
                std::os::unix::fs::symlink(to, &p)?
            }
            _ => fs::write(&p, content_of(t))?,
        }
    }
    Ok(())
}
/// Names, types, contents and link targets below a directory.
pub fn snapshot(root: &Path) -> Value {
    let mut m = Map::new();
    fn walk(d: &Path, root: &Path, m: &mut Map<String, Value>) {
        let mut es: Vec<_> = fs::read_dir(d).map(|x| x.flatten().collect()).unwrap_or_default();
        es.sort_by_key(|e| e.path());
        for e in es {
            let p = e.path();
            let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
            let md = fs::symlink_metadata(&p);
            let Ok(md) = md else { continue };
            if md.file_type().is_symlink() {
                m.insert(rel, json!(format!("link {}", fs::read_link(&p).unwrap_or_default().display())));
            } else if md.is_dir() {
                m.insert(rel, json!("dir"));
                walk(&p, root, m);
            } else {
                let t = md.modified().ok().and_then(|t| t.duration_since(std::time::UNIX_EPOCH).ok()).map(|t| t.as_nanos().to_string());
                m.insert(rel, json!([proj::digest(&fs::read(&p).unwrap_or_default()), t]));
            }
        }
    }
    walk(root, root, &mut m);
    Value::Object(m)
}
fn op_notebook(c: &Value) -> Value {
    let d = Scratch::new();
    let root = d.0.join("root");
    let none = vec![];
    if let Err(e) = fs::create_dir_all(&root).and_then(|_| materialise(c.get("tree").and_then(|x| x.as_array()).unwrap_or(&none), &root)) {
        return json!({"verdict":"harness-error","diff":format!("materialise: {e}")});
    }
    let before = snapshot(&root);
    let open = units(c.get("open"), "nb.onetoc2");
    let path = root.join(&open);
    // "rel": the notebook is given as a relative path
    let home = std::env::current_dir();
    let given = match enc::s(c, "rel") {
        "bare" => path.parent().and_then(|d| std::env::set_current_dir(d).ok()).map(|_| PathBuf::from(path.file_name().unwrap_or_default())),
        "dot" => path.parent().and_then(|d| std::env::set_current_dir(d).ok()).map(|_| Path::new(".").join(path.file_name().unwrap_or_default())),
        "sub" => std::env::set_current_dir(&root).ok().map(|_| PathBuf::from(&open)),
        _ => None,
    };
    let path = given.unwrap_or(path);
    let got = guarded(|| Parser::new().parse_notebook(&path).map(|s| proj::notebook(&s)));
    if let Ok(h) = home {
        let _ = std::env::set_current_dir(h);
    }
    if snapshot(&root) != before {
        return bad("mismatch", "parsing changed files".into(), Value::Null);
    }
    let blobs = c.get("blobs").cloned().unwrap_or(Value::Null);
    if let Some((v, m)) = judge(c.get("expect").unwrap_or(&json!({"any":true})), &got, &blobs) {
        return bad(v, m, Value::Null);
    }
    // no marker of outside content may appear
    if let Some(s) = c.get("forbidden") {
        let t = got.to_string();
        for f in s.as_array().unwrap_or(&none) {
            let u: Vec<Value> = units(Some(f), "").encode_utf16().map(|x| json!(x)).collect();
            let pat = Value::Array(u).to_string();
            if t.contains(pat.trim_matches(|c| c == '[' || c == ']')) {
                return bad("mismatch", format!("content from outside: {f}"), Value::Null);
            }
        }
    }
    ok(1)
}
#[path = "session.rs"]
pub mod session;
