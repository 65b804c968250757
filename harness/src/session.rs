//! Sessions: sequences of parses, alone and side by side, between changes of the files.
use super::*;
use std::collections::HashMap;
use std::sync::{Arc, Barrier, OnceLock};

struct Lib {
    docs: Map<String, Value>,
    expects: Map<String, Value>,
    bytes: Mutex<HashMap<String, Arc<Vec<u8>>>>,
}
static LIB: OnceLock<Arc<Lib>> = OnceLock::new();
fn make(v: &Value) -> Lib {
    let m = |k: &str| v.get(k).and_then(|x| x.as_object()).cloned().unwrap_or_default();
    Lib { docs: m("contents"), expects: m("expects"), bytes: Mutex::new(HashMap::new()) }
}
impl Lib {
    fn content(&self, name: &str) -> Arc<Vec<u8>> {
        let mut m = self.bytes.lock().unwrap();
        m.entry(name.to_string()).or_insert_with(|| Arc::new(content_of(self.docs.get(name).unwrap_or(&Value::Null)))).clone()
    }
    /// `{"$of": name}` stands for a value of the library.
    fn subst(&self, v: &Value) -> Value {
        match v {
            Value::Object(m) => match m.get("$of").and_then(|x| x.as_str()) {
                Some(n) => {
                    let blobs = self.docs.get(n.split('@').next().unwrap_or("")).and_then(|d| d["doc"].get("blobs")).cloned().unwrap_or(Value::Null);
                    canon::norm(self.expects.get(n).unwrap_or(&Value::Null), &blobs)
                }
                None => Value::Object(m.iter().map(|(k, v)| (k.clone(), self.subst(v))).collect()),
            },
            Value::Array(a) => Value::Array(a.iter().map(|x| self.subst(x)).collect()),
            o => o.clone(),
        }
    }
}

struct Wrap<T>(std::marker::PhantomData<T>);
trait NotShared {
    fn shared(&self) -> bool {
        false
    }
}
impl<T> NotShared for Wrap<T> {}
impl<T: Send + Sync> Wrap<T> {
    #[allow(dead_code)]
    fn shared(&self) -> bool {
        true
    }
}
struct Share(Parser);
// only used when `Wrap(Parser)` says that it may be
unsafe impl Send for Share {}
unsafe impl Sync for Share {}
impl Share {
    fn get(&self) -> &Share {
        self
    }
}

pub fn env_dirs() -> Vec<PathBuf> {
    ["TMPDIR", "HOME", "XDG_CACHE_HOME"].iter().filter_map(|k| std::env::var(k).ok().map(PathBuf::from)).collect()
}
fn outside() -> Value {
    if std::env::var("VH_OWN").is_err() {
        return Value::Null;
    }
    let mut v: Vec<Value> = env_dirs().iter().map(|d| snapshot(d)).collect();
    v.extend(std::env::current_dir().map(|d| snapshot(&d)));
    Value::Array(v)
}
fn call(parser: &Parser, lib: &Lib, c: &Value, root: &Path) -> Value {
    let f = root.join(units(c.get("f"), ""));
    match enc::s(c, "m") {
        "buffer" => {
            let b = lib.content(enc::s(c, "c"));
            guarded(|| parser.parse_section_buffer(&b, Path::new(&units(c.get("n"), "A.one"))).map(|s| proj::section(&s)))
        }
        "file" => guarded(|| parser.parse_section(&f).map(|s| proj::section(&s))),
        _ => guarded(|| parser.parse_notebook(&f).map(|s| proj::notebook(&s))),
    }
}
fn write(path: &Path, data: Option<&[u8]>, keep: bool) -> std::io::Result<()> {
    let Some(data) = data else { return fs::remove_file(path) };
    let old = fs::metadata(path).and_then(|m| m.modified()).ok();
    fs::write(path, data)?;
    if let (true, Some(t)) = (keep, old) {
        fs::File::options().write(true).open(path)?.set_modified(t)?;
    }
    Ok(())
}
/// A thread that runs one job after the other.
struct Worker(std::sync::mpsc::Sender<(Job, std::sync::mpsc::Sender<Vec<Value>>)>);
type Job = Box<dyn FnOnce() -> Vec<Value> + Send>;
impl Worker {
    fn new() -> Worker {
        let (tx, rx) = std::sync::mpsc::channel::<(Job, std::sync::mpsc::Sender<Vec<Value>>)>();
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                for (job, out) in rx {
                    let _ = out.send(job());
                }
            })
            .unwrap();
        Worker(tx)
    }
    fn run(&self, job: Job) -> std::sync::mpsc::Receiver<Vec<Value>> {
        let (tx, rx) = std::sync::mpsc::channel();
        let _ = self.0.send((job, tx));
        rx
    }
}
pub fn op_session(c: &Value) -> Value {
    let lib = match c.get("lib") {
        Some(l) => {
            Arc::new(make(l))
        }
        None => LIB.get_or_init(|| Arc::new(make(&serde_json::from_str(&fs::read_to_string(std::env::var("VH_LIB").unwrap_or_default()).unwrap_or_default()).unwrap_or(Value::Null)))).clone(),
    };
    if lib.docs.is_empty() {
        return json!({"verdict":"harness-error","diff":"no library"});
    }
    let d = Scratch::new();
    let root = d.0.join("root");
    let list = |v: &Value, k: &str| v.get(k).and_then(|x| x.as_array()).cloned().unwrap_or_default();
    #[allow(unused_imports)]
    use NotShared as _;
    if !Wrap::<Parser>(std::marker::PhantomData).shared() {
        return bad("mismatch", "a parser cannot be shared between threads".into(), Value::Null);
    }
    let parser = Arc::new(Share(Parser::new()));
    let most = list(c, "steps").iter().map(|s| list(s, "calls").len()).max().unwrap_or(0);
    let threads: Vec<Worker> = (0..most.max(1)).map(|_| Worker::new()).collect();
    let mut n = 0;
    let mut before = (Value::Null, outside());
    let mut seen: HashMap<String, Value> = HashMap::new();
    for (k, st) in list(c, "steps").iter().enumerate() {
        if let Some(w) = st.get("w").and_then(|x| x.as_array()) {
            for x in w {
                let p = root.join(units(x.get("p"), ""));
                let content = enc::s(x, "c");
                let r = p.parent().map(fs::create_dir_all).unwrap_or(Ok(())).and_then(|_| {
                    let data = (content != "none").then(|| lib.content(content));
                    if data.is_none() && !p.exists() {
                        return Ok(());
                    }
                    write(&p, data.as_ref().map(|d| &d[..]), x.get("keep").and_then(|x| x.as_bool()).unwrap_or(false))
                });
                if let Err(e) = r {
                    return json!({"verdict":"harness-error","diff":format!("write: {e}")});
                }
            }
            before.0 = snapshot(&root);
            continue;
        }
        let calls = list(st, "calls");
        let barrier = Arc::new(Barrier::new(calls.len()));
        let outs: Vec<Vec<Value>> = calls
            .iter()
            .enumerate()
            .map(|(t, cl)| {
                let reps = cl.get("rep").and_then(|x| x.as_u64()).unwrap_or(1);
                let (parser, barrier, root, lib, cl) = (parser.clone(), barrier.clone(), root.clone(), lib.clone(), cl.clone());
                // the threads live as long as the session; they take turns
                threads[(t + k) % threads.len()].run(Box::new(move || {
                    let own = Parser::new();
                    barrier.wait();
                    (0..reps).map(|r| call(if (r as usize + t + k) % 3 == 2 { &own } else { &parser.get().0 }, &lib, &cl, &root)).collect()
                }))
            })
            .collect::<Vec<_>>()
            .into_iter()
            .map(|h| h.recv().unwrap_or_default())
            .collect();
        for (cl, os) in calls.iter().zip(&outs) {
            if os.is_empty() {
                return bad("crash", "a parse ended its thread".into(), json!([k]));
            }
            let expect = lib.subst(cl.get("expect").unwrap_or(&Value::Null));
            let key = cl.get("key").unwrap_or(&Value::Null).to_string();
            for got in os {
                n += 1;
                if let Some((v, m)) = judge(&expect, got, &Value::Null) {
                    return bad(v, format!("step {k}, {}: {m}", enc::s(cl, "m")), Value::Null);
                }
                let first = seen.entry(key.clone()).or_insert_with(|| got.clone());
                if first != got {
                    return bad("mismatch", format!("step {k}: the same input gave another result than before: {}", got["msg"]), Value::Null);
                }
            }
        }
        if snapshot(&root) != before.0 {
            return bad("mismatch", format!("step {k}: parsing changed files"), Value::Null);
        }
        if outside() != before.1 {
            return bad("mismatch", format!("step {k}: parsing wrote files"), Value::Null);
        }
    }
    ok(n)
}
