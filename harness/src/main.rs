//! vh: replays cases generated by the specification through the real parser (onenote_parser) and
//! records outcomes of the real parser for validation by the specification.
mod canon;
mod enc;
mod ops;
mod proj;
mod tables;

use serde_json::{json, Value};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| &x[..]) {
        Some("worker") => worker(),
        Some("pool") => pool(&a[2..]),
        Some("encode") => {
            let mut t = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).unwrap();
            let doc: Value = serde_json::from_str(&t).unwrap();
            std::io::stdout().write_all(&enc::encode(&doc)).unwrap();
        }
        Some("view") => {
            let data = std::fs::read(&a[2]).unwrap();
            let r = ops::parse_bytes(&data, a.get(3).map(|x| &x[..]).unwrap_or("section"), "Section.one");
            println!("{r}");
        }
        _ => {
            eprintln!("usage: vh worker | pool [-j N] [-t MS] CASES RESULTS | encode | view FILE [section|notebook]");
            std::process::exit(2);
        }
    }
}

/// One case per input line, one result per output line.
fn worker() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    // directories of its own for everything that a process may write to
    let base = std::env::var("VH_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let own = base.join(format!("vhw-{}", std::process::id()));
    for (k, d) in [("TMPDIR", "tmp"), ("HOME", "home"), ("XDG_CACHE_HOME", "cache"), ("VH_OWN", "cwd")] {
        std::fs::create_dir_all(own.join(d)).expect("scratch");
        std::env::set_var(k, own.join(d));
    }
    std::env::set_var("VH_SCRATCH", &base);
    std::env::set_current_dir(own.join("cwd")).expect("scratch");
    std::panic::set_hook(Box::new(|i| {
        if let Some(l) = i.location() {
            ops::LAST_PANIC.lock().map(|mut p| *p = format!("{}:{} {}", l.file(), l.line(), ops::payload(i.payload()))).ok();
        }
    }));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let r = match serde_json::from_str::<Value>(&line) {
            // the default stack of a Rust thread
            Ok(case) => std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || ops::run(&case))
                .unwrap()
                .join()
                .unwrap_or_else(|_| json!({"verdict":"crash","diff": format!("panic {}", ops::LAST_PANIC.lock().map(|p| p.clone()).unwrap_or_default())})),
            Err(e) => json!({"verdict":"harness-error","diff": format!("bad case: {e}")}),
        };
        let _ = writeln!(out, "{r}");
        let _ = out.flush();
    }
    let _ = std::fs::remove_dir_all(own);
}
/// What a worker that died has left.
fn sweep(pid: u32) {
    let base = std::env::var("VH_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let (own, cases) = (format!("vhw-{pid}"), format!("vh-{pid}-"));
    for e in std::fs::read_dir(&base).into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n == own || n.starts_with(&cases) {
            let _ = std::fs::remove_dir_all(e.path());
        }
    }
}

struct W {
    child: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<String>,
}
fn spawn() -> W {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe).arg("worker").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let stdin = child.stdin.take().unwrap();
    let so = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    W { child, stdin, rx }
}
fn pool(a: &[String]) {
    let mut jobs = 8usize;
    let mut ms = 20000u64;
    let mut files = vec![];
    let mut i = 0;
    while i < a.len() {
        match &a[i][..] {
            "-j" => {
                jobs = a[i + 1].parse().unwrap();
                i += 1;
            }
            "-t" => {
                ms = a[i + 1].parse().unwrap();
                i += 1;
            }
            f => files.push(f.to_string()),
        }
        i += 1;
    }
    let input = BufReader::new(std::fs::File::open(&files[0]).unwrap());
    let lines = Arc::new(Mutex::new(input.lines().enumerate()));
    let out = Arc::new(Mutex::new(BufWriter::new(std::fs::File::create(&files[1]).unwrap())));
    let start = Instant::now();
    let hs: Vec<_> = (0..jobs)
        .map(|_| {
            let (lines, out) = (lines.clone(), out.clone());
            std::thread::spawn(move || {
                let mut w = spawn();
                loop {
                    let next = lines.lock().unwrap().next();
                    let Some((no, line)) = next else { break };
                    let line = line.unwrap();
                    if line.trim().is_empty() {
                        continue;
                    }
                    let sent = w.stdin.write_all(line.as_bytes()).and_then(|_| w.stdin.write_all(b"\n")).and_then(|_| w.stdin.flush());
                    let mut r = match (sent, w.rx.recv_timeout(Duration::from_millis(ms))) {
                        (_, Ok(l)) => serde_json::from_str(&l).unwrap_or_else(|_| json!({"verdict":"harness-error","diff":"bad worker output"})),
                        (_, Err(mpsc::RecvTimeoutError::Timeout)) => {
                            let _ = w.child.kill();
                            let _ = w.child.wait();
                            sweep(w.child.id());
                            w = spawn();
                            json!({"verdict":"timeout","diff":format!("no result within {ms} ms")})
                        }
                        _ => {
                            let st = w.child.wait().map(|s| format!("{s}")).unwrap_or_default();
                            sweep(w.child.id());
                            w = spawn();
                            json!({"verdict":"crash","diff":format!("worker died: {st}")})
                        }
                    };
                    r["line"] = json!(no);
                    if r.get("id").is_none() {
                        let id = serde_json::from_str::<Value>(&line).ok().and_then(|c| c.get("id").cloned()).unwrap_or(json!(no));
                        r["id"] = id;
                    }
                    writeln!(out.lock().unwrap(), "{r}").unwrap();
                }
                drop(w.stdin);
                let _ = w.child.wait();
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    out.lock().unwrap().flush().unwrap();
    eprintln!("pool: {:.1}s", start.elapsed().as_secs_f64());
}
