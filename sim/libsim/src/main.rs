//! Library worlds: executes a history of library calls given as JSON, in one
//! process, on one or several threads. Everything the harness does for itself
//! happens inside `own(..)`, where the simulator looks away.

use std::cell::RefCell;
use std::collections::btree_map::{BTreeMap, Entry};
use std::fs;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicI32, Ordering};

use serde_json::{json, Value};

use asciidocr::backends::{docx::render_docx, htmls::render_htmlbook};
use asciidocr::graph::asg::Asg;
use asciidocr::parser::Parser;
use asciidocr::scanner::Scanner;

extern "C" {
    fn vsim_ctl(cmd: i32, arg: i64) -> i64;
}
fn ctl(cmd: i32, arg: i64) -> i64 {
    unsafe { vsim_ctl(cmd, arg) }
}
/// The harness' own work, invisible to the simulation
fn own<T>(f: impl FnOnce() -> T) -> T {
    ctl(1, 1);
    let r = f();
    ctl(1, 0);
    r
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static KEPT: RefCell<BTreeMap<String, Rc<RefCell<Asg>>>> = const { RefCell::new(BTreeMap::new()) };
}
static OUT: AtomicI32 = AtomicI32::new(-1);

fn emit(v: Value) {
    own(|| {
        let mut line = serde_json::to_vec(&v).unwrap();
        line.push(b'\n');
        let fd = OUT.load(Ordering::SeqCst);
        let mut f = unsafe { <fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
        f.write_all(&line).unwrap();
        std::mem::forget(f);
    })
}

/// Gives the scheduler a chance wherever the library logs
struct YieldLogger;
impl log::Log for YieldLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = format!("{}", r.args());
        ctl(14, 0);
    }
    fn flush(&self) {}
}

/// A caller's token source that gives up half way
struct Panicking<I> {
    inner: I,
    left: i64,
}
impl<I: Iterator> Iterator for Panicking<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.left == 0 {
            panic!("caller's iterator panicked");
        }
        self.left -= 1;
        ctl(14, 0);
        self.inner.next()
    }
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

fn fds() -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir("/proc/self/fd")
        .unwrap()
        .filter_map(|e| {
            let e = e.ok()?;
            let n: i32 = e.file_name().to_str()?.parse().ok()?;
            if n >= 1000 {
                return None;
            }
            let t = fs::read_link(e.path()).ok()?;
            let t = t.to_string_lossy().into_owned();
            if t.starts_with("/proc/") {
                return None; // the directory being read
            }
            Some(format!("{n}:{t}"))
        })
        .collect();
    v.sort();
    v
}
fn snapshot() -> Value {
    let mut env: Vec<String> = std::env::vars_os().map(|(a, b)| format!("{a:?}={b:?}")).collect();
    env.sort();
    let tasks = fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0);
    let umask = fs::read_to_string("/proc/self/status")
        .ok()
        .and_then(|t| t.lines().find(|l| l.starts_with("Umask")).map(|l| l.to_string()))
        .unwrap_or_default();
    json!({
        "fds": fds(),
        "cwd": std::env::current_dir().map(|d| d.to_string_lossy().into_owned()).unwrap_or("?".into()),
        "env": env.join("\n"),
        "tasks": tasks,
        "umask": umask,
    })
}

/// The calls under test: only library code and what any caller must do
fn parse(op: &Value, text: &str) -> Result<Asg, String> {
    let path = PathBuf::from(s(op, "path"));
    let panic_at = op["panic_at"].as_i64().unwrap_or(-1);
    let e = |e: &dyn std::fmt::Display| e.to_string();
    if s(op, "api") == "fromstr" {
        text.parse::<Asg>().map_err(|x| e(&x))
    } else {
        let mut parser = match s(op, "api") {
            "nores" => Parser::new_no_target_resolution(path),
            "default" => Parser::default(),
            _ => Parser::new(path),
        };
        if panic_at >= 0 {
            parser
                .parse(Panicking { inner: Scanner::new(text), left: panic_at })
                .map_err(|x| e(&x))
        } else {
            parser.parse(Scanner::new(text)).map_err(|x| e(&x))
        }
    }
}
fn render(op: &Value, graph: &Asg) -> Result<String, String> {
    let e = |e: &dyn std::fmt::Display| e.to_string();
    match s(op, "backend") {
        "json" => serde_json::to_string_pretty(graph).map_err(|x| e(&x)),
        "docx" => {
            render_docx(graph, Path::new(s(op, "out"))).map_err(|x| e(&x))?;
            Ok(String::new())
        }
        "count" => Ok(graph.word_count().to_string()),
        _ => render_htmlbook(graph).map_err(|x| e(&x)),
    }
}
/// Both, or one of them on a document this thread keeps
fn convert(op: &Value, text: &str) -> Result<String, String> {
    let slot = || s(op, "slot").to_string();
    match s(op, "only") {
        "parse" => {
            let g = parse(op, text)?;
            // one after the other at the same place
            own(|| {
                KEPT.with(|k| match k.borrow_mut().entry(slot()) {
                    Entry::Occupied(o) => *o.get().borrow_mut() = g,
                    Entry::Vacant(v) => {
                        v.insert(Rc::new(RefCell::new(g)));
                    }
                })
            });
            Ok(String::new())
        }
        "render" => {
            let g = own(|| KEPT.with(|k| k.borrow().get(&slot()).cloned()));
            let g = g.ok_or("not parsed")?;
            let g = g.borrow();
            render(op, &g)
        }
        _ => render(op, &parse(op, text)?),
    }
}

fn run_convert(op: &Value) {
    let text = match op["text"].as_str() {
        Some(t) => Ok(t.to_string()),
        None => own(|| fs::read(s(op, "path"))).and_then(|b| {
            String::from_utf8(b)
                .map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidData, "not UTF-8"))
        }),
    };
    let text = match text {
        Ok(t) => t,
        Err(e) => {
            emit(json!({"id": op["id"], "status": "main", "err": e.to_string()}));
            return;
        }
    };
    let snap = op["snap"].as_bool().unwrap_or(false);
    let before = if snap { own(snapshot) } else { Value::Null };
    let live0 = ctl(10, 0);
    ctl(7, 0);
    let open0 = ctl(6, 0);
    let steps0 = ctl(4, 0);
    if let Some(b) = op["budget"].as_i64() {
        ctl(5, b);
    }
    if let Some(b) = op["mem"].as_i64() {
        ctl(12, b);
    }
    if let Some(b) = op["fd_limit"].as_i64() {
        ctl(13, b);
    }
    ctl(3, op["id"].as_i64().unwrap_or(-1));
    let faults = op["faults"].as_bool();
    if let Some(f) = faults {
        ctl(2, f as i64);
    }
    let r = panic::catch_unwind(AssertUnwindSafe(|| convert(op, &text)));
    if faults.is_some() {
        ctl(2, 0);
    }
    ctl(3, -2);
    if op["budget"].is_i64() {
        ctl(5, 0);
    }
    if op["mem"].is_i64() {
        ctl(12, 0);
    }
    if op["fd_limit"].is_i64() {
        ctl(13, 0);
    }
    let (steps, live, open_max, open1) = (ctl(4, 0) - steps0, ctl(11, 0) - live0, ctl(8, 0), ctl(6, 0));
    let after = if snap { own(snapshot) } else { Value::Null };
    own(|| {
        let (status, out, err) = match r {
            Ok(Ok(o)) => ("ok", o, String::new()),
            Ok(Err(e)) => ("err", String::new(), e),
            Err(cause) => {
                // said by the hook, unless it happened on another thread
                let mut m = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
                if m.is_empty() {
                    m = cause
                        .downcast_ref::<String>()
                        .cloned()
                        .or(cause.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                }
                ("panic", String::new(), m)
            }
        };
        let mut v = json!({
            "id": op["id"], "status": status, "err": err, "steps": steps, "live": live,
            "open_before": open0, "open_after": open1, "open_max": open_max,
        });
        if status == "ok" && s(op, "backend") == "docx" && s(op, "only") != "parse" && op["quiet"] != true {
            match docx_text(s(op, "out")) {
                Ok(t) => v["out"] = json!(t),
                Err(e) => v["out"] = json!(format!("damaged docx: {e}")),
            }
        } else if status == "ok" && !op["quiet"].as_bool().unwrap_or(false) {
            v["out"] = json!(out);
        }
        if snap {
            v["before"] = before;
            v["after"] = after;
        }
        emit(v)
    });
}

/// The numbers an identifier-like prefix is followed by, replaced by their order of appearance
fn renumber(text: &str, prefix: &str, seen: &mut Vec<String>) -> String {
    let mut out = String::with_capacity(text.len());
    let mut rest = text;
    while let Some(i) = rest.find(prefix) {
        let after = &rest[i + prefix.len()..];
        let n = after.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(after.len());
        let id = after[..n].to_string();
        let k = seen.iter().position(|s| *s == id).unwrap_or_else(|| {
            seen.push(id);
            seen.len() - 1
        });
        out.push_str(&rest[..i + prefix.len()]);
        out.push_str(&k.to_string());
        rest = &after[n..];
    }
    out.push_str(rest);
    out
}

/// A docx file as text: the docx library numbers paragraphs and pictures process-wide
fn docx_text(path: &str) -> Result<String, String> {
    let f = fs::File::open(path).map_err(|e| format!("open: {e}"))?;
    let mut z = zip::ZipArchive::new(f).map_err(|e| format!("archive: {e}"))?;
    let mut parts = vec![];
    for i in 0..z.len() {
        let mut e = z.by_index(i).map_err(|e| format!("entry: {e}"))?;
        let mut b = vec![];
        std::io::Read::read_to_end(&mut e, &mut b).map_err(|e| format!("entry: {e}"))?;
        parts.push((e.name().to_string(), String::from_utf8_lossy(&b).into_owned()));
    }
    parts.sort_by_key(|p| (p.0 != "word/document.xml", p.0.clone()));
    let prefixes = ["paraId=\"", "docPr id=\"", "cNvPr id=\"", "rIdImage"];
    let mut seen = vec![vec![]; prefixes.len()];
    let mut out: Vec<String> = parts
        .iter()
        .map(|(n, t)| {
            let mut s = format!("<<{n}>>{t}");
            for (k, p) in prefixes.iter().enumerate() {
                s = renumber(&s, p, &mut seen[k]);
            }
            s
        })
        .collect();
    out[1..].sort();
    Ok(out.join("\n"))
}

fn edit(op: &Value) {
    let p = s(op, "path");
    let data = match op["hex"].as_str() {
        Some(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect(),
        None => s(op, "data").as_bytes().to_vec(),
    };
    match s(op, "kind") {
        "write" => {
            // as an editor would: a new file in place of the old one
            let tmp = format!("{p}.edit~");
            if fs::write(&tmp, &data).is_ok() {
                // even the time stamp may stay the same
                let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(op["mtime"].as_u64().unwrap_or(1_600_000_000));
                let _ = fs::File::options().write(true).open(&tmp).and_then(|f| f.set_modified(t));
                if op["in_place"].as_bool().unwrap_or(false) {
                    let _ = fs::write(p, &data);
                    let _ = fs::File::options().write(true).open(p).and_then(|f| f.set_modified(t));
                    let _ = fs::remove_file(&tmp);
                } else {
                    let _ = fs::rename(&tmp, p).or_else(|_| fs::remove_file(&tmp));
                }
            }
        }
        "unlink" => {
            let _ = fs::remove_file(p);
        }
        "mkdir" => {
            let _ = fs::remove_file(p);
            let _ = fs::create_dir(p);
        }
        "link" => {
            let _ = fs::remove_file(p);
            let _ = std::os::unix::fs::symlink(s(op, "data"), p);
        }
        "rmdir" => {
            let _ = fs::remove_dir(p);
        }
        "chdir" => {
            let _ = std::env::set_current_dir(p);
        }
        _ => {}
    }
}

fn run_ops(ops: &[Value]) {
    for op in ops {
        match s(op, "op") {
            "convert" => run_convert(op),
            "edit" => own(|| edit(op)),
            "heap" => emit(json!({"id": op["id"], "heap": ctl(17, 0)})),
            "ctl" => {
                ctl(op["cmd"].as_i64().unwrap() as i32, op["arg"].as_i64().unwrap());
            }
            _ => panic!("unknown op"),
        }
    }
}

fn main() {
    ctl(1, 1);
    let args: Vec<String> = std::env::args().collect();
    let script: Value = serde_json::from_slice(&fs::read(&args[1]).expect("script")).expect("script");
    let out = fs::File::create(&args[2]).expect("result file");
    // out of the way of the descriptors the library may use
    extern "C" {
        fn dup2(a: i32, b: i32) -> i32;
    }
    OUT.store(unsafe { dup2(out.as_raw_fd(), 1020) }, Ordering::SeqCst);
    drop(out);
    panic::set_hook(Box::new(|i| {
        own(|| {
            let m = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{m} at {at}"));
        })
    }));
    let _ = log::set_logger(&YieldLogger);
    log::set_max_level(log::LevelFilter::Warn);
    let empty = vec![];
    let main_ops = script["main"].as_array().unwrap_or(&empty);
    let threads = script["threads"].as_array().unwrap_or(&empty);
    let after = script["after"].as_array().unwrap_or(&empty);
    ctl(1, 0);
    run_ops(main_ops);
    if !threads.is_empty() {
        std::thread::scope(|sc| {
            for t in threads {
                let ops = t.as_array().unwrap();
                sc.spawn(move || run_ops(ops));
            }
        });
    }
    run_ops(after);
    emit(json!({"done": true}));
}
