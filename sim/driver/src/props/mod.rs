//! The properties: a generator of scenarios and an oracle each.

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::case::{cfg, Case, Eval, Prop};
use crate::gen::{self, Call, World, WorldOpts};
use crate::rng::Rng;
use crate::run::{Cfg, Cmd, EditSpec, Out, Pf, Worker};
use crate::tree::{self, Bytes, Node, Tree};

mod cli;
mod damage;
mod env;
mod files;
mod incl;
mod lib;
mod more;

pub const REAL: &str = "real code: the command line program or the library with all its dependencies, the allocator, and the kernel's file system (tmpfs); simulated at the libc boundary: results of file and stream calls, entropy, clock, process id, unset environment variables, thread scheduling, process death; stubbed out: nothing";

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(cli::props());
    v.extend(damage::props());
    v.extend(env::props());
    v.extend(files::props());
    v.extend(incl::props());
    v.extend(lib::props());
    v.extend(more::props());
    v.sort_by_key(|p| p.id);
    v
}

/// What a case's oracle needs to know about its world and command
#[derive(Clone, Serialize, Deserialize, Default, Debug)]
#[serde(default)]
pub struct Meta {
    pub main: String,
    pub dest: Option<String>,
    pub backend: String,
    pub count: bool,
    pub nores: bool,
    pub stdin: bool,
    pub includes: Vec<(String, String, String)>,
    pub images: Vec<(String, String, String)>,
}
impl Meta {
    pub fn new(w: &World, c: &Call) -> Meta {
        Meta {
            main: w.main.clone(),
            dest: c.dest.clone(),
            backend: c.backend.clone(),
            count: c.count,
            nores: c.nores,
            stdin: c.stdin,
            includes: w.includes.clone(),
            images: w.images.clone(),
        }
    }
    pub fn of(c: &Case) -> Meta {
        serde_json::from_value(c.p.clone()).unwrap_or_default()
    }
    pub fn value(&self) -> Value {
        json!(self)
    }
}

pub fn backend(r: &mut Rng) -> &'static str {
    match r.below(10) {
        0..=3 => "htmlbook",
        4..=6 => "json",
        _ => "docx",
    }
}

/// A world and one way of calling the converter on it
pub fn scenario(r: &mut Rng, o: Option<WorldOpts>) -> (World, Call) {
    let b = backend(r);
    let mut o = o.unwrap_or(WorldOpts { docx: false, warn: r.chance(30), max_includes: 5, max_images: 2, big: r.chance(4), plain: false });
    o.docx = b == "docx";
    let w = gen::world(r, &o);
    let c = gen::call(r, &w, b);
    (w, c)
}

/// Content an earlier run or somebody else may have left at the output path
pub fn leftover(r: &mut Rng) -> Bytes {
    match r.below(6) {
        0 => "".into(),
        1 => "old output\n".into(),
        4 => format!("<!-- {} -->\n{} old\n", crate::dict::word(r), crate::dict::name(r)).into(),
        2 => format!("<html>{}</html>", "stale ".repeat(r.range(1, 20000))).into(),
        3 => Bytes((0..r.range(1, 3000)).map(|_| r.below(256) as u8).collect()),
        _ => "PK\u{3}\u{4}not really".into(),
    }
}

/// Faults a correct program never shows: short transfers and interruptions
pub fn benign(r: &mut Rng, c: &mut Cfg) {
    c.max_faults = *r.pick(&[3, 40, 1500]);
    c.short_mode = r.below(4) as u32;
    let all = r.chance(30);
    for op in ["read", "readin", "write", "writeout", "writeerr"] {
        for act in ["short", "eintr"] {
            if all || r.chance(55) {
                c.rates.push((op.into(), act.into(), *r.pick(&[1500, 8000, 20000, 30000])));
            }
        }
    }
    if r.chance(30) {
        c.ns_step = *r.pick(&[1, 5_000, 2_000_000]);
        for op in ["openr", "read", "readin", "write", "writeout"] {
            if r.chance(40) {
                c.rates.push((op.into(), "delay".into(), *r.pick(&[1500, 20000])));
            }
        }
    }
    for op in ["openr", "openw"] {
        if r.chance(40) {
            c.rates.push((op.into(), "eintr".into(), *r.pick(&[3000, 20000])));
        }
    }
}

pub const READ_OPS: &[&str] = &["openr", "read", "readin", "stat", "realpath", "getcwd", "seek"];
pub const WRITE_OPS: &[&str] = &["openw", "write", "writeout", "name", "sync"];

/// A few failures of individual calls
pub fn hard(r: &mut Rng, c: &mut Cfg, ops: &[&str]) {
    c.max_faults = r.range(1, 3) as u32;
    let rate = *r.pick(&[1500u16, 4000, 10000, 25000]);
    let mut any = false;
    while !any {
        for op in ops {
            if r.chance(50) {
                any = true;
                c.rates.push((op.to_string(), "errno".into(), rate));
            }
            if (*op == "write" || *op == "writeout") && r.chance(25) {
                c.rates.push((op.to_string(), "zero".into(), rate));
            }
        }
    }
}

/// A file or stream that fails from some moment on
pub fn path_fault(r: &mut Rng, paths: &[String], write: bool) -> Pf {
    let (ops, errs): (&[&str], &[i32]) = if write {
        (&["write", "writeout"], &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EPIPE, libc::EAGAIN])
    } else {
        match r.below(3) {
            0 => (&["openr"], &[libc::EACCES, libc::ENOENT, libc::EIO, libc::EMFILE]),
            1 => (&["read", "readin"], &[libc::EIO, libc::EISDIR, libc::ESTALE, libc::EAGAIN]),
            _ => (&["openr", "read", "stat", "realpath"], &[libc::EIO, libc::EACCES]),
        }
    };
    Pf {
        path: r.pick(paths).clone(),
        ops: ops.iter().map(|s| s.to_string()).collect(),
        err: *r.pick(errs),
        from_ev: if r.chance(50) { 0 } else { r.below(60) as u32 },
    }
}

/// Everything a conversion of the world reads
pub fn sources(w: &World) -> Vec<String> {
    let mut v = vec![w.main.clone(), "<stdin>".to_string()];
    v.extend(w.includes.iter().map(|i| i.2.clone()));
    v.extend(w.images.iter().map(|i| i.2.clone()));
    v.sort();
    v.dedup();
    v
}

/// Runs the command on exactly these files
pub fn one(w: &mut Worker, t: &Tree, cmd: &Cmd, c: &Cfg) -> (Out, Tree) {
    w.reset(t);
    let o = w.cli(cmd, c);
    let after = w.snapshot();
    (o, after)
}

/// The undisturbed run of a case's first command
pub fn baseline(w: &mut Worker, c: &Case, e: &mut Eval) -> (Out, Tree) {
    let (o, t) = one(w, &c.tree, &c.cmds[0], &Cfg::default());
    e.note(None, &o);
    if std::env::var("VSIM_DEBUG").is_ok() && !o.ok() {
        eprintln!("BASE {} {} {:?} {:?}", Meta::of(c).backend, o.status(), o.err_text().lines().find(|l| l.contains("panicked") || l.contains("Error conv")), c.seed);
    }
    (o, t)
}

pub fn dest_bytes<'a>(t: &'a Tree, dest: &Option<String>) -> Option<&'a [u8]> {
    dest.as_ref().and_then(|d| tree::bytes(t, d))
}

pub fn describe(a: Option<&[u8]>, b: Option<&[u8]>) -> String {
    match (a, b) {
        (Some(a), Some(b)) => {
            let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
            let cut = |s: &[u8]| String::from_utf8_lossy(&s[k.saturating_sub(20)..(k + 60).min(s.len())]).into_owned();
            format!("{} bytes instead of {}, different from byte {k}: {:?} instead of {:?}", b.len(), a.len(), cut(b), cut(a))
        }
        (None, Some(b)) => format!("exists with {} bytes, should not exist", b.len()),
        (Some(a), None) => format!("does not exist, should hold {} bytes", a.len()),
        _ => "?".into(),
    }
}

pub fn injected(o: &Out) -> String {
    let mut m = std::collections::BTreeMap::new();
    o.fault_kinds(&mut m);
    format!("{m:?}")
}

/// A block that makes conversions fail
pub const REJECTED: &[&str] = &["====== Too deep\n\ntext\n", "|===\n|===\n", "include::nowhere.adoc[]\n", "image::nowhere.png[]\n"];

pub fn edit(kind: &str, path: &str, data: impl Into<Bytes>) -> EditSpec {
    EditSpec { kind: kind.into(), path: path.into(), data: data.into() }
}

pub fn new_case(id: &str, w: &World, c: &Call) -> Case {
    let mut k = Case::new(id, w.tree.clone());
    k.cmds.push(c.cmd.clone());
    k.p = Meta::new(w, c).value();
    k
}

#[allow(dead_code)]
pub fn put_file(t: &mut Tree, p: &str, b: Bytes) {
    t.insert(p.to_string(), Node::File(b));
}

pub fn disturbed(r: &mut Rng) -> Cfg {
    let mut c = cfg(r);
    // should the program have threads, they take turns
    if r.chance(60) {
        scheduled(r, &mut c);
    }
    c
}

/// Threads take turns at random
pub fn scheduled(r: &mut Rng, c: &mut Cfg) {
    c.gap_mean = *r.pick(&[100, 1000, 10_000, 200_000]);
    c.io_switch = *r.pick(&[0, 8000, 30000]);
    c.cold_switch = *r.pick(&[0, 600, 12000]);
}

/// A library conversion of a file below the root
pub fn conv(id: usize, api: &str, path: &str, backend: &str) -> Value {
    json!({
        "op": "convert", "id": id, "api": api, "path": format!("@ROOT@/{path}"),
        "backend": if backend == "htmlbook" { "html" } else { backend },
        "out": format!("@ROOT@/out-{id}.docx"),
    })
}
pub fn lib_edit(kind: &str, path: &str, data: &str) -> Value {
    json!({"op": "edit", "kind": kind, "path": format!("@ROOT@/{path}"), "data": data})
}
pub fn below_root(v: &Value) -> &str {
    let p = v.as_str().unwrap_or("");
    p.strip_prefix("@ROOT@/").unwrap_or(if p == "@ROOT@" { "" } else { p })
}
pub fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// What an edit of a history does to the files, seen from outside
pub fn apply(t: &mut Tree, cwd: &mut String, op: &Value) {
    let p = below_root(&op["path"]).to_string();
    match op["kind"].as_str().unwrap_or("") {
        "write" => {
            let b = match op["hex"].as_str() {
                Some(h) => Bytes(unhex(h)),
                None => op["data"].as_str().unwrap_or("").into(),
            };
            if !matches!(t.get(&p), Some(Node::Dir)) {
                t.insert(p, Node::File(b));
            }
        }
        "unlink" => {
            if !matches!(t.get(&p), Some(Node::Dir)) {
                t.remove(&p);
            }
        }
        "mkdir" => {
            t.insert(p, Node::Dir);
        }
        "link" => {
            if !matches!(t.get(&p), Some(Node::Dir)) {
                t.insert(p, Node::Link(op["data"].as_str().unwrap_or("").into()));
            }
        }
        "rmdir" => {
            if matches!(t.get(&p), Some(Node::Dir)) {
                t.remove(&p);
            }
        }
        "chdir" => *cwd = p,
        _ => {}
    }
}

/// The steps of a history as the harness' script
pub fn script(hist: &[Value]) -> Value {
    let n = hist.iter().filter_map(|h| h["thr"].as_u64()).max().unwrap_or(0) as usize;
    let of = |f: &dyn Fn(&Value) -> bool| hist.iter().filter(|h| f(h)).cloned().collect::<Vec<Value>>();
    let threads: Vec<Value> = (1..=n).map(|k| json!(of(&|h| h["thr"].as_u64() == Some(k as u64)))).collect();
    json!({
        "main": of(&|h| h["thr"].as_u64().is_none() && h["after"] != true),
        "threads": threads,
        "after": of(&|h| h["after"] == true),
    })
}

/// The same conversion alone in a fresh process
pub fn fresh(w: &mut Worker, e: &mut Eval, t: &Tree, cwd: &str, op: &Value, c: &Cfg) -> Value {
    let mut op = op.clone();
    for k in ["faults", "panic_at", "snap", "budget", "mem", "fd_limit", "thr", "after"] {
        op.as_object_mut().unwrap().remove(k);
    }
    w.reset(t);
    let o = w.lib(&json!({"main": [op]}), cwd, c);
    e.note_lib(None, &o);
    o.get(op["id"].as_i64().unwrap_or(-1)).cloned().unwrap_or_else(|| json!({"status": o.out.status()}))
}

pub fn same(a: &Value, b: &Value) -> bool {
    a["status"] == b["status"] && a["out"] == b["out"] && a["err"] == b["err"]
}
pub fn outcome(v: &Value) -> String {
    let t = |x: &Value| crate::case::short(x.as_str().unwrap_or(""), 160);
    format!("{} {:?}", t(&v["status"]), if v["status"] == "ok" { t(&v["out"]) } else { t(&v["err"]) })
}
/// Where two results part
pub fn result_diff(want: &Value, got: &Value) -> String {
    match (want["out"].as_str(), got["out"].as_str()) {
        (Some(a), Some(b)) => describe(Some(a.as_bytes()), Some(b.as_bytes())),
        _ => format!("{} instead of {}", outcome(got), outcome(want)),
    }
}

/// Targets, as written, that a plain document names and that are not there
pub fn missing_targets(t: &Tree, dir: &str, text: &[u8], depth: usize) -> Vec<String> {
    let mut out = vec![];
    let mut blank = true;
    for l in String::from_utf8_lossy(text).lines() {
        // elsewhere the converter takes it for text
        let own_block = std::mem::replace(&mut blank, l.is_empty() || gen::WRAPS.contains(&l));
        if !own_block {
            continue;
        }
        let inc = l.strip_prefix("include::");
        let Some(x) = inc.or(l.strip_prefix("image::")).and_then(|x| x.split_once('[')) else { continue };
        let p = gen::normalise(&gen::join(dir, x.0));
        // a step back from nowhere leads nowhere
        if let Some((first, _)) = x.0.split_once("/../") {
            let d = gen::normalise(&gen::join(dir, first));
            if !first.starts_with("..") && !t.keys().any(|k| *k == d || k.starts_with(&format!("{d}/"))) {
                out.push(x.0.to_string());
                continue;
            }
        }
        match t.get(&p) {
            Some(Node::File(b)) => {
                if inc.is_some() && depth > 0 {
                    out.extend(missing_targets(t, gen::dirname(&p), &b.0, depth - 1));
                }
            }
            Some(Node::Link(_)) => {}
            _ => out.push(x.0.to_string()),
        }
    }
    out
}
