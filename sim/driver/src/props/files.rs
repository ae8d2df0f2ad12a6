//! Properties about what a run leaves on the file system and on its streams.

use super::*;
use crate::run::find;
use std::os::unix::fs::PermissionsExt;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P02",
            gen: gen_p02,
            eval: eval_p02,
            cases: (2500, 100_000),
            rule: "a case counts if at least one of its disturbed conversions failed",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P03",
            gen: gen_p03,
            eval: eval_p03,
            cases: (2500, 100_000),
            rule: "every case counts in which at least one run ended by itself",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P04",
            gen: gen_p04,
            eval: eval_p04,
            cases: (1500, 60_000),
            rule: "a case counts if the first conversion succeeds; its other runs differ in hash seed, clock, process id, environment and memory layout",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P11",
            gen: gen_p11,
            eval: eval_p11,
            cases: (2000, 80_000),
            rule: "a case counts if the clean conversion succeeds and a run was killed or the output path held something before the last run",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P12",
            gen: gen_p12,
            eval: eval_p12,
            cases: (2000, 80_000),
            rule: "a case counts if the undisturbed conversion succeeds, or one of its runs reported an error or a warning",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P14",
            gen: gen_p14,
            eval: eval_p14,
            cases: (1200, 50_000),
            rule: "a case counts if the document has an include or image target and was converted from at least two places or spellings",
            real: REAL,
            shrink_files: true,
        },
    ]
}

// ---------------------------------------------------------------- P02

/// Makes a world's conversion fail for a lasting reason
pub fn spoil(r: &mut Rng, w: &mut World) {
    let add = |t: &mut Tree, p: &str, s: &[u8], front: bool| {
        let mut b = tree::bytes(t, p).unwrap_or(&[]).to_vec();
        if front {
            let mut n = s.to_vec();
            n.extend(b);
            b = n;
        } else {
            b.extend_from_slice(b"\n\n");
            b.extend_from_slice(s);
        }
        t.insert(p.to_string(), Node::File(Bytes(b)));
    };
    let mut docs = vec![w.main.clone()];
    docs.extend(w.includes.iter().filter(|i| !i.2.ends_with(".rs") && !i.2.ends_with(".py") && !i.2.ends_with(".xml")).map(|i| i.2.clone()));
    let at = r.pick(&docs).clone();
    let mut targets: Vec<String> = w.includes.iter().chain(&w.images).map(|i| i.2.clone()).collect();
    targets.sort();
    targets.dedup();
    match r.below(7) {
        0 | 1 if !targets.is_empty() => {
            w.tree.remove(r.pick(&targets));
        }
        2 if !targets.is_empty() => {
            w.tree.insert(r.pick(&targets).clone(), Node::Dir);
        }
        3 if !targets.is_empty() => {
            w.tree.insert(r.pick(&targets).clone(), Node::Link("gone".into()));
        }
        4 => {
            let p = if r.chance(50) || w.includes.is_empty() { at } else { r.pick(&w.includes).2.clone() };
            add(&mut w.tree, &p, b"caf\xe9 \xff\xfe\n", r.chance(30));
        }
        5 => add(&mut w.tree, &at, b"====== Too deep\n\ntext\n", false),
        _ => {
            let s = *r.pick(REJECTED);
            add(&mut w.tree, &at, s.as_bytes(), false)
        }
    }
}

fn gen_p02(r: &mut Rng, _t: bool) -> Case {
    let b = backend(r);
    let o = WorldOpts { docx: b == "docx", warn: r.chance(30), max_includes: 4, max_images: 3, big: r.chance(2), plain: false };
    let mut w = gen::world(r, &o);
    if r.chance(45) {
        spoil(r, &mut w);
    }
    let mut call = gen::call(r, &w, b);
    if call.dest.is_none() && r.chance(85) {
        // mostly to files
        let cwd = call.cmd.cwd.clone();
        let args: Vec<String> = call.cmd.args.clone();
        if !args.iter().any(|a| a == "-o") {
            call.cmd.args.extend(["-o".into(), "out.html".into()]);
            call.dest = Some(gen::join(&cwd, "out.html"));
        } else if let Some(k) = args.iter().position(|a| a == "-o") {
            call.cmd.args[k + 1] = "out.html".into();
            call.dest = Some(gen::join(&cwd, "out.html"));
        }
    }
    if b == "docx" && r.chance(5) {
        call.cmd.args.push("-x".into());
    }
    let mut k = new_case("P02", &w, &call);
    if let Some(d) = &call.dest {
        if r.chance(70) {
            put_file(&mut k.tree, d, leftover(r));
        }
    }
    let src = sources(&w);
    k.cfgs.push(Cfg::default());
    for _ in 0..3 {
        let mut c = disturbed(r);
        match r.below(4) {
            0 => hard(r, &mut c, &["openr", "read", "readin", "stat", "realpath", "getcwd"]),
            1 => c.pf.push(path_fault(r, &src, false)),
            2 => {
                benign(r, &mut c);
                c.pf.push(path_fault(r, &src, false));
            }
            _ => vanish(r, &w, &mut c),
        }
        k.cfgs.push(c);
    }
    if b == "docx" && r.chance(50) {
        // the same through the library
        let mut h = conv(1, "file", &w.main, b);
        h["out"] = json!(format!("@ROOT@/{}", call.dest.clone().unwrap_or("x.docx".into())));
        h["faults"] = json!(true);
        k.hist.push(h);
    }
    k
}

/// Targets that go away while the conversion runs
pub fn vanish(r: &mut Rng, w: &World, c: &mut Cfg) {
    let mut targets: Vec<String> = w.includes.iter().chain(&w.images).map(|i| i.2.clone()).collect();
    targets.push(w.main.clone());
    targets.sort();
    targets.dedup();
    for t in targets {
        if r.chance(50) {
            let kind = *r.pick(&["unlink", "unlink", "mkdir", "link", "chmod"]);
            c.edits.push(edit(kind, &t, "gone-for-good"));
        }
    }
    let n = c.edits.len();
    for i in (1..n).rev() {
        let j = r.below(i + 1);
        c.edits.swap(i, j);
    }
    c.edit_rate = *r.pick(&[3000, 10000, 30000]);
}

/// A call on the output failed after it had been opened
fn fault_at_output(o: &Out, dest: &Option<String>) -> bool {
    let Some(d) = dest else { return false };
    let fired: Vec<u32> = o.fired().iter().map(|f| f.ev).collect();
    let mut open = false;
    for (ev, _, op, path, _, res) in o.ops() {
        if path == d.as_str() {
            if open && fired.contains(&ev) {
                return true;
            }
            open |= op == "openw" && res >= 0;
        }
    }
    false
}

fn eval_p02(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = Meta::of(c);
    let before = dest_bytes(&c.tree, &m.dest).map(|b| b.to_vec());
    for (i, cf) in c.cfgs.iter().enumerate() {
        let (status, failed, t, what, delivering);
        if let (Some(h), true) = (c.hist.first(), i >= 2) {
            w.reset(&c.tree);
            let mut cf = cf.clone();
            cf.faults_on = false;
            let o = w.lib(&json!({"main": [h]}), "", &cf);
            e.note_lib(Some(i), &o);
            let v = o.get(1).cloned().unwrap_or_else(|| json!({"status": o.out.status()}));
            failed = v["status"] != "ok";
            status = outcome(&v);
            what = injected(&o.out);
            delivering = fault_at_output(&o.out, &m.dest);
            t = w.snapshot();
            e.probe("library");
        } else {
            let (o, tt) = one(w, &c.tree, &c.cmds[0], cf);
            e.note(Some(i), &o);
            failed = !o.ok();
            status = format!("{} {:?}", o.status(), o.err_text());
            what = injected(&o);
            delivering = fault_at_output(&o, &m.dest);
            t = tt;
        }
        if failed && delivering {
            // the result was complete
            e.probe("failed-delivery");
        } else if failed {
            e.nontrivial = true;
            e.probe(if before.is_some() { "failed-over-existing" } else { "failed-without-existing" });
            if m.dest.is_some() && dest_bytes(&t, &m.dest) != before.as_deref() {
                e.fail(
                    "output-touched",
                    format!("{status} but {}: {}; injected {what}", m.dest.as_ref().unwrap(), describe(before.as_deref(), dest_bytes(&t, &m.dest))),
                );
            }
        }
    }
    e
}

// ---------------------------------------------------------------- P03

fn gen_p03(r: &mut Rng, _t: bool) -> Case {
    let b = backend(r);
    let o = WorldOpts { docx: b == "docx", warn: r.chance(30), max_includes: 4, max_images: 2, big: r.chance(3), plain: false };
    let mut w = gen::world(r, &o);
    if r.chance(25) {
        spoil(r, &mut w);
    }
    let mut call = gen::call(r, &w, b);
    let cwd = call.cmd.cwd.clone();
    if r.chance(15) && matches!(w.tree.get(&w.main), Some(Node::File(_))) {
        // the document is known by another name
        if let Some(n) = w.tree.remove(&w.main) {
            let up = "../".repeat(gen::dirname(&w.main).split('/').filter(|x| !x.is_empty()).count());
            let at = *r.pick(&["kept/under/original.name.adoc", "kept/original", "kept/main.txt"]);
            w.tree.insert(at.into(), n);
            w.tree.insert(w.main.clone(), Node::Link(format!("{up}{at}")));
        }
    }
    match r.below(12) {
        0 => {
            // a destination whose directory does not exist
            set_output(&mut call, "no/such/dir/out.html", None);
        }
        1 => {
            w.tree.insert(gen::join(&cwd, "adir"), Node::Dir);
            set_output(&mut call, "adir", None);
        }
        2 | 3 => {
            w.tree.insert(gen::join(&cwd, "outdir.v1"), Node::Dir);
            set_output(&mut call, "outdir.v1/res.ult", Some(gen::join(&cwd, "outdir.v1/res.ult")));
        }
        4 => {
            let p = format!("@ROOT@/{}", gen::join(&cwd, "abs.out"));
            set_output(&mut call, &p, Some(gen::join(&cwd, "abs.out")));
        }
        _ => {}
    }
    // files a careless program might take for its own
    let stem = call.dest.clone().unwrap_or(w.main.clone());
    for suffix in ["~", ".tmp", ".bak", ".new", ".old", ".part", ".lock", ".1"] {
        if r.chance(12) {
            tree::file(&mut w.tree, &format!("{stem}{suffix}"), "somebody's file\n");
        }
    }
    for name in ["out", "tmp", "output.html", ".cache", "index.html"] {
        if r.chance(6) {
            let p = gen::join(&cwd, name);
            w.tree.entry(p).or_insert(Node::File("keep me\n".into()));
        }
    }
    for e in ["html", "json", "docx", "htm", "xml"] {
        if r.chance(15) {
            let p = gen::default_output(&w.main, "json").replace(".json", &format!(".{e}"));
            w.tree.entry(p).or_insert(Node::File("another output\n".into()));
        }
    }
    let mut k = new_case("P03", &w, &call);
    if let Some(d) = &call.dest {
        if r.chance(40) {
            put_file(&mut k.tree, d, leftover(r));
        }
    }
    let src = sources(&w);
    let mut dst = vec!["<stdout>".to_string()];
    dst.extend(call.dest.clone());
    k.cfgs.push(Cfg::default());
    for _ in 0..2 {
        let mut c = disturbed(r);
        match r.below(4) {
            0 => {
                let all: Vec<&str> = READ_OPS.iter().chain(WRITE_OPS).copied().collect();
                hard(r, &mut c, &all)
            }
            1 => {
                benign(r, &mut c);
                c.pf.push(path_fault(r, &src, false));
            }
            2 => {
                benign(r, &mut c);
                c.pf.push(path_fault(r, &dst, true));
            }
            _ => {
                let ops = ["name", "sync", "write", "writeout", "openw"];
                hard(r, &mut c, &ops)
            }
        }
        c.pid = 4000 + r.below(1000) as u32;
        k.cfgs.push(c);
    }
    k
}

pub fn set_output(call: &mut Call, name: &str, dest: Option<String>) {
    match call.cmd.args.iter().position(|a| a == "-o") {
        Some(i) => call.cmd.args[i + 1] = name.into(),
        None => call.cmd.args.extend(["-o".into(), name.into()]),
    }
    call.dest = dest;
}

fn eval_p03(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = Meta::of(c);
    for (i, cf) in c.cfgs.iter().enumerate() {
        w.reset(&c.tree);
        let before = w.snapshot();
        let modes = tree::modes(&w.root);
        let o = w.cli(&c.cmds[0], cf);
        e.note(Some(i), &o);
        if o.abnormal() {
            e.probe("abnormal-end");
            continue;
        }
        e.nontrivial = true;
        let after = w.snapshot();
        let how = format!("{}; injected {}; stderr {:?}", o.status(), injected(&o), o.err_text());
        // a directory asked for as output is only expected to be one while it is there
        let asked = c.cmds[0].args.iter().position(|a| a == "-o").and_then(|i| c.cmds[0].args.get(i + 1)).map(|a| gen::join(&c.cmds[0].cwd, a));
        let asked = asked.filter(|a| !c.tree.contains_key(a));
        for d in tree::diff(&before, &after) {
            let p = tree::diff_path(&d);
            if Some(p) == m.dest.as_deref() || m.dest.is_none() && Some(p) == asked.as_deref() {
                if d.starts_with("removed") {
                    e.fail("output-removed", format!("{d}; {how}"));
                }
                continue;
            }
            e.fail("other-file", format!("{d}; {how}"));
        }
        for (p, mode) in tree::modes(&w.root) {
            if Some(p.as_str()) != m.dest.as_deref() && modes.get(&p).is_some_and(|x| *x != mode) {
                e.fail("permissions", format!("{p}: {mode:o} instead of {:o}; {how}", modes[&p]));
            }
        }
        let tmp = tree::read_tree(&w.tmp);
        if let Some(p) = tmp.keys().next() {
            e.fail("temporary-file", format!("left {p} in the directory for temporary files; {how}"));
        }
        tree::clear_dir(&w.tmp);
        for p in o.outside() {
            if std::fs::symlink_metadata(&p).is_ok() && !p.starts_with("/dev/") && !p.starts_with("/proc/") {
                e.fail("outside", format!("left {p}; {how}"));
            }
        }
        // a conversion that reports success delivered its output where it belongs
        if o.ok() && m.dest.is_some() && dest_bytes(&after, &m.dest).is_none() {
            e.fail("no-output", format!("{} does not exist; {how}", m.dest.as_ref().unwrap()));
        }
        e.probe(if o.ok() { "exit-0" } else { "exit-nonzero" });
    }
    e
}

// ---------------------------------------------------------------- P04

const ENVS: &[(&str, &[&str])] = &[
    ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8"]),
    ("LC_ALL", &["C", "POSIX", "ja_JP.UTF-8"]),
    ("TZ", &["UTC", "Asia/Tokyo", "America/New_York"]),
    ("USER", &["root", "somebody"]),
    ("LOGNAME", &["x", "y"]),
    ("COLUMNS", &["40", "200"]),
    ("TERM", &["dumb", "xterm-256color"]),
    ("NO_COLOR", &["1"]),
    ("CLICOLOR_FORCE", &["1"]),
    ("SOURCE_DATE_EPOCH", &["0", "946684800"]),
    ("RUST_LOG", &["trace", "off"]),
    ("RUST_BACKTRACE", &["1", "0"]),
    ("HOSTNAME", &["a", "b"]),
    ("PWD", &["/", "/nonexistent"]),
    ("HOME", &["/", "/root"]),
    ("EDITOR", &["vi"]),
    ("DEBUG", &["1"]),
];

/// Attributes, roles, options, ids and references on everything that takes them: whatever may be
/// kept in hashed containers or looked up elsewhere
pub(super) fn hashed(r: &mut Rng, t: &mut Tree, dir: &str) -> String {
    let word = |r: &mut Rng| {
        if r.chance(25) {
            crate::dict::name(r).to_string()
        } else {
            format!("{}{}", r.pick(&["a", "key", "n", "opt"]), r.below(40))
        }
    };
    let attrs = |r: &mut Rng| -> String {
        let mut v: Vec<String> = vec![];
        for _ in 0..r.range(1, 6) {
            let w = word(r);
            let x = match r.below(9) {
                0 => format!("role=\"{} {} {}\"", w, word(r), word(r)),
                1 => format!("%{w}"),
                2 => format!("options=\"{w},{}\"", word(r)),
                3 => format!(".{w}.{}", word(r)),
                4 => format!("#{w}"),
                5 => format!("id={w}"),
                6 => w,
                _ => format!("{w}=\"v{} w\"", r.below(9)),
            };
            v.push(x);
        }
        v.join(",")
    };
    for n in ["pic.png", "q.png"] {
        let pic = gen::png(r);
        tree::file(t, &gen::join(dir, n), Bytes(pic));
    }
    tree::file(t, &gen::join(dir, "part.adoc"), "// tag::t[]\n[.r1.r2]\npart text\n// end::t[]\n\n// tag::u[]\nmore\n// end::u[]\n");
    tree::file(t, &gen::join(dir, "part.rs"), "// tag::t[]\nfn f() {}\n// end::t[]\n// tag::u[]\nlet x; // <1>\n// end::u[]\n");
    let mut s = String::new();
    if r.chance(70) {
        s.push_str("= Title\n");
        for i in 0..r.range(0, 14) {
            let v = match r.below(9) {
                0 => format!("{{{}}}", word(r)),
                1 => format!("a {{{}}} b {{{}}}", word(r), word(r)),
                2 => r.pick(crate::dict::VALUES).to_string(),
                3 => "https://e.org/x?y".to_string(),
                _ => format!("v{i}"),
            };
            s.push_str(&format!(":{}: {v}\n", word(r)));
        }
        s.push('\n');
    }
    for n in 0..r.range(2, 9) {
        if r.chance(60) {
            s.push_str(&format!("[{}]\n", attrs(r)));
        }
        if r.chance(20) {
            s.push_str(&format!("[[{}]]\n", word(r)));
        }
        if r.chance(20) {
            s.push_str(&format!(".Caption {n}\n"));
        }
        let a = if r.chance(70) { attrs(r) } else { String::new() };
        let x = match r.below(13) {
            0 => format!("image::{}[alt,{a}]", r.pick(&["pic.png", "q.png"])),
            1 => format!("====\n[{a}]\ninner {n}\n===="),
            2 => format!("para <<{}>> footnote:[one] [.x.y.z]#span# {{{}}} {{{}}}", word(r), word(r), word(r)),
            3 => format!("text image:pic.png[{a}] link:x[y,{a}] https://e.org[z,{a}]"),
            4 => format!("== Section {}", r.below(4)),
            5 => format!("[cols=\"1,1\",{a}]\n|===\n|a |b\n|c |d\n|==="),
            6 => format!("include::part.adoc[{a},tags=t;u]"),
            7 => format!("[source,rust,{a}]\n----\ninclude::part.rs[tag=t,lines=1..2,{a}]\n----"),
            8 => format!("[quote,\"Some Body\",Book,{a}]\n____\nsaid {n}\n____"),
            9 => format!("* one\n* two [{a}]#x#\n\nterm:: def\n"),
            10 => format!(":{}: again {n}\n:{}: more", word(r), word(r)),
            11 if r.chance(30) => format!("include::{{{}}}/part.adoc[]", word(r)),
            _ => format!("paragraph {n} xref:{}[] {{{}}}", word(r), word(r)),
        };
        s.push_str(&x);
        s.push_str("\n\n");
    }
    s
}

fn gen_p04(r: &mut Rng, _t: bool) -> Case {
    let (w, call) = scenario(r, None);
    let mut k = new_case("P04", &w, &call);
    if r.chance(60) {
        let text = hashed(r, &mut k.tree, gen::dirname(&w.main));
        for cmd in &mut k.cmds {
            if let Some(b) = &mut cmd.stdin {
                *b = text.clone().into();
            }
        }
        put_file(&mut k.tree, &w.main, text.into());
    }
    for i in 0..4 {
        let mut c = Cfg::default();
        let mut cmd = call.cmd.clone();
        cmd.stdin = k.cmds[0].stdin.clone();
        c.rand_seed = r.next() >> 1;
        if i > 0 {
            c.clock = r.below(2_000_000_000) as u64 * 1_000_000_000 + r.below(1_000_000_000) as u64;
            c.pid = r.range(2, 60000) as u32;
            c.heap_pad = r.below(4000) as u32;
            c.cpus = r.range(1, 16) as u32;
            c.ns_step = *r.pick(&[1, 50, 50, 10_000, 3_000_000]);
            if r.chance(50) {
                c.sched_seed = r.next() >> 1;
                scheduled(r, &mut c);
            }
            if r.chance(30) {
                c.tty = r.below(8) as u32;
            }
            if r.chance(70) {
                c.env_seed = r.next() >> 1;
            }
            for (n, vals) in ENVS {
                if r.chance(25) {
                    cmd.env.push((n.to_string(), r.pick(vals).to_string()));
                }
            }
        }
        if i == 3 && r.chance(50) {
            // only the hash seed differs from the first run
            c = Cfg { rand_seed: c.rand_seed, ..Cfg::default() };
        }
        k.cfgs.push(c);
        if i > 0 {
            k.cmds.push(cmd);
        }
    }
    k
}

fn eval_p04(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = Meta::of(c);
    let mut first: Option<(Out, Tree)> = None;
    for (i, cf) in c.cfgs.iter().enumerate() {
        let cmd = &c.cmds[i.min(c.cmds.len() - 1)];
        let (o, t) = one(w, &c.tree, cmd, cf);
        e.note(Some(i), &o);
        let Some((f, ft)) = &first else {
            e.nontrivial = o.ok();
            e.probe(if o.ok() { "exit-0" } else { "exit-nonzero" });
            first = Some((o, t));
            continue;
        };
        if o.code != f.code || o.abnormal() != f.abnormal() {
            e.fail("status-differs", format!("{} instead of {}; stderr {:?}", o.status(), f.status(), o.err_text()));
        } else if o.stdout != f.stdout {
            e.fail("stdout-differs", describe(Some(&f.stdout), Some(&o.stdout)));
        } else if dest_bytes(&t, &m.dest) != dest_bytes(ft, &m.dest) {
            e.fail("file-differs", describe(dest_bytes(ft, &m.dest), dest_bytes(&t, &m.dest)));
        }
    }
    e
}

// ---------------------------------------------------------------- P11

/// A run that fails or is killed on the way
fn unfinished(r: &mut Rng, to_file: bool) -> Cfg {
    let mut c = disturbed(r);
    match r.below(5) {
        0 => hard(r, &mut c, WRITE_OPS),
        1 | 2 if to_file => {
            c.max_faults = 1;
            c.rates.push(("write".into(), "crash-part".into(), 25000));
            c.rates.push(("write".into(), "crash-after".into(), 25000));
            c.rates.push(("openw".into(), "crash-after".into(), 8000));
        }
        _ => {
            c.max_faults = 1;
            let rate = *r.pick(&[1500u16, 5000, 16000]);
            for op in ["openr", "read", "readin", "openw", "write", "writeout", "close", "name", "remove", "sync", "stat"] {
                for a in ["crash-before", "crash-after", "crash-part"] {
                    if a != "crash-part" || op.starts_with("write") {
                        c.rates.push((op.into(), a.into(), rate));
                    }
                }
            }
        }
    }
    if r.chance(40) {
        c.pid = r.range(2, 9999) as u32;
    }
    c
}

fn gen_p11(r: &mut Rng, _t: bool) -> Case {
    let (w, call) = scenario(r, None);
    let mut k = new_case("P11", &w, &call);
    let n = r.range(1, 4);
    for _ in 0..n {
        match r.below(10) {
            0..=4 => {
                let c = unfinished(r, call.dest.is_some());
                k.hist.push(json!({"op": "run", "cfg": k.cfgs.len()}));
                k.cfgs.push(c);
            }
            5 => k.hist.push(json!({"op": "run", "cfg": -1})),
            6 | 7 => {
                // something at the output path: part of the right output, more than it, or other content
                let how = *r.pick(&["prefix", "longer", "garbled", "other", "empty", "same", "newer"]);
                k.hist.push(json!({"op": "dest", "how": how, "x": r.below(1000)}));
            }
            _ => {
                // an earlier version of the document had been converted
                let old = tree::bytes(&w.tree, &w.main).unwrap_or(&[]).to_vec();
                let mut lines: Vec<String> = String::from_utf8_lossy(&old).split_inclusive('\n').map(|l| l.to_string()).collect();
                match r.below(3) {
                    0 => lines.push("\n\nan older paragraph, longer than now\n".into()),
                    1 => lines.truncate(lines.len() / 2),
                    _ => lines = vec!["entirely different\n".into()],
                }
                k.hist.push(json!({"op": "write", "path": w.main, "data": lines.concat()}));
                if r.chance(50) {
                    let c = unfinished(r, call.dest.is_some());
                    k.hist.push(json!({"op": "run", "cfg": k.cfgs.len()}));
                    k.cfgs.push(c);
                } else {
                    k.hist.push(json!({"op": "run", "cfg": -1}));
                }
            }
        }
    }
    k
}

fn eval_p11(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = Meta::of(c);
    let (b, bt) = baseline(w, c, &mut e);
    if !b.ok() {
        e.probe("baseline-failed");
        return e;
    }
    let right = dest_bytes(&bt, &m.dest).map(|b| b.to_vec());
    w.reset(&c.tree);
    let mut cmd = c.cmds[0].clone();
    for h in &c.hist {
        match h["op"].as_str().unwrap_or("") {
            "run" => {
                let i = h["cfg"].as_i64().unwrap_or(-1);
                let cf = if i < 0 { Cfg::default() } else { c.cfgs.get(i as usize).cloned().unwrap_or_default() };
                let o = w.cli(&cmd, &cf);
                e.note(if i < 0 { None } else { Some(i as usize) }, &o);
                if o.ended == 4 {
                    e.probe("killed");
                    e.nontrivial = true;
                } else {
                    e.probe(if o.ok() { "earlier-run-ok" } else { "earlier-run-failed" });
                }
            }
            "write" => {
                let p = w.root.join(h["path"].as_str().unwrap_or("x"));
                let d = h["data"].as_str().unwrap_or("");
                let _ = std::fs::write(&p, d);
                if let Some(b) = &mut cmd.stdin {
                    *b = d.into();
                }
            }
            _ => {
                let (Some(d), Some(right)) = (&m.dest, &right) else { continue };
                let x = h["x"].as_u64().unwrap_or(0) as usize;
                let n = right.len();
                let bytes: Vec<u8> = match h["how"].as_str().unwrap_or("") {
                    "prefix" => right[..x % (n + 1)].to_vec(),
                    "longer" => right.iter().chain(b"\nleft from before".repeat(1 + x % 50).iter()).copied().collect(),
                    "garbled" => right.iter().enumerate().map(|(i, b)| if i % (2 + x % 7) == 0 { b'#' } else { *b }).collect(),
                    "empty" => vec![],
                    "same" => right.clone(),
                    "newer" => b"made later".to_vec(),
                    _ => b"something else entirely".repeat(1 + x),
                };
                let p = w.root.join(d);
                let _ = std::fs::write(&p, bytes);
                let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o666));
                tree::set_mtime(&p, if h["how"] == "newer" { 1_740_000_000 } else { 1_500_000_000 + x as i64 * 200_000 });
                e.nontrivial = true;
                e.probe("leftover-output");
            }
        }
    }
    // the inputs are as they were meant to be, old time stamps included
    for (p, n) in &c.tree {
        if let Node::File(b) = n {
            let q = w.root.join(p);
            if Some(p) != m.dest.as_ref() && std::fs::read(&q).ok().as_ref() != Some(&b.0) {
                let _ = std::fs::write(&q, &b.0);
                let _ = std::fs::set_permissions(&q, std::fs::Permissions::from_mode(0o666));
                tree::set_mtime(&q, tree::MTIME);
            }
        }
    }
    let o = w.cli(&c.cmds[0], &Cfg::default());
    e.note(None, &o);
    let t = w.snapshot();
    let before: String = c.hist.iter().map(|h| h.to_string().chars().take(60).collect::<String>()).collect::<Vec<_>>().join(" ");
    if !o.ok() {
        e.fail("rerun-fails", format!("{} after {before}; stderr {:?}", o.status(), o.err_text()));
    } else if o.stdout != b.stdout {
        e.fail("stdout-differs", format!("{} after {before}", describe(Some(&b.stdout), Some(&o.stdout))));
    } else if dest_bytes(&t, &m.dest) != right.as_deref() {
        e.fail("file-differs", format!("{} after {before}", describe(right.as_deref(), dest_bytes(&t, &m.dest))));
    }
    e
}

// ---------------------------------------------------------------- P12

fn gen_p12(r: &mut Rng, _t: bool) -> Case {
    let b = backend(r);
    let o = WorldOpts { docx: b == "docx", warn: r.chance(75), max_includes: 3, max_images: 1, big: r.chance(3), plain: false };
    let mut w = gen::world(r, &o);
    if r.chance(20) {
        spoil(r, &mut w);
    }
    let mut call = gen::call(r, &w, b);
    if b != "docx" && call.dest.is_some() && r.chance(50) {
        set_output(&mut call, "-", None);
    }
    let mut k = new_case("P12", &w, &call);
    // what the document alone is: the same conversion into a file, without a count
    let mut f = call.clone();
    set_output(&mut f, "@ROOT@/reference.out", Some("reference.out".into()));
    for d in call.dest.iter().chain(&f.dest) {
        if r.chance(35) {
            put_file(&mut k.tree, d, leftover(r));
        }
    }
    f.cmd.args.retain(|a| a != "-c");
    k.cmds.push(f.cmd);
    let src = sources(&w);
    for _ in 0..2 {
        let mut c = disturbed(r);
        if r.chance(35) {
            c.env_seed = r.next() >> 1;
        }
        match r.below(4) {
            0 => hard(r, &mut c, READ_OPS),
            1 => {
                benign(r, &mut c);
                c.pf.push(path_fault(r, &src, false));
            }
            2 => vanish(r, &w, &mut c),
            _ => {
                let mut f = path_fault(r, &["<stderr>".to_string()], true);
                f.ops = vec!["writeerr".into()];
                c.pf.push(f);
            }
        }
        k.cfgs.push(c);
    }
    k
}

fn eval_p12(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = Meta::of(c);
    let (f, ft) = one(w, &c.tree, &c.cmds[1], &Cfg::default());
    e.note(None, &f);
    let doc = dest_bytes(&ft, &Some("reference.out".to_string())).map(|b| b.to_vec());
    if !f.stdout.is_empty() {
        e.fail("output-beside-file", format!("the document goes to a file, but standard output received {:?}", String::from_utf8_lossy(&f.stdout[..f.stdout.len().min(200)])));
    }
    let (b, bt) = baseline(w, c, &mut e);
    let Some(doc) = doc.filter(|_| f.ok()) else {
        // rejected: at most the count may have been printed
        e.probe("rejected");
        e.nontrivial = true;
        let (_, rest) = count_line(&b.stdout, m.count);
        if !rest.is_empty() && m.dest.is_none() && find(&b.stdout, b"<").is_none() && find(&b.stdout, b"{").is_none() || !rest.is_empty() && m.dest.is_some() {
            e.fail("error-on-stdout", format!("{}; standard output received {:?}", b.status(), String::from_utf8_lossy(&b.stdout[..b.stdout.len().min(200)])));
        }
        return e;
    };
    e.nontrivial = true;
    let show = |s: &[u8]| String::from_utf8_lossy(&s[..s.len().min(160)]).into_owned();
    let judge = |e: &mut Eval, o: &Out| {
        let (count, rest) = count_line(&o.stdout, m.count);
        if m.count && count.is_none() {
            e.fail("no-count-line", format!("a count was asked for, standard output starts {:?}", show(&o.stdout)));
        }
        if m.dest.is_some() {
            if !rest.is_empty() {
                e.fail("output-beside-file", format!("the document goes to a file, but standard output received {:?}", show(rest)));
            }
        } else {
            let trimmed = if rest.len() == doc.len() + 1 { rest.strip_suffix(b"\n").unwrap_or(rest) } else { rest };
            if trimmed != doc {
                e.fail("not-the-document", format!("standard output: {}", describe(Some(&doc), Some(trimmed))));
            }
        }
    };
    if !b.ok() {
        e.fail("status-differs", format!("{} where the same conversion into another file succeeds; stderr {:?}", b.status(), b.err_text()));
        return e;
    }
    judge(&mut e, &b);
    if !b.stderr.is_empty() {
        e.probe("warned");
    }
    if m.dest.is_some() && dest_bytes(&bt, &m.dest) != Some(&doc) {
        e.fail("file-differs", describe(Some(&doc), dest_bytes(&bt, &m.dest)));
    }
    for (i, cf) in c.cfgs.iter().enumerate() {
        let (o, _) = one(w, &c.tree, &c.cmds[0], cf);
        e.note(Some(i), &o);
        if o.ok() {
            judge(&mut e, &o);
        } else if !b.stdout.starts_with(&o.stdout) {
            let k = o.stdout.iter().zip(&b.stdout).take_while(|(x, y)| x == y).count();
            e.fail("error-on-stdout", format!("{}; standard output has {:?} at byte {k}; injected {}", o.status(), show(&o.stdout[k..]), injected(&o)));
        }
        e.probe(if o.ok() { "exit-0" } else { "exit-nonzero" });
    }
    e
}

/// The word count, if one was asked for, and what follows it
fn count_line(s: &[u8], asked: bool) -> (Option<&[u8]>, &[u8]) {
    if asked {
        if let Some(n) = s.iter().position(|b| *b == b'\n') {
            if s[..n].iter().any(|b| b.is_ascii_digit()) && s[..n].len() < 400 {
                return (Some(&s[..n]), &s[n + 1..]);
            }
        }
    }
    (None, s)
}

// ---------------------------------------------------------------- P14

fn gen_p14(r: &mut Rng, _t: bool) -> Case {
    let b = backend(r);
    let mut w;
    let missing = r.chance(25);
    loop {
        let o = WorldOpts { docx: b == "docx", warn: false, max_includes: 5, max_images: 3, big: false, plain: missing };
        w = gen::world(r, &o);
        if w.includes.len() + w.images.len() > 0 {
            break;
        }
    }
    let main_dir = gen::dirname(&w.main).to_string();
    // other places to start from, holding files of the same names
    let mut cwds = vec![main_dir.clone(), String::new(), "elsewhere".to_string(), "elsewhere/docs/deep".to_string()];
    for i in &w.includes {
        cwds.push(gen::dirname(&i.0).to_string());
        cwds.push(gen::dirname(&i.2).to_string());
    }
    // names that start alike
    if let Some((i, _)) = main_dir.char_indices().last() {
        cwds.push(format!("{main_dir}x"));
        if i > 0 && !main_dir[..i].ends_with('/') {
            cwds.push(main_dir[..i].to_string());
        }
    }
    cwds.sort();
    cwds.dedup();
    let targets: Vec<(String, String, String)> = w.includes.iter().chain(&w.images).cloned().collect();
    let real: Vec<String> = targets.iter().map(|t| t.2.clone()).chain([w.main.clone()]).collect();
    for d in &cwds {
        w.tree.entry(gen::join(d, ".keep")).or_insert(Node::File("".into()));
        for (_, written, _) in &targets {
            let p = gen::normalise(&gen::join(d, written));
            if !real.contains(&p) && !real.iter().any(|x| x.starts_with(&format!("{p}/")) || p.starts_with(&format!("{x}/"))) {
                let decoy: Bytes = if p.ends_with(".png") { Bytes(gen::png(r)) } else { "decoytext here\n".into() };
                w.tree.insert(p, Node::File(decoy));
            }
        }
    }
    // something the document itself names is not there
    let direct = targets.clone();
    let gone = if missing && !direct.is_empty() {
        let t = r.pick(&direct).clone();
        w.tree.remove(&t.2);
        json!([t.0, t.1])
    } else {
        Value::Null
    };
    // another name for the directory of the document
    let mut names = vec![w.main.clone()];
    if !main_dir.is_empty() {
        let top = main_dir.split('/').next().unwrap();
        w.tree.insert("alias".into(), Node::Link(top.into()));
        names.push(format!("alias{}", &w.main[top.len()..]));
        if gen::dirname(&main_dir).is_empty() {
            w.tree.insert("elsewhere/far".into(), Node::Link(format!("../{main_dir}")));
            // relative targets that climb out of a linked directory are left alone
            if !targets.iter().any(|t| t.1.starts_with("..")) {
                names.push(format!("elsewhere/far/{}", gen::basename(&w.main)));
            }
        }
    }
    let mut k = Case::new("P14", w.tree.clone());
    k.p = json!({"backend": b, "main": w.main, "missing": gone});
    for i in 0..4 {
        let cwd = if i == 0 { main_dir.clone() } else { r.pick(&cwds).clone() };
        let name = if i == 0 { w.main.clone() } else { r.pick(&names).clone() };
        let rel = gen::relative(&cwd, &name);
        let spelled = match if i == 0 { 0 } else { r.below(5) } {
            0 | 1 => rel,
            2 => format!("./{rel}"),
            3 => format!("@ROOT@/{name}"),
            _ => {
                let d = gen::dirname(&rel);
                let step = if d.is_empty() { ".//".to_string() } else { format!("{d}/././") };
                format!("{step}{}", gen::basename(&rel))
            }
        };
        let spelled = if spelled.starts_with('-') { format!("./{spelled}") } else { spelled };
        let args = vec![spelled.clone(), "-o".into(), "@ROOT@/result.out".into(), "-b".into(), b.into()];
        k.cmds.push(Cmd { args, cwd: cwd.clone(), ..Cmd::default() });
    }
    // standard input and in-memory strings look things up from the current directory
    let mut s = k.cmds[0].clone();
    s.args[0] = "-".into();
    s.stdin = Some(Bytes(tree::bytes(&w.tree, &w.main).unwrap().to_vec()));
    k.cmds.push(s);
    let text = String::from_utf8_lossy(tree::bytes(&w.tree, &w.main).unwrap()).into_owned();
    let mut id = 0;
    for _ in 0..3 {
        let cwd = r.pick(&cwds).clone();
        id += 1;
        k.hist.push(json!({"op": "edit", "kind": "chdir", "path": format!("@ROOT@/{cwd}")}));
        let mut h = conv(id, "file", &w.main, b);
        if r.chance(50) {
            h["path"] = json!(gen::relative(&cwd, r.pick(&names)));
        }
        k.hist.push(h);
        if r.chance(50) {
            id += 1;
            k.hist.push(json!({"op": "edit", "kind": "chdir", "path": format!("@ROOT@/{main_dir}")}));
            let mut h = conv(id, *r.pick(&["fromstr", "default"]), &w.main, b);
            h["text"] = json!(text);
            k.hist.push(h);
        }
    }
    k
}

fn eval_p14(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let dest = Some("result.out".to_string());
    let main = c.p["main"].as_str().unwrap_or("");
    let mut first: Option<(Out, Tree)> = None;
    for cmd in &c.cmds {
        let (o, t) = one(w, &c.tree, cmd, &Cfg::default());
        e.note(None, &o);
        let how = format!("started in {:?} with {:?}", cmd.cwd, cmd.args[0]);
        if dest_bytes(&t, &dest).is_some_and(|b| find(b, b"decoytext").is_some()) {
            e.fail("wrong-file", format!("a file of the same name in another directory was included; {how}"));
        }
        let text = cmd.stdin.as_ref().map(|b| b.0.as_slice()).or(tree::bytes(&c.tree, main)).unwrap_or(&[]);
        let missing = !c.p["missing"].is_null() && !missing_targets(&c.tree, gen::dirname(main), text, 9).is_empty();
        if missing && o.ok() {
            e.fail("wrong-file", format!("succeeds although a target is missing; {how}"));
        }
        let Some((f, ft)) = &first else {
            if !o.ok() {
                e.probe(if missing { "missing-target" } else { "rejected" });
            }
            first = Some((o, t));
            continue;
        };
        e.nontrivial = true;
        if o.code != f.code || o.abnormal() != f.abnormal() {
            e.fail("status-differs", format!("{} instead of {}; {how}; stderr {:?}", o.status(), f.status(), o.err_text()));
        } else if dest_bytes(&t, &dest) != dest_bytes(ft, &dest) {
            e.fail("output-differs", format!("{}; {how}", describe(dest_bytes(ft, &dest), dest_bytes(&t, &dest))));
        }
    }
    w.reset(&c.tree);
    let l = w.lib(&script(&c.hist), "", &Cfg::default());
    e.note_lib(None, &l);
    let ops: Vec<&Value> = c.hist.iter().filter(|h| h["op"] == "convert").collect();
    let Some(f) = ops.first().and_then(|h| l.get(h["id"].as_i64().unwrap())).cloned() else {
        if !ops.is_empty() {
            e.fail("no-result", format!("the library process ended early: {} {:?}", l.out.status(), l.out.err_text()));
        }
        return e;
    };
    for h in ops {
        let Some(v) = l.get(h["id"].as_i64().unwrap()) else {
            e.fail("no-result", format!("the library process ended early: {} {:?}", l.out.status(), l.out.err_text()));
            break;
        };
        if v["status"] != f["status"] || v["out"] != f["out"] {
            e.fail("library-differs", format!("{}: {}", h["path"], result_diff(&f, v)));
        }
        if v["out"].as_str().is_some_and(|s| s.contains("decoytext")) {
            e.fail("wrong-file", format!("library: a file of the same name in another directory was included; {h}"));
        }
    }
    e
}
