//! Properties about interrupted deliveries, failing streams, repeated
//! renderings and processes that live long.

use super::files::{hashed, spoil, vanish};
use super::lib::{any_fault, hex, move_into, small_world, text_of};
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P27",
            gen: gen_p27,
            eval: eval_p27,
            cases: (2500, 100_000),
            rule: "a case counts if in at least one of its runs a message met a disturbed standard error",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P28",
            gen: gen_p28,
            eval: eval_p28,
            cases: (1300, 50_000),
            rule: "a case counts if the undisturbed conversion succeeds and at least one of its runs was killed or failed",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P29",
            gen: gen_p29,
            eval: eval_p29,
            cases: (800, 30_000),
            rule: "every case counts in which all rounds of its history were executed",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P30",
            gen: gen_p30,
            eval: eval_p30,
            cases: (1200, 40_000),
            rule: "a case counts if a parsed document was rendered at least twice and a rendering after the first was compared with a fresh process",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P31",
            gen: gen_p31,
            eval: eval_p31,
            cases: (2500, 100_000),
            rule: "a case counts if at least one of its disturbed conversions failed",
            real: REAL,
            shrink_files: true,
        },
    ]
}

// ---------------------------------------------------------------- P27

fn gen_p27(r: &mut Rng, _t: bool) -> Case {
    let b = backend(r);
    let o = WorldOpts { docx: b == "docx", warn: r.chance(85), max_includes: 4, max_images: 2, big: r.chance(2), plain: false };
    let mut w = gen::world(r, &o);
    if r.chance(35) {
        spoil(r, &mut w);
    }
    let mut call = gen::call(r, &w, b);
    if b == "docx" && r.chance(8) {
        call.cmd.args.push("-x".into());
    }
    let mut k = new_case("P27", &w, &call);
    if let Some(d) = &call.dest {
        if r.chance(30) {
            put_file(&mut k.tree, d, leftover(r));
        }
    }
    for _ in 0..3 {
        let mut c = disturbed(r);
        match r.below(4) {
            0 | 1 => c.pf.push(Pf {
                path: "<stderr>".into(),
                ops: vec!["writeerr".into()],
                err: *r.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EAGAIN, libc::EBADF]),
                from_ev: if r.chance(60) { 0 } else { r.below(80) as u32 },
            }),
            2 => {
                // for a moment only
                c.max_faults = r.range(1, 4) as u32;
                for a in ["errno", "zero"] {
                    c.rates.push(("writeerr".into(), a.into(), *r.pick(&[8000, 30000])));
                }
            }
            _ => {
                c.max_faults = *r.pick(&[3, 60, 1500]);
                c.short_mode = r.below(4) as u32;
                for a in ["short", "eintr", "delay"] {
                    c.rates.push(("writeerr".into(), a.into(), *r.pick(&[0, 8000, 30000])));
                }
            }
        }
        if r.chance(20) {
            c.tty = *r.pick(&[1, 2, 4, 7]);
        }
        k.cfgs.push(c);
    }
    k
}

fn eval_p27(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = Meta::of(c);
    let (b, bt) = baseline(w, c, &mut e);
    e.probe(if b.ok() { "succeeds" } else { "fails" });
    for (i, cf) in c.cfgs.iter().enumerate() {
        let (o, t) = one(w, &c.tree, &c.cmds[0], cf);
        e.note(Some(i), &o);
        e.nontrivial |= any_fault(&o);
        let what = injected(&o);
        if o.abnormal() {
            e.fail("ended", format!("{} instead of {}; injected {what}", o.status(), b.status()));
        } else if o.ok() != b.ok() {
            e.fail("status-differs", format!("{} instead of {}; stderr {:?}; injected {what}", o.status(), b.status(), o.err_text()));
        } else if o.stdout != b.stdout {
            e.fail("stdout-differs", format!("{}; injected {what}", describe(Some(&b.stdout), Some(&o.stdout))));
        } else if dest_bytes(&t, &m.dest) != dest_bytes(&bt, &m.dest) {
            e.fail("file-differs", format!("{}; injected {what}", describe(dest_bytes(&bt, &m.dest), dest_bytes(&t, &m.dest))));
        }
    }
    e
}

// ---------------------------------------------------------------- P28

fn gen_p28(r: &mut Rng, _t: bool) -> Case {
    let b = *r.pick(&["htmlbook", "json"]);
    let o = WorldOpts { docx: false, warn: r.chance(20), max_includes: 4, max_images: 2, big: r.chance(20), plain: false };
    let w = gen::world(r, &o);
    let call = gen::call(r, &w, b);
    let mut k = new_case("P28", &w, &call);
    if let Some(d) = &call.dest {
        if r.chance(70) {
            put_file(&mut k.tree, d, leftover(r));
        }
    }
    for _ in 0..4 {
        let mut c = disturbed(r);
        let rate = *r.pick(&[1500u16, 5000, 16000, 40000]);
        match r.below(5) {
            0 => {
                hard(r, &mut c, WRITE_OPS);
                if r.chance(50) {
                    c.short_mode = r.below(4) as u32;
                    c.rates.push(("write".into(), "short".into(), 20000));
                    c.rates.push(("writeout".into(), "short".into(), 20000));
                    c.max_faults += r.range(1, 30) as u32;
                }
            }
            1 => c.pf.push(path_fault(r, &[call.dest.clone().unwrap_or("<stdout>".into()), "<stdout>".to_string()], true)),
            2 => {
                // killed in the middle of a delivery in many parts
                c.max_faults = r.range(2, 40) as u32;
                c.short_mode = r.below(4) as u32;
                for op in ["write", "writeout"] {
                    c.rates.push((op.into(), "short".into(), 30000));
                    c.rates.push((op.into(), "crash-part".into(), rate / 2));
                }
            }
            _ => {
                c.max_faults = 1;
                for op in ["openr", "read", "readin", "openw", "write", "writeout", "close", "name", "remove", "sync", "seek", "stat"] {
                    for a in ["crash-before", "crash-after", "crash-part"] {
                        if a != "crash-part" || op.starts_with("write") {
                            let late = matches!(op, "write" | "writeout" | "name" | "remove" | "sync" | "openw" | "seek");
                            c.rates.push((op.into(), a.into(), if late { rate } else { rate / 16 }));
                        }
                    }
                }
            }
        }
        k.cfgs.push(c);
    }
    k
}

fn eval_p28(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = Meta::of(c);
    let (b, bt) = baseline(w, c, &mut e);
    if !b.ok() {
        e.probe("baseline-failed");
        return e;
    }
    let before = dest_bytes(&c.tree, &m.dest).map(|b| b.to_vec());
    let right = dest_bytes(&bt, &m.dest).map(|b| b.to_vec());
    for (i, cf) in c.cfgs.iter().enumerate() {
        let (o, t) = one(w, &c.tree, &c.cmds[0], cf);
        e.note(Some(i), &o);
        let what = injected(&o);
        if !o.ok() {
            e.nontrivial = true;
            e.probe(if o.ended == 4 { "killed" } else { "failed" });
        }
        if !b.stdout.starts_with(&o.stdout) {
            e.fail("stdout-not-a-beginning", format!("{}: {}; injected {what}", o.status(), describe(Some(&b.stdout), Some(&o.stdout))));
        }
        let (Some(right), Some(now)) = (&right, dest_bytes(&t, &m.dest)) else { continue };
        if before.as_deref() == Some(now) {
            e.probe("as-before");
        } else if right.starts_with(now) {
            e.probe(if now.len() == right.len() { "complete" } else { "beginning" });
        } else {
            e.fail("file-not-a-beginning", format!("{}: {}; injected {what}", o.status(), describe(Some(right), Some(now))));
        }
    }
    e
}

// ---------------------------------------------------------------- P29

fn gen_p29(r: &mut Rng, _t: bool) -> Case {
    let docx = r.chance(50);
    let n = r.range(1, 2);
    let ws: Vec<World> = (0..n).map(|i| small_world(r, &format!("w{i}"), docx, false)).collect();
    let mut t = Tree::new();
    for w in &ws {
        t.extend(w.tree.clone());
        if r.chance(35) {
            let text = hashed(r, &mut t, gen::dirname(&w.main));
            tree::file(&mut t, &w.main, text);
        }
    }
    tree::file(&mut t, "w0/loop.adoc", "text\n\ninclude::loop.adoc[]\n");
    tree::file(&mut t, "w0/bin.adoc", Bytes(vec![b'a', 0xff, b'\n']));
    let mut k = Case::new("P29", t.clone());
    for id in 1..=r.range(1, 4) {
        let w = r.pick(&ws);
        let mut h = super::lib::some_conv(r, id, w, &t, docx);
        match r.below(10) {
            0 => h["panic_at"] = json!(r.below(80)),
            1 | 2 => {
                let mut text = text_of(&t, &w.main);
                text.push_str("\n\n");
                text.push_str(*r.pick(&["include::nowhere.adoc[]\n", "image::nowhere.png[]\n", "|===\n|a |b\n|===\n", "----\nopen", "====== Deep\n\nx\n", "include::loop.adoc[]\n", "include::bin.adoc[]\n"]));
                h["text"] = json!(text);
            }
            3 if h["backend"] == "docx" => h["out"] = json!("@ROOT@/nowhere/x.docx"),
            _ => {}
        }
        h["quiet"] = json!(true);
        k.hist.push(h);
    }
    let mut c = disturbed(r);
    if r.chance(35) {
        let src: Vec<String> = ws.iter().flat_map(sources).filter(|s| s != "<stdin>").collect();
        let mut f = path_fault(r, &src, false);
        f.from_ev = 0;
        c.pf.push(f);
    }
    // every round meets the same, so that what is kept for later use is the same as well
    if r.chance(25) {
        for op in ["openr", "read", "stat", "openw", "write"] {
            if r.chance(20) {
                c.rates.push((op.into(), "errno".into(), 65535));
                c.max_faults = 10_000;
            }
        }
    }
    k.cfgs.push(c);
    k
}

/// The heap after every round of the same conversions
fn rounds(w: &mut Worker, e: &mut Eval, c: &Case, n: usize, note: Option<usize>) -> Option<Vec<i64>> {
    let mut ops = vec![];
    for round in 0..n {
        for h in &c.hist {
            let mut h = h.clone();
            h["id"] = json!(h["id"].as_u64().unwrap_or(0) + 100 * (1 + round as u64));
            ops.push(h);
        }
        ops.push(json!({"op": "heap", "id": 1_000_000 + round}));
    }
    w.reset(&c.tree);
    let l = w.lib(&json!({"main": ops}), "", &c.cfgs[0]);
    e.note_lib(note, &l);
    if !l.done {
        e.fail("process-ended", format!("{}; stderr {:?}", l.out.status(), l.out.err_text()));
        return None;
    }
    for v in l.results.iter().filter(|v| v["status"].is_string()) {
        e.probe(v["status"].as_str().unwrap_or("?"));
    }
    Some((0..n).filter_map(|i| l.get(1_000_000 + i as i64)?["heap"].as_i64()).collect())
}

fn eval_p29(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let Some(a) = rounds(w, &mut e, c, 7, Some(0)) else { return e };
    e.nontrivial = a.len() == 7;
    if a.len() == 7 && a[6] > a[1] {
        // what is kept for good reason stops growing
        e.probe("looked-longer");
        let Some(b) = rounds(w, &mut e, c, 40, None) else { return e };
        if b.len() == 40 && b[19] > b[9] && b[39] - b[19] >= b[19] - b[9] {
            e.fail("grows", format!("after 2, 10, 20 and 40 rounds of the same conversions {}, {}, {} and {} bytes are allocated", b[1], b[9], b[19], b[39]));
        }
    }
    e
}

// ---------------------------------------------------------------- P30

fn gen_p30(r: &mut Rng, _t: bool) -> Case {
    let threads = if r.chance(35) { r.range(2, 3) } else { 0 };
    let docs = if threads > 0 { threads } else { r.range(1, 3) };
    let ws: Vec<World> = (0..docs).map(|i| small_world(r, &format!("w{i}"), true, false)).collect();
    let mut t = Tree::new();
    for w in &ws {
        t.extend(w.tree.clone());
    }
    t.insert("outdir".into(), Node::Dir);
    let mut k = Case::new("P30", t.clone());
    let mut id = 0;
    let mut place = |k: &mut Case, mut h: Value, d: usize| {
        if threads > 0 {
            h["thr"] = json!(d + 1);
        }
        k.hist.push(h);
    };
    let api: Vec<&str> = (0..docs).map(|_| *r.pick(&["file", "file", "nores", "fromstr"])).collect();
    let mut op = |r: &mut Rng, d: usize, only: &str, b: &str| {
        id += 1;
        let mut h = conv(id, api[d], &ws[d].main, b);
        h["only"] = json!(only);
        h["slot"] = json!(format!("{d}"));
        if api[d] == "fromstr" {
            h["text"] = json!(text_of(&t, &ws[d].main));
        }
        if only == "render" {
            match r.below(12) {
                0 | 1 => h["faults"] = json!(true),
                2 if b == "docx" => h["out"] = json!(if r.chance(50) { "@ROOT@/outdir".to_string() } else { format!("@ROOT@/nowhere/{id}.docx") }),
                _ => {}
            }
        }
        h
    };
    for d in 0..docs {
        let h = op(r, d, "parse", "htmlbook");
        place(&mut k, h, d);
    }
    for _ in 0..r.range(3, 8) {
        let d = r.below(docs);
        if r.chance(20) {
            // parsed anew, the old one is dropped; often the text has changed a little
            let mut text = text_of(&t, &ws[d].main);
            let changed = r.chance(70);
            if changed {
                text = reworded(r, &text);
                if threads == 0 && api[d] != "fromstr" {
                    k.hist.push(lib_edit("write", &ws[d].main, &text));
                }
            }
            let mut h = op(r, d, "parse", "htmlbook");
            if changed && api[d] == "fromstr" {
                h["text"] = json!(text);
            }
            place(&mut k, h, d);
        }
        if r.chance(15) {
            // pictures come and go between renderings
            if let Some(i) = ws[d].images.first() {
                if threads == 0 {
                    let b = tree::bytes(&t, &i.2).unwrap_or(b"");
                    let ed = if r.chance(50) { lib_edit("unlink", &i.2, "") } else { json!({"op": "edit", "kind": "write", "path": format!("@ROOT@/{}", i.2), "hex": hex(b)}) };
                    k.hist.push(ed);
                }
            }
        }
        let b = *r.pick(&["htmlbook", "htmlbook", "json", "json", "docx", "count"]);
        let h = op(r, d, "render", b);
        place(&mut k, h, d);
    }
    let mut c = disturbed(r);
    c.faults_on = false;
    hard(r, &mut c, &["openr", "read", "stat", "openw", "write"]);
    if threads > 0 {
        c.gap_mean = *r.pick(&[100, 2000, 10000, 200_000]);
        c.io_switch = *r.pick(&[0, 8000, 30000]);
        c.cold_switch = *r.pick(&[0, 600, 12000]);
        c.rates.clear();
    }
    k.cfgs.push(c);
    k
}

/// The same structure in other words
fn reworded(r: &mut Rng, text: &str) -> String {
    let n = r.below(1000);
    let mut v = vec![];
    for l in text.lines() {
        let plain = l.starts_with(|c: char| c.is_ascii_lowercase()) && !l.contains("::") && !l.contains('[');
        match l.rsplit_once(' ') {
            Some((a, _)) if plain && r.chance(60) => v.push(format!("{a} else{n}")),
            _ => v.push(l.to_string()),
        }
    }
    v.join("\n")
}

fn eval_p30(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let mut now = super::lib::start(c);
    w.reset(&now);
    let l = w.lib(&script(&c.hist), "", &c.cfgs[0]);
    e.note_lib(Some(0), &l);
    let faults = any_fault(&l.out);
    let mut cwd = String::new();
    let mut rendered = std::collections::BTreeMap::<String, usize>::new();
    // the documents as they were parsed: the files at that time
    let mut parsed = std::collections::BTreeMap::<String, (Tree, Value)>::new();
    for h in &c.hist {
        if h["op"] != "convert" {
            apply(&mut now, &mut cwd, h);
            continue;
        }
        let id = h["id"].as_i64().unwrap();
        let slot = h["slot"].as_str().unwrap_or("").to_string();
        let Some(v) = l.get(id) else {
            e.fail("process-ended", format!("step {id}: {}; stderr {:?}", l.out.status(), l.out.err_text()));
            break;
        };
        if h["only"] == "parse" {
            if v["status"] == "ok" {
                parsed.insert(slot, (now.clone(), h.clone()));
            }
            continue;
        }
        if !parsed.contains_key(&slot) || (faults && h["faults"] == true) {
            continue;
        }
        let n = rendered.entry(slot.clone()).or_default();
        *n += 1;
        // parse in the files of then, render in those of now
        let (then, p) = &parsed[&slot];
        let mut ops = vec![p.clone()];
        let mut at_end = then.clone();
        for (path, node) in &now {
            if then.get(path) != Some(node) {
                if let Node::File(b) = node {
                    let ed = json!({"op": "edit", "kind": "write", "path": format!("@ROOT@/{path}"), "hex": hex(&b.0)});
                    apply(&mut at_end, &mut cwd, &ed);
                    ops.push(ed);
                }
            }
        }
        for path in then.keys().filter(|p| !now.contains_key(*p)) {
            ops.push(lib_edit("unlink", path, ""));
        }
        let mut h2 = h.clone();
        for k in ["faults", "thr"] {
            h2.as_object_mut().unwrap().remove(k);
        }
        ops[0].as_object_mut().unwrap().remove("thr");
        ops.push(h2);
        w.reset(then);
        let f = w.lib(&json!({"main": ops}), "", &Cfg::default());
        e.note_lib(None, &f);
        let fresh = f.get(id).cloned().unwrap_or_else(|| json!({"status": f.out.status()}));
        e.nontrivial |= *n > 1;
        e.probe(v["status"].as_str().unwrap_or("?"));
        if !same(v, &fresh) {
            e.fail("rendering-differs", format!("step {id}, the {n}. rendering of its document: {}", result_diff(&fresh, v)));
        }
    }
    e
}

// ---------------------------------------------------------------- P31

fn gen_p31(r: &mut Rng, _t: bool) -> Case {
    let b = backend(r);
    let o = WorldOpts { docx: b == "docx", warn: r.chance(30), max_includes: 4, max_images: 3, big: r.chance(5), plain: false };
    let mut w = gen::world(r, &o);
    if r.chance(15) {
        spoil(r, &mut w);
    }
    if r.chance(5) {
        move_into(&mut w, "deeper");
    }
    let mut call = gen::call(r, &w, b);
    if b == "docx" && r.chance(4) {
        call.cmd.args.push("-x".into());
    }
    let mut k = new_case("P31", &w, &call);
    if let Some(d) = &call.dest {
        match r.below(12) {
            0 => {
                k.tree.insert(d.clone(), Node::Dir);
            }
            1 | 2 | 3 => put_file(&mut k.tree, d, leftover(r)),
            _ => {}
        }
    }
    let mut all: Vec<&str> = READ_OPS.to_vec();
    all.extend(WRITE_OPS);
    all.extend(["close", "remove"]);
    let src = sources(&w);
    let dest = [call.dest.clone().unwrap_or("<stdout>".into()), "<stdout>".to_string()];
    for _ in 0..4 {
        let mut c = disturbed(r);
        match r.below(6) {
            0 => hard(r, &mut c, &all),
            1 => hard(r, &mut c, READ_OPS),
            2 => hard(r, &mut c, WRITE_OPS),
            3 => {
                if r.chance(50) {
                    benign(r, &mut c);
                }
                c.pf.push(path_fault(r, &src, false));
            }
            4 => c.pf.push(path_fault(r, &dest, true)),
            _ => vanish(r, &w, &mut c),
        }
        k.cfgs.push(c);
    }
    k
}

fn eval_p31(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let (b, _) = baseline(w, c, &mut e);
    let mut judge = |e: &mut Eval, o: &Out| {
        let what = injected(o);
        if o.abnormal() {
            e.fail("ended", format!("{}; stderr {:?}; injected {what}", o.status(), o.err_text()));
        } else if o.panicked() {
            e.fail("panicked", format!("{}; stderr {:?}; injected {what}", o.status(), o.err_text()));
        } else if !o.ok() && o.err_text().trim().is_empty() {
            e.fail("no-reason", format!("{} without a message; injected {what}", o.status()));
        }
    };
    judge(&mut e, &b);
    for (i, cf) in c.cfgs.iter().enumerate() {
        let (o, _) = one(w, &c.tree, &c.cmds[0], cf);
        e.note(Some(i), &o);
        e.nontrivial |= !o.ok();
        e.probe(if o.ok() { "succeeded" } else { "failed" });
        judge(&mut e, &o);
    }
    e
}
