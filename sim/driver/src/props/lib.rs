//! Properties of the library: histories of calls in one process.

use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P06",
            gen: gen_p06,
            eval: eval_p06,
            cases: (1500, 50_000),
            rule: "a case counts if at least one conversion of its history met a failure, injected or of its files",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P07",
            gen: gen_p07,
            eval: eval_p07,
            cases: (1500, 50_000),
            rule: "a case counts if at least two conversions overlapped, that is, a thread was preempted in favour of another during its conversion",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P13",
            gen: gen_p13,
            eval: eval_p13,
            cases: (1500, 50_000),
            rule: "a case counts if a conversion that follows another one in its process was compared with a fresh process",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P16",
            gen: gen_p16,
            eval: eval_p16,
            cases: (1500, 50_000),
            rule: "every history counts in which a conversion opened at least one file",
            real: REAL,
            shrink_files: true,
        },
    ]
}

/// Moves a world into a directory of its own
pub fn move_into(w: &mut World, dir: &str) {
    w.tree = std::mem::take(&mut w.tree).into_iter().map(|(p, n)| (gen::join(dir, &p), n)).collect();
    w.main = gen::join(dir, &w.main);
    for i in w.includes.iter_mut().chain(w.images.iter_mut()) {
        i.0 = gen::join(dir, &i.0);
        i.2 = gen::join(dir, &i.2);
    }
}

pub fn small_world(r: &mut Rng, dir: &str, docx: bool, plain: bool) -> World {
    let o = WorldOpts { docx, warn: r.chance(20), max_includes: r.range(0, 4), max_images: 2, big: false, plain };
    let mut w = gen::world(r, &o);
    move_into(&mut w, dir);
    w
}

pub fn text_of(t: &Tree, p: &str) -> String {
    String::from_utf8_lossy(tree::bytes(t, p).unwrap_or(b"")).into_owned()
}

/// A conversion of a world by one of the ways the library offers
pub fn some_conv(r: &mut Rng, id: usize, w: &World, t: &Tree, docx: bool) -> Value {
    let b = if docx { backend(r) } else { *r.pick(&["htmlbook", "json", "count"]) };
    let mut h = conv(id, *r.pick(&["file", "file", "file", "nores"]), &w.main, b);
    if b != "docx" && r.chance(15) {
        h["api"] = json!(*r.pick(&["fromstr", "default"]));
        h["text"] = json!(text_of(t, &w.main));
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn write_bytes(path: &str, b: &[u8]) -> Value {
    json!({"op": "edit", "kind": "write", "path": format!("@ROOT@/{path}"), "hex": hex(b)})
}

/// A fault happened somewhere in this run
pub fn any_fault(o: &Out) -> bool {
    !o.fired().is_empty() || o.log.lines().any(|l| l.starts_with("P "))
}

// ---------------------------------------------------------------- P06

fn gen_p06(r: &mut Rng, _t: bool) -> Case {
    let docx = r.chance(60);
    let plain = r.chance(50);
    let n = r.range(1, 3);
    let ws: Vec<World> = (0..n).map(|i| small_world(r, &format!("w{i}"), docx, plain)).collect();
    let mut t = Tree::new();
    for w in &ws {
        t.extend(w.tree.clone());
    }
    t.insert("outdir".into(), Node::Dir);
    let mut k = Case::new("P06", t.clone());
    let mut m = t.clone();
    let mut cwd = String::new();
    for id in 1..=r.range(3, 7) {
        let i = r.below(n);
        let w = &ws[i];
        let mut targets: Vec<String> = w.includes.iter().map(|x| x.2.clone()).collect();
        let n_inc = targets.len();
        targets.extend(w.images.iter().map(|x| x.2.clone()));
        if !targets.is_empty() && r.chance(50) {
            let x = r.below(targets.len());
            let p = &targets[x];
            let ed = match r.below(6) {
                0 => lib_edit("unlink", p, ""),
                1 => lib_edit("mkdir", p, ""),
                2 if x < n_inc => write_bytes(p, b"text \xff\xfe more\n\nrest\n"),
                3 if x < n_inc => write_bytes(p, &{
                    let mut b = tree::bytes(&t, p).unwrap_or(b"").to_vec();
                    b.extend_from_slice(b"\n\nend \xc3");
                    b
                }),
                // back to how it was
                _ => match t.get(p) {
                    Some(Node::File(b)) => {
                        if matches!(m.get(p), Some(Node::Dir)) {
                            let ed = lib_edit("rmdir", p, "");
                            apply(&mut m, &mut cwd, &ed);
                            k.hist.push(ed);
                        }
                        write_bytes(p, &b.0)
                    }
                    _ => lib_edit("unlink", p, ""),
                },
            };
            apply(&mut m, &mut cwd, &ed);
            k.hist.push(ed);
        }
        let mut h = some_conv(r, id, w, &t, docx);
        if r.chance(45) {
            h["faults"] = json!(true);
        }
        if h["backend"] == "docx" {
            match r.below(6) {
                0 => h["out"] = json!(format!("@ROOT@/nowhere/out-{id}.docx")),
                1 => h["out"] = json!("@ROOT@/outdir"),
                2 => h["out"] = json!(format!("@ROOT@/{}/out.docx", w.main)),
                _ => {}
            }
        }
        k.hist.push(h);
    }
    let mut c = disturbed(r);
    c.faults_on = false;
    if r.chance(70) {
        hard(r, &mut c, &["openr", "read", "stat", "realpath", "getcwd", "openw", "write", "seek", "name"]);
        c.max_faults = r.range(1, 6) as u32;
    }
    if r.chance(30) {
        let src: Vec<String> = ws.iter().flat_map(sources).filter(|s| s != "<stdin>").collect();
        c.pf.push(path_fault(r, &src, false));
    }
    if r.chance(20) {
        c.rates.push(("read".into(), "short".into(), 10000));
        c.max_faults += 30;
    }
    k.cfgs.push(c);
    k.p = json!({"plain": plain, "includes": ws.iter().flat_map(|w| w.includes.iter().map(|i| i.2.clone())).collect::<Vec<_>>(),
        "images": ws.iter().flat_map(|w| w.images.iter().map(|i| i.2.clone())).collect::<Vec<_>>()});
    k
}

/// Whether a plain document's files leave it no way to succeed
fn must_fail(t: &Tree, c: &Case, op: &Value, cwd: &str) -> bool {
    let mut t = t.clone();
    for p in c.p["includes"].as_array().into_iter().flatten().filter_map(|p| p.as_str()) {
        if tree::bytes(&t, p).is_some_and(|b| std::str::from_utf8(b).is_err()) {
            t.remove(p);
        }
    }
    // a directory where an image should be is not missing
    for p in c.p["images"].as_array().into_iter().flatten().filter_map(|p| p.as_str()) {
        if op["api"] == "nores" || matches!(t.get(p), Some(Node::Dir)) {
            t.insert(p.to_string(), Node::File("".into()));
        }
    }
    let main = below_root(&op["path"]);
    let in_memory = op["api"] == "fromstr" || op["api"] == "default";
    let text = match op["text"].as_str() {
        Some(x) => x.as_bytes().to_vec(),
        None => tree::bytes(&t, main).unwrap_or(b"").to_vec(),
    };
    let dir = if in_memory { cwd } else { gen::dirname(main) };
    if !missing_targets(&t, dir, &text, 9).is_empty() {
        return true;
    }
    if op["backend"] == "docx" {
        let out = below_root(&op["out"]);
        let d = gen::dirname(out);
        return matches!(t.get(out), Some(Node::Dir)) || matches!(t.get(d), Some(Node::File(_))) || d == "nowhere";
    }
    false
}

fn eval_p06(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let mut t = start(c);
    w.reset(&t);
    let l = w.lib(&script(&c.hist), "", &c.cfgs[0]);
    e.note_lib(Some(0), &l);
    let faults = any_fault(&l.out);
    let mut cwd = String::new();
    for h in &c.hist {
        if h["op"] != "convert" {
            apply(&mut t, &mut cwd, h);
            continue;
        }
        let id = h["id"].as_i64().unwrap();
        let Some(v) = l.get(id) else {
            e.fail("process-ended", format!("conversion {id} ended the process: {}; stderr {:?}; injected {}", l.out.status(), l.out.err_text(), injected(&l.out)));
            break;
        };
        if v["status"] == "panic" {
            e.fail("panicked", format!("conversion {id}: {}; injected {}", outcome(v), injected(&l.out)));
        }
        if v["status"] == "err" {
            e.nontrivial = true;
            e.probe("error-returned");
            if v["err"].as_str().unwrap_or("").trim().is_empty() {
                e.fail("empty-error", format!("conversion {id} failed without saying why"));
            }
        }
        if v["status"] == "ok" && c.p["plain"] == true && must_fail(&t, c, h, &cwd) {
            e.fail("failure-not-returned", format!("conversion {id} succeeded although a file it needs is missing, not text or cannot be created"));
        }
        let f = fresh(w, &mut e, &t, &cwd, h, &Cfg::default());
        let disturbed = faults && h["faults"] == true;
        if disturbed {
            if v["status"] == "ok" && !same(v, &f) {
                e.fail("failure-not-returned", format!("conversion {id} succeeded with another result: {}; injected {}", result_diff(&f, v), injected(&l.out)));
            }
        } else if !same(v, &f) {
            e.fail("not-recovered", format!("conversion {id} differs from a fresh process: {}", result_diff(&f, v)));
        }
    }
    if !l.done {
        e.fail("process-ended", format!("{}; stderr {:?}", l.out.status(), l.out.err_text()));
    }
    e
}

// ---------------------------------------------------------------- P07

/// Many small conversions, a good part of which fail
fn gen_p07_many(r: &mut Rng) -> Case {
    let mut t = Tree::new();
    tree::file(&mut t, "d/x.png", Bytes(gen::PNG.to_vec()));
    tree::file(&mut t, "d/b.adoc", "included\n\ninclude::c.adoc[]\n");
    tree::file(&mut t, "d/c.adoc", "nested *text*\n\n== Section\n\nmore\n");
    tree::file(&mut t, "d/bad.png", Bytes(gen::PNG[..40].to_vec()));
    tree::file(&mut t, "d/bad.adoc", "text\n\ninclude::nowhere.adoc[]\n");
    tree::file(&mut t, "d/loop.adoc", "text\n\ninclude::loop.adoc[]\n");
    tree::file(&mut t, "d/bin.adoc", Bytes(vec![b'a', 0xff, b'\n']));
    let texts = [
        "include::nowhere.adoc[]\n",
        "para\n\nimage::nowhere.png[]\n",
        "include::bad.adoc[]\n",
        "include::loop.adoc[]\n",
        "include::bin.adoc[]\n",
        "image::bad.png[]\n",
        "|===\n|a |b\n|===\n",
        "= Title\n:k: v\n\n{k} include\n\ninclude::b.adoc[]\n",
        "include::c.adoc[]\n\nimage::x.png[]\n",
        "== One\n\nfootnote:[f] <<id>>\n\n[[id]]\n.T\n====\nx\n====\n\n* a\n* b\n",
        "para *a* _b_ -- it's (C) ...\n",
    ];
    let mut k = Case::new("P07", t);
    let threads = r.range(2, 5);
    let failing = r.chance(50);
    for id in 1..=r.range(8, 24) {
        let text = if failing && r.chance(60) { r.pick(&texts[..7]) } else { r.pick(&texts) };
        let b = *r.pick(&["htmlbook", "json", "json", "count", "docx"]);
        let mut h = conv(id, *r.pick(&["file", "file", "nores"]), "d/a.adoc", b);
        h["text"] = json!(text);
        if r.chance(8) {
            h["panic_at"] = json!(r.below(20));
        }
        h["thr"] = json!(r.range(1, threads));
        k.hist.push(h);
    }
    let mut c = disturbed(r);
    c.gap_mean = *r.pick(&[20, 100, 400, 2000, 10000, 200_000]);
    c.io_switch = *r.pick(&[0, 8000, 30000, 60000]);
    c.cold_switch = *r.pick(&[0, 100, 600, 3000, 12000]);
    k.cfgs.push(c);
    k
}

fn gen_p07(r: &mut Rng, _t: bool) -> Case {
    if r.chance(12) {
        return gen_p07_many(r);
    }
    let docx = r.chance(40);
    let threads = r.range(2, 4);
    let shared = r.chance(35);
    let mut t = Tree::new();
    let n = if shared { r.range(1, 2) } else { threads };
    let ws: Vec<World> = (0..n).map(|i| small_world(r, &format!("w{i}"), docx, false)).collect();
    for w in &ws {
        t.extend(w.tree.clone());
    }
    if r.chance(10) {
        if let Some((_, Node::File(b))) = t.iter_mut().find(|(p, _)| p.ends_with(".png")) {
            b.0.truncate(40);
        }
    }
    let mut k = Case::new("P07", t.clone());
    let mut id = 0;
    for thr in 1..=threads {
        let w = if shared { r.pick(&ws) } else { &ws[thr - 1] };
        for _ in 0..r.range(1, 2) {
            id += 1;
            let mut h = some_conv(r, id, w, &t, docx);
            if r.chance(10) {
                // rejected half way
                h["api"] = json!("file");
                let mut text = text_of(&t, &w.main);
                let at = r.below(text.len() + 1);
                let at = (0..=at).rev().find(|i| text.is_char_boundary(*i)).unwrap();
                text.insert_str(at, "\n\ninclude::nowhere.adoc[]\n\n");
                h["text"] = json!(text);
            }
            if r.chance(12) {
                h["panic_at"] = json!(r.below(60));
            }
            h["thr"] = json!(thr);
            k.hist.push(h);
        }
    }
    if r.chance(25) {
        id += 1;
        let w = r.pick(&ws);
        let mut h = some_conv(r, id, w, &t, docx);
        h["after"] = json!(true);
        k.hist.push(h);
    }
    let mut c = disturbed(r);
    c.gap_mean = *r.pick(&[20, 100, 400, 2000, 10000, 60000, 1_000_000]);
    c.io_switch = *r.pick(&[0, 8000, 30000, 60000]);
    c.cold_switch = *r.pick(&[0, 100, 600, 3000, 12000]);
    if r.chance(30) {
        let src: Vec<String> = ws.iter().flat_map(sources).filter(|s| s != "<stdin>").collect();
        let mut f = path_fault(r, &src, false);
        f.from_ev = 0;
        c.pf.push(f);
    }
    k.cfgs.push(c);
    k
}

fn eval_p07(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    w.reset(&c.tree);
    let l = w.lib(&script(&c.hist), "", &c.cfgs[0]);
    e.note_lib(Some(0), &l);
    e.nontrivial = l.out.switches > 0 && c.hist.iter().filter(|h| h["thr"].is_u64()).count() > 1;
    if l.out.switches > 0 {
        e.probe("preempted");
    }
    if !l.done {
        e.fail("process-ended", format!("{}; stderr {:?}", l.out.status(), l.out.err_text()));
        return e;
    }
    let alone = Cfg { pf: c.cfgs[0].pf.clone(), ..Cfg::default() };
    let mut known: Vec<(String, Value)> = vec![];
    for h in c.hist.iter().filter(|h| h["op"] == "convert") {
        let Some(v) = l.get(h["id"].as_i64().unwrap()) else { continue };
        if h["panic_at"].is_i64() {
            if v["status"] == "panic" {
                e.probe("caller-panicked");
            }
            continue;
        }
        let key = format!("{} {} {} {}", h["api"], h["path"], h["backend"], h["text"]);
        let f = match known.iter().find(|x| x.0 == key) {
            Some((_, f)) if c.cfgs[0].pf.is_empty() => f.clone(),
            _ => fresh(w, &mut e, &c.tree, "", h, &alone),
        };
        known.push((key, f.clone()));
        if !same(v, &f) {
            e.fail("differs", format!("conversion {} gives another result than alone: {}", h["id"], result_diff(&f, v)));
        }
        e.probe(v["status"].as_str().unwrap_or("?"));
    }
    e
}

// ---------------------------------------------------------------- P13

/// The same text with one letter changed
fn tweak(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    let at: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_lowercase()).collect();
    if !at.is_empty() {
        for _ in 0..r.range(1, 3) {
            b[*r.pick(&at)] = b'a' + r.below(26) as u8;
        }
    }
    b
}

fn gen_p13(r: &mut Rng, _t: bool) -> Case {
    let docx = r.chance(40);
    let n = r.range(1, 2);
    let ws: Vec<World> = (0..n).map(|i| small_world(r, &format!("w{i}"), docx, false)).collect();
    let mut t = Tree::new();
    for w in &ws {
        t.extend(w.tree.clone());
    }
    let mut k = Case::new("P13", t.clone());
    let mut m = t.clone();
    let mut cwd = String::new();
    let dirs: Vec<String> = {
        let mut d: Vec<String> = t.keys().map(|p| gen::dirname(p).to_string()).collect();
        d.push(String::new());
        d.sort();
        d.dedup();
        d
    };
    for id in 1..=r.range(3, 8) {
        let w = r.pick(&ws);
        for _ in 0..r.below(3) {
            let files: Vec<String> = m.iter().filter(|(_, n)| matches!(n, Node::File(_))).map(|(p, _)| p.clone()).collect();
            if files.is_empty() {
                break;
            }
            let p = r.pick(&files).clone();
            let is_img = p.ends_with(".png");
            let mut ed = match r.below(10) {
                0..=3 if !is_img => {
                    let old = tree::bytes(&m, &p).unwrap_or(b"").to_vec();
                    write_bytes(&p, &tweak(r, &old))
                }
                4 | 5 if !is_img => {
                    let other = r.pick(&files).clone();
                    let b = if other.ends_with(".png") { b"other text\n".to_vec() } else { tree::bytes(&m, &other).unwrap_or(b"").to_vec() };
                    // not one that leads back to itself
                    let b = if crate::run::find(&b, b"include::").is_some() { b"plain text now\n".to_vec() } else { b };
                    write_bytes(&p, &b)
                }
                0..=5 => {
                    // a picture that is damaged, and repaired later
                    let old = tree::bytes(&m, &p).unwrap_or(b"").to_vec();
                    let whole = old.ends_with(b"IEND\xae\x42\x60\x82");
                    let new = match r.below(6) {
                        _ if !whole => gen::png(r),
                        0 => old[..20].to_vec(),
                        1 => old[..50].to_vec(),
                        2 => b"not a picture".to_vec(),
                        3 => vec![],
                        _ => gen::png(r),
                    };
                    write_bytes(&p, &new)
                }
                6 => lib_edit("unlink", &p, ""),
                7 => {
                    let d = r.pick(&dirs).clone();
                    json!({"op": "edit", "kind": "chdir", "path": format!("@ROOT@/{d}")})
                }
                8 => {
                    // come back
                    let gone: Vec<&String> = t.keys().filter(|p| !m.contains_key(*p)).collect();
                    match gone.first() {
                        Some(p) => write_bytes(p, tree::bytes(&t, p).unwrap_or(b"")),
                        None => continue,
                    }
                }
                _ => continue,
            };
            if ed["kind"] == "write" {
                ed["mtime"] = json!(1_600_000_000u64 + *r.pick(&[0, 0, 0, 1, 50]));
                ed["in_place"] = json!(r.chance(40));
            }
            apply(&mut m, &mut cwd, &ed);
            k.hist.push(ed);
        }
        let mut h = some_conv(r, id, w, &m, docx);
        if !h["text"].is_null() {
            h["text"] = json!(text_of(&m, &w.main));
        } else if r.chance(30) {
            h["path"] = json!(gen::relative(&cwd, &w.main));
            h["at"] = json!(w.main);
        }
        match r.below(12) {
            0 => h["panic_at"] = json!(r.below(80)),
            1 | 2 => h["faults"] = json!(true),
            3 => {
                // leaves the parser in the middle of things
                let tail = *r.pick(&["----\nopen", "[quote]\n____\nopen", ":attr: v\n\n{attr} {nope}", "* item\n+\n====\nopen", "[[id]]\n.Title\n", "include::nowhere.adoc[]\n", "// tag::x[]\nfootnote:a[b]"]);
                let mut text = text_of(&m, &w.main);
                text.push_str("\n\n");
                text.push_str(tail);
                h["text"] = json!(text);
            }
            _ => {}
        }
        k.hist.push(h);
    }
    let mut c = disturbed(r);
    c.faults_on = false;
    hard(r, &mut c, &["openr", "read", "stat", "realpath", "openw", "write"]);
    k.cfgs.push(c);
    k
}

/// The files a history starts from, with every directory it will ever need
pub fn start(c: &Case) -> Tree {
    let mut t = c.tree.clone();
    let mut need: Vec<String> = c.tree.keys().map(|p| gen::dirname(p).to_string()).collect();
    for h in c.hist.iter().filter(|h| h["op"] != "convert") {
        let p = below_root(&h["path"]);
        need.push(if h["kind"] == "chdir" { p.to_string() } else { gen::dirname(p).to_string() });
    }
    for d in need {
        let mut d = d.as_str();
        while !d.is_empty() {
            t.entry(d.to_string()).or_insert(Node::Dir);
            d = gen::dirname(d);
        }
    }
    t
}

fn eval_p13(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let mut t = start(c);
    w.reset(&t);
    let l = w.lib(&script(&c.hist), "", &c.cfgs[0]);
    e.note_lib(Some(0), &l);
    let faults = any_fault(&l.out);
    let mut cwd = String::new();
    let mut before = 0;
    for h in &c.hist {
        if h["op"] != "convert" {
            apply(&mut t, &mut cwd, h);
            continue;
        }
        let id = h["id"].as_i64().unwrap();
        let Some(v) = l.get(id) else {
            e.fail("process-ended", format!("conversion {id}: {}; stderr {:?}", l.out.status(), l.out.err_text()));
            break;
        };
        before += 1;
        if v["status"] != "ok" {
            e.probe("failed-before");
        }
        if h["panic_at"].is_i64() || (faults && h["faults"] == true) {
            continue;
        }
        let f = fresh(w, &mut e, &t, &cwd, h, &Cfg::default());
        e.nontrivial |= before > 1;
        if !same(v, &f) {
            e.fail("history-shows", format!("conversion {id}, the {before}. of its process, differs from a fresh process: {}", result_diff(&f, v)));
        }
    }
    e
}

// ---------------------------------------------------------------- P16

fn many(r: &mut Rng, kind: &str, n: usize) -> Tree {
    let mut t = Tree::new();
    let mut main = String::from("Start.\n\n");
    let code = r.chance(20);
    match kind {
        "sequence" => {
            for i in 0..n {
                let ext = if code { "rs" } else { "adoc" };
                if code {
                    main.push_str(&format!("[source]\n----\ninclude::p/f{i}.{ext}[]\n----\n\n"));
                } else {
                    main.push_str(&format!("include::p/f{i}.{ext}[]\n\nBetween.\n\n"));
                }
                tree::file(&mut t, &format!("p/f{i}.{ext}"), format!("Part {i}.\n\nEnd of part {i}.\n"));
            }
        }
        "images" => {
            for i in 0..n {
                main.push_str(&format!("image::p/i{i}.png[alt]\n\n"));
                tree::file(&mut t, &format!("p/i{i}.png"), Bytes(gen::png(r)));
            }
        }
        _ => {
            main.push_str("include::p/f0.adoc[]\n\nAfter.\n");
            for i in 0..n {
                let next = if i + 1 < n { format!("include::f{}.adoc[]\n\n", i + 1) } else { String::new() };
                tree::file(&mut t, &format!("p/f{i}.adoc"), format!("Level {i}.\n\n{next}Back on {i}.\n"));
            }
        }
    }
    tree::file(&mut t, "main.adoc", main);
    t
}

fn gen_p16(r: &mut Rng, _t: bool) -> Case {
    if r.chance(35) {
        // few files against many
        let kind = *r.pick(&["sequence", "nested", "images"]);
        let few = 3;
        let lots = if kind == "nested" { r.range(12, 45) } else { r.range(12, 120) };
        let seed = Rng::new(r.next());
        let mut t = Tree::new();
        for (d, n) in [("few", few), ("lots", lots)] {
            for (p, node) in many(&mut seed.clone(), kind, n) {
                t.insert(gen::join(d, &p), node);
            }
        }
        let mut k = Case::new("P16", t);
        let b = if kind == "images" && r.chance(70) { "docx" } else { backend(r) };
        k.hist.push(conv(1, "file", "few/main.adoc", b));
        k.hist.push(conv(2, "file", "lots/main.adoc", b));
        k.hist.push(conv(3, "file", "lots/main.adoc", b));
        for h in &mut k.hist {
            h["snap"] = json!(true);
        }
        k.p = json!({"growth": true});
        k.cfgs.push(disturbed(r));
        return k;
    }
    let mut k = gen_p06(r, false);
    k.prop = "P16".into();
    k.hist.retain(|h| h["panic_at"].is_null());
    for h in &mut k.hist {
        if h["op"] == "convert" {
            h["snap"] = json!(true);
        }
    }
    k
}

fn eval_p16(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    w.reset(&c.tree);
    let l = w.lib(&script(&c.hist), "", &c.cfgs[0]);
    e.note_lib(Some(0), &l);
    for h in c.hist.iter().filter(|h| h["op"] == "convert") {
        let id = h["id"].as_i64().unwrap();
        let Some(v) = l.get(id) else {
            e.fail("process-ended", format!("conversion {id}: {}; stderr {:?}", l.out.status(), l.out.err_text()));
            return e;
        };
        e.nontrivial |= v["open_max"].as_i64() > v["open_before"].as_i64();
        e.probe(if v["status"] == "ok" { "after-success" } else { "after-failure" });
        for what in ["fds", "cwd", "env", "tasks", "umask"] {
            if v["before"][what] != v["after"][what] {
                e.fail("not-given-back", format!("conversion {id} ({}) changes {what}: {} before, {} after; injected {}", v["status"], v["before"][what], v["after"][what], injected(&l.out)));
            }
        }
        if v["open_before"] != v["open_after"] {
            e.fail("not-given-back", format!("conversion {id} ({}): {} descriptors before, {} after", v["status"], v["open_before"], v["open_after"]));
        }
    }
    if c.p["growth"] == true {
        let held = |id: i64| l.get(id).filter(|v| v["status"] == "ok").map(|v| v["open_max"].as_i64().unwrap_or(0) - v["open_before"].as_i64().unwrap_or(0));
        if let (Some(a), Some(b)) = (held(1), held(2)) {
            e.probe("few-against-many");
            if b > a + 2 {
                e.fail("grows", format!("{b} descriptors held at once with many files, {a} with few"));
            }
            // with hardly any descriptors left it still works
            let mut h = c.hist[1].clone();
            h["fd_limit"] = json!(a + 2 + l.get(2).and_then(|v| v["open_before"].as_i64()).unwrap_or(0));
            w.reset(&c.tree);
            let l = w.lib(&json!({"main": [h]}), "", &Cfg::default());
            e.note_lib(None, &l);
            match l.get(2) {
                Some(v) if v["status"] == "ok" => {}
                Some(v) => e.fail("grows", format!("fails when only {} descriptors may be open: {}", h["fd_limit"], outcome(v))),
                None => e.fail("process-ended", l.out.status()),
            }
        } else {
            e.probe("rejected");
        }
    }
    e
}
