//! Properties about included files.

use super::*;
use crate::shm;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P09",
            gen: gen_p09,
            eval: eval_p09,
            cases: (4000, 100_000),
            rule: "every include graph counts; distinct ones differ in their files or in the history of their conversion",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P10",
            gen: gen_p10,
            eval: eval_p10,
            cases: (2500, 80_000),
            rule: "a case counts if a target was missing, vanished or failed during at least one of its runs",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P15",
            gen: gen_p15,
            eval: eval_p15,
            cases: (2500, 80_000),
            rule: "a case counts if at least one file was replaced while a conversion ran, or between two conversions of one process",
            real: REAL,
            shrink_files: false,
        },
    ]
}

/// All words of the form q<letters and digits>q that follow the given prefix
fn markers(text: &[u8], prefix: &str) -> Vec<String> {
    let text = String::from_utf8_lossy(text);
    let mut out = vec![];
    let mut rest: &str = &text;
    while let Some(i) = rest.find(prefix) {
        let t = &rest[i..];
        let n = t[prefix.len()..].find(|c: char| !c.is_ascii_digit() && !"vpx".contains(c)).unwrap_or(0) + prefix.len();
        if t[n..].starts_with('q') && n > prefix.len() {
            out.push(t[..n + 1].to_string());
        }
        rest = &t[prefix.len()..];
    }
    out
}

// ---------------------------------------------------------------- P09

const GDIRS: &[&str] = &["", "sub", "sub/deep", "other"];
/// For files that are named alike
const ALIKE: &[&str] = &["", "sub", "sub/sub", "sub/sub/sub", "other", "other/sub", "sub/other"];

fn gen_p09(r: &mut Rng, _t: bool) -> Case {
    let top = *r.pick(&["", "docs", "a b/c"]);
    let kind = r.below(10); // 0..4 acyclic, 5..8 cyclic, 9 changing
    let chain = kind < 2;
    let n = if chain { r.range(12, 40) } else { r.range(1, 7) };
    let flat = r.chance(40);
    let alike = r.chance(35);
    let mut paths: Vec<String> = vec![];
    for i in 0..n {
        let ext = *r.pick(&["adoc", "adoc", "asciidoc", "txt"]);
        let mut p = gen::join(
            &gen::join(top, if i == 0 || flat { "" } else { *r.pick(GDIRS) }),
            &if i == 0 { "main.adoc".to_string() } else { format!("f{i}.{ext}") },
        );
        if alike && i > 0 {
            let q = gen::join(&gen::join(top, *r.pick(ALIKE)), *r.pick(&["part.adoc", "main.adoc", "part.txt"]));
            if !paths.contains(&q) {
                p = q;
            }
        }
        paths.push(p);
    }
    // the main document may include the same few files over and over
    let wide = !chain && n > 1 && r.chance(12);
    let mut t = Tree::new();
    // other names for the same directories and files
    let aliases = r.chance(50);
    if aliases {
        t.insert(gen::join(top, "loop"), Node::Link(".".into()));
        t.insert(gen::join(top, "other"), Node::Dir);
        t.insert(gen::join(top, "other2"), Node::Link("other".into()));
        t.insert(gen::join(top, "sub"), Node::Dir);
        t.insert(gen::join(top, "sub2"), Node::Link("sub".into()));
        for p in &paths {
            if r.chance(30) {
                t.insert(gen::join(gen::dirname(p), &format!("ln-{}", gen::basename(p))), Node::Link(gen::basename(p).into()));
            }
        }
    }
    let spell = |r: &mut Rng, t: &Tree, from: &str, to: &str| -> String {
        let mut target = to.to_string();
        let ln = gen::join(gen::dirname(to), &format!("ln-{}", gen::basename(to)));
        if t.contains_key(&ln) && r.chance(50) {
            target = ln;
        }
        if aliases && r.chance(40) {
            let inner = target[top.len()..].trim_start_matches('/').to_string();
            let inner = match inner.split_once('/') {
                Some(("sub", x)) if r.chance(50) => format!("sub2/{x}"),
                Some(("other", x)) if r.chance(50) => format!("other2/{x}"),
                _ => format!("{}{inner}", "loop/".repeat(r.range(0, 3))),
            };
            target = gen::join(top, &inner);
        }
        let rel = gen::relative(gen::dirname(from), &target);
        match r.below(6) {
            0 => format!("./{rel}"),
            1 if !rel.starts_with("..") && !rel.starts_with("loop") && rel.contains('/') => {
                let d = rel.split('/').next().unwrap();
                format!("{d}/../{rel}")
            }
            _ => rel,
        }
    };
    // the files: paragraphs and includes of files with higher numbers, then perhaps back edges
    let mut edges: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 0..n {
        if chain {
            if i + 1 < n {
                edges[i].push(i + 1);
            }
        } else {
            for _ in 0..if wide && i == 0 { r.range(20, if kind < 5 { 130 } else { 45 }) } else if wide { 0 } else { r.below(4) } {
                if i + 1 < n {
                    edges[i].push(r.range(i + 1, n - 1));
                }
            }
            if i == 0 && n > 1 && edges[0].is_empty() {
                edges[0].push(1);
            }
        }
    }
    if (5..=8).contains(&kind) {
        // back edges from files the main document reaches
        let mut reach = vec![false; n];
        reach[0] = true;
        for i in 0..n {
            if reach[i] {
                for j in &edges[i] {
                    reach[*j] = true;
                }
            }
        }
        let from: Vec<usize> = (0..n).filter(|i| reach[*i]).collect();
        for _ in 0..r.range(1, 2) {
            let a = *r.pick(&from);
            // an ancestor: itself, or one of the files leading to it
            let mut b = a;
            for _ in 0..r.below(4) {
                let parents: Vec<usize> = (0..n).filter(|p| reach[*p] && edges[*p].contains(&b) && *p < b).collect();
                if parents.is_empty() {
                    break;
                }
                b = *r.pick(&parents);
            }
            let k = r.below(edges[a].len() + 1);
            edges[a].insert(k, b);
        }
    }
    // listings of other files, which are shown as they are
    let code: Vec<String> = (0..r.below(3)).map(|i| gen::join(&gen::join(top, *r.pick(ALIKE)), &format!("c{i}.{}", r.pick(&["rs", "py", "c"])))).collect();
    for (i, p) in code.iter().enumerate() {
        tree::file(&mut t, p, format!("code zq{}x0q here\nmore zq{}x1q there\n", 90 + i, 90 + i));
    }
    let many_listings = !wide && !chain && kind < 5 && n < 4 && r.chance(40);
    let text_of = |r: &mut Rng, t: &Tree, i: usize, edges: &[usize]| -> String {
        let mut s = String::new();
        let mut k = 0;
        let mut para = |s: &mut String, r: &mut Rng| {
            k += 1;
            if r.chance(25) {
                s.push_str(&format!("* zq{i}x{k}q item\n\n"));
            } else {
                s.push_str(&format!("zq{i}x{k}q text\n\n"));
            }
        };
        if i == 0 && r.chance(30) {
            s.push_str("= Title\n\n");
        }
        if r.chance(80) {
            para(&mut s, r);
        }
        for j in edges {
            let w = spell(r, t, &paths[i], &paths[*j]);
            s.push_str(&format!("include::{w}[]\n\n"));
            if r.chance(70) {
                para(&mut s, r);
            }
        }
        if !code.is_empty() && r.chance(30) {
            for _ in 0..if many_listings { r.range(20, 100) } else { r.range(1, 3) } {
                let to = r.pick(&code).clone();
                let w = spell(r, t, &paths[i], &to);
                s.push_str(&format!("----\ninclude::{w}[]\n----\n\n"));
            }
            para(&mut s, r);
        }
        if s.is_empty() {
            para(&mut s, r);
        }
        if r.chance(20) {
            s.truncate(s.trim_end().len());
        }
        s
    };
    for i in 0..n {
        let s = text_of(r, &t, i, &edges[i]);
        tree::file(&mut t, &paths[i], s);
    }
    let mut k = Case::new("P09", t.clone());
    let b = if r.chance(50) { "htmlbook" } else { "json" };
    let cwd = if r.chance(50) { top.to_string() } else { String::new() };
    let mut args = vec![gen::relative(&cwd, &paths[0]), "-o".into(), "-".into(), "-b".into(), b.into()];
    let mut cmd = Cmd { cwd: cwd.clone(), ..Cmd::default() };
    if r.chance(15) && cwd == top {
        args[0] = "-".into();
        cmd.stdin = tree::bytes(&t, &paths[0]).map(|b| Bytes(b.to_vec()));
    }
    if r.chance(15) {
        args.push("-x".into());
    }
    cmd.args = args;
    k.cmds.push(cmd);
    let mut c = disturbed(r);
    if kind == 9 {
        for _ in 0..r.range(1, 4) {
            let i = r.below(n);
            let back: Vec<usize> = if r.chance(70) { vec![r.below(n)] } else { vec![] };
            let s = text_of(r, &t, i, &back);
            c.edits.push(edit("replace", &paths[i], s));
        }
        c.edit_rate = *r.pick(&[3000, 10000, 30000]);
    }
    c.max_steps = WORK;
    k.cfgs.push(c);
    k.hist.push(conv(1, "file", &paths[0], r.pick(&["htmlbook", "json", "docx"])));
    k.p = json!({"main": paths[0], "changing": kind == 9});
    k
}

/// A cycle may be noticed late, after as many rounds as includes may be nested
const WORK: u64 = 1_000_000_000;

/// No more paragraphs than this are followed
const TOO_MUCH: usize = 5000;

/// What a plain document's paragraphs are once its includes are in place; none if they never end
fn expand(t: &Tree, main: &str, text: &[u8], stack: &mut Vec<String>, out: &mut Vec<String>) -> Option<()> {
    let mut blank = true;
    let mut listing = false;
    for l in String::from_utf8_lossy(text).lines() {
        let own_block = std::mem::replace(&mut blank, l.is_empty());
        if l == "----" {
            listing = !listing;
            continue;
        }
        if listing {
            match l.strip_prefix("include::").and_then(|x| x.split_once('[')) {
                Some((target, _)) => out.extend(markers(tree::bytes(t, &resolve(t, gen::dirname(main), target)?)?, "zq")),
                None => out.extend(markers(l.as_bytes(), "zq")),
            }
            continue;
        }
        let inc = if own_block { l.strip_prefix("include::").and_then(|x| x.split_once('[')) } else { None };
        match inc {
            None => out.extend(markers(l.as_bytes(), "zq")),
            Some((target, _)) => {
                let p = resolve(t, gen::dirname(main), target)?;
                if stack.contains(&p) || out.len() > TOO_MUCH {
                    return None;
                }
                let b = tree::bytes(t, &p)?;
                stack.push(p.clone());
                expand(t, &p, b, stack, out)?;
                stack.pop();
            }
        }
    }
    Some(())
}
/// Follows links below the root
fn resolve(t: &Tree, dir: &str, target: &str) -> Option<String> {
    let mut cur: Vec<String> = dir.split('/').filter(|c| !c.is_empty()).map(|c| c.to_string()).collect();
    let mut todo: Vec<String> = target.split('/').rev().map(|c| c.to_string()).collect();
    let mut steps = 0;
    while let Some(c) = todo.pop() {
        steps += 1;
        if steps > 200 {
            return None;
        }
        match c.as_str() {
            "" | "." => {}
            ".." => {
                cur.pop()?;
            }
            _ => {
                cur.push(c);
                if let Some(Node::Link(to)) = t.get(&cur.join("/")) {
                    cur.pop();
                    todo.extend(to.split('/').rev().map(|c| c.to_string()));
                }
            }
        }
    }
    Some(cur.join("/"))
}

fn eval_p09(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval { nontrivial: true, ..Eval::default() };
    let main = c.p["main"].as_str().unwrap_or("").to_string();
    let changing = c.p["changing"] == true;
    let text = c.cmds[0].stdin.clone().map(|b| b.0).or(tree::bytes(&c.tree, &main).map(|b| b.to_vec())).unwrap_or_default();
    let mut want = vec![];
    let finite = expand(&c.tree, &main, &text, &mut vec![main.clone()], &mut want).is_some();
    if !changing && !finite && (want.len() > TOO_MUCH || !missing_or_cyclic(&c.tree, &main, &text)) {
        return e;
    }
    e.probe(if changing { "changing" } else if finite { "acyclic" } else { "cyclic" });
    let (o, _) = one(w, &c.tree, &c.cmds[0], &c.cfgs[0]);
    e.note(Some(0), &o);
    let tail = crate::case::short(&o.err_text(), 300);
    if o.abnormal() || o.panicked() {
        e.fail("abnormal-end", format!("{} ({} steps, {} bytes, {} descriptors at most); stderr {tail:?}", o.status(), o.steps, o.live_max, o.open_max));
    }
    if changing {
        return e;
    }
    if finite {
        let got = markers(&o.stdout, "zq");
        if !o.ok() {
            e.fail("refused", format!("{} for includes without a cycle, nested {} deep at most; stderr {tail:?}", o.status(), depth(&c.tree)));
        } else if got != want {
            e.fail("wrong-text", format!("paragraphs {:?} instead of {:?}", got, want));
        }
    } else if o.ok() {
        e.fail("accepted", "exit 0 for includes that lead back to a file still being included".into());
    } else if o.stderr.is_empty() {
        e.fail("silent-failure", "nothing on standard error".into());
    }
    // the library, on a thread with an ordinary stack
    let Some(op) = c.hist.first() else { return e };
    let mut op = op.clone();
    op["thr"] = json!(1);
    w.reset(&c.tree);
    let l = w.lib(&script(&[op]), "", &Cfg { max_steps: WORK, ..Cfg::default() });
    e.note_lib(None, &l);
    if c.cmds[0].stdin.is_some() && tree::bytes(&c.tree, &main) != Some(&text[..]) {
        return e;
    }
    match l.get(1) {
        None => e.fail("abnormal-end", format!("library process: {}; {:?}", l.out.status(), l.out.err_text())),
        Some(v) if v["status"] == "panic" => e.fail("abnormal-end", format!("library: {}", outcome(v))),
        Some(v) if finite => {
            if v["status"] != "ok" {
                e.fail("refused", format!("library: {}", outcome(v)));
            } else if markers(v["out"].as_str().unwrap_or("").as_bytes(), "zq") != want {
                e.fail("wrong-text", "library: other paragraphs than the files have".into());
            }
        }
        Some(v) => {
            if v["status"] == "ok" {
                e.fail("accepted", "library: success for includes that lead back to a file still being included".into());
            }
        }
    }
    e
}
fn depth(t: &Tree) -> usize {
    t.len()
}
/// Tells a cycle from a target that is not there, which minimising may produce
fn missing_or_cyclic(t: &Tree, main: &str, text: &[u8]) -> bool {
    let mut files = vec![(main.to_string(), text.to_vec())];
    let mut seen = vec![];
    while let Some((f, b)) = files.pop() {
        for l in String::from_utf8_lossy(&b).lines() {
            let Some((target, _)) = l.strip_prefix("include::").and_then(|x| x.split_once('[')) else { continue };
            let Some(p) = resolve(t, gen::dirname(&f), target) else { return false };
            let Some(b) = tree::bytes(t, &p) else { return false };
            if !seen.contains(&p) {
                seen.push(p.clone());
                files.push((p, b.to_vec()));
            }
        }
    }
    true
}

// ---------------------------------------------------------------- P10

fn gen_p10(r: &mut Rng, _t: bool) -> Case {
    let b = backend(r);
    let plain = r.chance(40);
    let mut w;
    loop {
        let o = WorldOpts { docx: b == "docx", warn: r.chance(20), max_includes: 6, max_images: 3, big: false, plain };
        w = gen::world(r, &o);
        if w.includes.len() + w.images.len() > 0 {
            break;
        }
    }
    let mut targets: Vec<(String, bool)> = w.includes.iter().map(|i| (i.2.clone(), true)).collect();
    targets.extend(w.images.iter().map(|i| (i.2.clone(), false)));
    let mut call = gen::call(r, &w, b);
    if r.chance(50) {
        set_quiet(&mut call);
    }
    let remove = plain && r.chance(40);
    if remove && r.chance(40) && !call.stdin {
        // one more, that cannot be there
        let mut files = vec![w.main.clone()];
        files.extend(w.includes.iter().map(|i| i.2.clone()));
        let f = r.pick(&files).clone();
        let here = gen::dirname(&f).to_string();
        let image = r.chance(60);
        let written = match r.below(if image { 4 } else { 5 }) {
            0 => format!("{}/x.png", gen::basename(&f)),
            1 => {
                w.tree.insert(gen::join(&here, "ring.png"), Node::Link("ring.png".into()));
                "ring.png".to_string()
            }
            2 => {
                w.tree.insert(gen::join(&here, "ring1"), Node::Link("./ring2".into()));
                w.tree.insert(gen::join(&here, "ring2"), Node::Link("ring1".into()));
                "ring1/x.png".to_string()
            }
            3 => format!("{}.png", "long".repeat(80)),
            _ => format!("nowhere/../{}", gen::basename(&f)),
        };
        let mut s = String::from_utf8_lossy(tree::bytes(&w.tree, &f).unwrap_or(&[])).into_owned();
        let line = format!("{}::{written}[]\n", if image { "image" } else { "include" });
        if r.chance(50) {
            s.push_str(&format!("\n\n{line}"));
        } else if !s.starts_with("= ") {
            s = format!("{line}\n{s}");
        } else {
            s.push_str(&format!("\n\n{line}\nAfter that.\n"));
        }
        tree::file(&mut w.tree, &f, s);
        if image {
            w.images.push((f, written.clone(), gen::join(&here, &written)));
        }
    } else if remove {
        let t = r.pick(&targets).clone();
        match r.below(3) {
            0 => w.tree.insert(t.0, Node::Link("gone".into())),
            1 if t.1 => w.tree.insert(t.0, Node::Dir),
            _ => w.tree.remove(&t.0),
        };
    }
    let mut k = new_case("P10", &w, &call);
    k.p["removed"] = json!(remove);
    for _ in 0..3 {
        let mut c = disturbed(r);
        match r.below(4) {
            0 | 1 => {
                // something happens to targets at some moment
                let mut ts = targets.clone();
                while !ts.is_empty() && c.edits.len() < 3 {
                    let i = r.below(ts.len());
                    let t = ts.swap_remove(i);
                    let kind = *r.pick(&["unlink", "unlink", "mkdir", "link", "chmod", "away"]);
                    // a directory in place of an image still exists
                    let kind = if kind == "mkdir" && !t.1 { "unlink" } else { kind };
                    c.edits.push(edit(kind, &t.0, "gone-for-good"));
                    if r.chance(50) {
                        break;
                    }
                }
                c.edit_rate = *r.pick(&[2000, 6000, 20000, 60000]);
                if r.chance(30) {
                    c.max_faults = 200;
                    c.rates.push(("read".into(), "short".into(), 20000));
                }
            }
            _ => {
                for _ in 0..r.range(1, 2) {
                    let t = r.pick(&targets).0.clone();
                    let mut f = path_fault(r, &[t], false);
                    if r.chance(60) {
                        f.from_ev = 0;
                    }
                    c.pf.push(f);
                }
            }
        }
        k.cfgs.push(c);
    }
    if r.chance(50) && !call.stdin {
        let mut h = conv(1, if call.nores { "nores" } else { "file" }, &w.main, b);
        h["faults"] = json!(true);
        k.hist.push(h);
    }
    k
}
/// To standard output where possible
fn set_quiet(c: &mut Call) {
    if c.backend != "docx" {
        super::files::set_output(c, "-", None);
    }
}

/// Paths whose fault or disappearance actually happened in a run
fn affected(cf: &Cfg, o: &Out) -> Vec<String> {
    let mut v = vec![];
    for f in o.fired() {
        if f.act == shm::act("edit") as u32 {
            v.extend(cf.edits.get(f.arg as usize).map(|e| e.path.clone()));
        }
    }
    for l in o.log.lines().filter(|l| l.starts_with("P ")) {
        if let Some(i) = l.rsplit(' ').next().and_then(|x| x.parse::<usize>().ok()) {
            v.extend(cf.pf.get(i).map(|p| p.path.clone()));
        }
    }
    v
}

fn eval_p10(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = Meta::of(c);
    let (b, bt) = baseline(w, c, &mut e);
    let all: Vec<&(String, String, String)> = m.includes.iter().chain(&m.images).collect();
    if b.abnormal() {
        e.fail("abnormal-end", format!("{} {:?}", b.status(), b.err_text()));
        return e;
    }
    if c.p["removed"] == true {
        let text = c.cmds[0].stdin.as_ref().map(|b| b.0.as_slice()).or(tree::bytes(&c.tree, &m.main)).unwrap_or(&[]);
        let mut tree = c.tree.clone();
        tree.retain(|_, n| !matches!(n, Node::Link(_)));
        if m.nores {
            for i in &m.images {
                tree.entry(i.2.clone()).or_insert(Node::File("".into()));
            }
        }
        let gone = missing_targets(&tree, gen::dirname(&m.main), text, 9);
        if !gone.is_empty() {
            e.nontrivial = true;
            e.probe("missing-from-the-start");
            if b.ok() {
                e.fail("left-out", format!("exit 0 although these targets are missing: {gone:?}"));
            } else if !gone.iter().any(|g| b.err_text().contains(g.as_str())) {
                e.fail("not-named", format!("the error names none of {gone:?}: {:?}", b.err_text()));
            }
        }
        if !b.ok() {
            return e;
        }
    }
    if !b.ok() {
        e.probe("baseline-failed");
        return e;
    }
    // what the library gives when nothing happens
    let reference = c.hist.first().map(|h| fresh(w, &mut e, &c.tree, "", h, &Cfg::default()));
    for (i, cf) in c.cfgs.iter().enumerate() {
        let lib = i >= 1 && c.hist.first().is_some();
        let (ok, same_as, message, out);
        if lib {
            let h = &c.hist[0];
            let mut cf = cf.clone();
            cf.faults_on = false;
            w.reset(&c.tree);
            let l = w.lib(&json!({"main": [h]}), "", &cf);
            e.note_lib(Some(i), &l);
            e.probe("library");
            let Some(v) = l.get(1) else {
                e.fail("abnormal-end", format!("library process: {} {:?}", l.out.status(), l.out.err_text()));
                continue;
            };
            ok = v["status"] == "ok";
            same_as = Some(&v["out"]) == reference.as_ref().map(|r| &r["out"]);
            message = v["err"].as_str().unwrap_or("").to_string();
            out = l.out;
        } else {
            let (o, t) = one(w, &c.tree, &c.cmds[0], cf);
            e.note(Some(i), &o);
            if o.abnormal() {
                e.fail("abnormal-end", format!("{} {:?}", o.status(), o.err_text()));
            }
            ok = o.ok();
            same_as = o.stdout == b.stdout && dest_bytes(&t, &m.dest) == dest_bytes(&bt, &m.dest);
            message = o.err_text();
            out = o;
        }
        let hit = affected(cf, &out);
        let names: Vec<&str> = all.iter().filter(|i| hit.contains(&i.2)).map(|i| i.1.as_str()).collect();
        if names.is_empty() {
            continue;
        }
        e.nontrivial = true;
        if ok {
            e.probe("affected-but-complete");
            if !same_as {
                e.fail("left-out", format!("success, but not the document with {names:?}; injected {}", injected(&out)));
            }
        } else {
            e.probe("affected-and-refused");
            if !names.iter().any(|n| message.contains(n)) {
                e.fail("not-named", format!("the error names none of {names:?}: {message:?}; injected {}", injected(&out)));
            }
        }
    }
    e
}

// ---------------------------------------------------------------- P15

/// A file's versions; each is a list of paragraphs (true) and included files
#[derive(Clone, Serialize, Deserialize, Debug)]
struct Versions {
    path: String,
    code: bool,
    /// items of each version: -1 a paragraph, otherwise the number of an included file
    items: Vec<Vec<i64>>,
}
impl Versions {
    fn marker(f: usize, k: usize, i: usize) -> String {
        format!("wq{f}v{k}p{i}q")
    }
    fn text(&self, f: usize, k: usize, all: &[Versions], pad: usize) -> String {
        let mut s = String::new();
        let mut p = 0;
        for it in &self.items[k] {
            if *it < 0 {
                let m = Self::marker(f, k, p);
                p += 1;
                let fill = "word ".repeat(pad);
                if self.code {
                    s.push_str(&format!("let {m} = 1; // {fill}\n"));
                } else {
                    s.push_str(&format!("{m} {fill}\n\n"));
                }
            } else {
                let to = &all[*it as usize];
                let w = gen::relative(gen::dirname(&self.path), &to.path);
                if to.code {
                    s.push_str(&format!("[source]\n----\ninclude::{w}[]\n----\n\n"));
                } else {
                    s.push_str(&format!("include::{w}[]\n\n"));
                }
            }
        }
        s
    }
    /// Reads one inclusion of file `f` off the front of the stream
    fn parse(all: &[Versions], f: usize, s: &[String], pos: &mut usize, used: &mut Vec<(usize, usize)>) -> Result<(), String> {
        let Some(first) = s.get(*pos) else { return Err(format!("nothing of {} is there", all[f].path)) };
        let head = format!("wq{f}v");
        let Some(k) = first.strip_prefix(&head).and_then(|x| x.split('p').next()).and_then(|x| x.parse::<usize>().ok()) else {
            return Err(format!("{first:?} where {} should start", all[f].path));
        };
        if k >= all[f].items.len() {
            return Err(format!("unknown version {first:?}"));
        }
        used.push((f, k));
        let mut p = 0;
        for it in &all[f].items[k] {
            if *it < 0 {
                let want = Self::marker(f, k, p);
                p += 1;
                if s.get(*pos) != Some(&want) {
                    return Err(format!("{:?} where {want:?} of version {k} of {} should be", s.get(*pos), all[f].path));
                }
                *pos += 1;
            } else {
                Self::parse(all, *it as usize, s, pos, used)?;
            }
        }
        Ok(())
    }
}

fn gen_p15(r: &mut Rng, _t: bool) -> Case {
    let n = r.range(1, 5);
    let dir = *r.pick(&["", "docs"]);
    let mut all: Vec<Versions> = (0..n)
        .map(|i| {
            let code = i > 0 && r.chance(20);
            let sub = if i == 0 { "" } else { *r.pick(&["", "p", "p/q"]) };
            let name = if i == 0 { "main.adoc".to_string() } else { format!("i{i}.{}", if code { "rs" } else { *r.pick(&["adoc", "txt"]) }) };
            Versions { path: gen::join(&gen::join(dir, sub), &name), code, items: vec![] }
        })
        .collect();
    let big = r.chance(25);
    for i in 0..n {
        for k in 0..r.range(2, 4) {
            // the first item is a paragraph, so that the version shows
            let mut items = vec![-1];
            let m = if big && r.chance(60) { r.range(10, 60) } else { r.range(0, 5) };
            for _ in 0..m {
                if i + 1 < n && !all[i].code && r.chance(if i == 0 { 40 } else { 20 }) && items.iter().filter(|x| **x >= 0).count() < 4 {
                    items.push(r.range(i + 1, n - 1) as i64);
                } else {
                    items.push(-1);
                }
            }
            if i == 0 && k == 0 && n > 1 && items.iter().all(|x| *x < 0) {
                items.push(r.range(1, n - 1) as i64);
            }
            all[i].items.push(items);
        }
    }
    let pad = if big { r.range(5, 60) } else { r.below(4) };
    let mut t = Tree::new();
    for i in 0..n {
        tree::file(&mut t, &all[i].path, all[i].text(i, 0, &all, pad));
    }
    let mut k = Case::new("P15", t);
    let b = if r.chance(50) { "htmlbook" } else { "json" };
    let dest = r.chance(30);
    let mut args = vec![all[0].path.clone(), "-b".into(), b.into(), "-o".into(), if dest { "res.out".into() } else { "-".to_string() }];
    if r.chance(15) {
        args.push("-x".into());
    }
    k.cmds.push(Cmd { args, ..Cmd::default() });
    for _ in 0..3 {
        let mut c = disturbed(r);
        for _ in 0..r.range(1, 8) {
            let i = r.below(n);
            let v = r.below(all[i].items.len());
            c.edits.push(edit("replace", &all[i].path, all[i].text(i, v, &all, pad)));
        }
        c.edit_rate = *r.pick(&[4000, 12000, 30000, 60000]);
        if r.chance(60) {
            c.max_faults = *r.pick(&[5, 100]);
            c.short_mode = r.below(4) as u32;
            c.rates.push(("read".into(), "short".into(), *r.pick(&[10000, 40000])));
            c.rates.push(("read".into(), "eintr".into(), *r.pick(&[0, 5000])));
        }
        k.cfgs.push(c);
    }
    // one process, files replaced between its conversions
    let mut id = 0;
    for _ in 0..r.range(2, 5) {
        id += 1;
        k.hist.push(conv(id, "file", &all[0].path, r.pick(&["htmlbook", "json", "docx"])));
        for _ in 0..r.range(1, 3) {
            let i = r.below(n);
            let v = r.below(all[i].items.len());
            let mut ed = lib_edit("write", &all[i].path, &all[i].text(i, v, &all, pad));
            ed["file"] = json!(i);
            ed["version"] = json!(v);
            if r.chance(40) {
                ed["mtime"] = json!(1_600_000_000 + r.below(5) as u64);
            }
            ed["in_place"] = json!(r.chance(30));
            k.hist.push(ed);
        }
    }
    k.p = json!({"all": all, "dest": dest});
    k
}

fn eval_p15(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let Ok(all) = serde_json::from_value::<Vec<Versions>>(c.p["all"].clone()) else { return e };
    let judge = |e: &mut Eval, text: &[u8], now: Option<&[usize]>, how: &str| {
        let s = markers(text, "wq");
        let (mut pos, mut used) = (0, vec![]);
        let r = Versions::parse(&all, 0, &s, &mut pos, &mut used);
        if let Err(x) = r {
            e.fail("mixture", format!("{x}; {how}"));
        } else if pos != s.len() {
            e.fail("mixture", format!("{} more paragraphs than the versions have; {how}", s.len() - pos));
        }
        if let Some(now) = now {
            for (f, k) in &used {
                if now[*f] != *k {
                    e.fail("stale", format!("version {k} of {} although version {} is there; {how}", all[*f].path, now[*f]));
                }
            }
        }
        used
    };
    for (i, cf) in c.cfgs.iter().enumerate() {
        let (o, t) = one(w, &c.tree, &c.cmds[0], cf);
        e.note(Some(i), &o);
        if !o.ok() {
            // nothing was missing at any moment, but giving up is not a wrong text
            e.probe("gave-up");
            continue;
        }
        let replaced = o.fired().iter().filter(|f| f.act == shm::act("edit") as u32).count();
        e.nontrivial |= replaced > 0;
        let dest = Some("res.out".to_string());
        let text = if c.p["dest"] == true { dest_bytes(&t, &dest).unwrap_or(&[]).to_vec() } else { o.stdout.clone() };
        let used = judge(&mut e, &text, None, &format!("{replaced} replacements, injected {}", injected(&o)));
        if used.iter().any(|u| u.1 > 0) {
            e.probe("newer-version-seen");
        }
    }
    w.reset(&c.tree);
    let l = w.lib(&script(&c.hist), "", &Cfg::default());
    e.note_lib(None, &l);
    let mut now = vec![0usize; all.len()];
    for h in &c.hist {
        if h["op"] == "convert" {
            let Some(v) = l.get(h["id"].as_i64().unwrap()) else {
                e.fail("abnormal-end", format!("library process: {} {:?}", l.out.status(), l.out.err_text()));
                break;
            };
            if v["status"] == "ok" {
                judge(&mut e, v["out"].as_str().unwrap_or("").as_bytes(), Some(&now), "library");
                e.probe("library");
            } else {
                e.fail("abnormal-end", format!("library: {}", outcome(v)));
            }
        } else if let Some(f) = h["file"].as_u64() {
            now[f as usize] = h["version"].as_u64().unwrap_or(0) as usize;
            e.nontrivial = true;
        }
    }
    e
}
