//! Properties about what surrounds a conversion: chance, other files, other processes.

use super::files::hashed;
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P17",
            gen: gen_p17,
            eval: eval_p17,
            cases: (2500, 80_000),
            rule: "a case counts if the first run says something on standard error",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P18",
            gen: gen_p18,
            eval: eval_p18,
            cases: (1500, 50_000),
            rule: "a case counts if the conversion succeeds alone and was repeated among other files",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P19",
            gen: gen_p19,
            eval: eval_p19,
            cases: (2500, 80_000),
            rule: "a case counts if one of the conversions succeeds alone and the processes took turns at least once before the first of them ended",
            real: REAL,
            shrink_files: true,
        },
    ]
}

// ---------------------------------------------------------------- P17

const PLAIN_ENVS: &[(&str, &[&str])] = &[
    ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8"]),
    ("LC_ALL", &["C", "POSIX", "ja_JP.UTF-8"]),
    ("TZ", &["UTC", "Asia/Tokyo", "America/New_York"]),
    ("USER", &["root", "somebody"]),
    ("SOURCE_DATE_EPOCH", &["0", "946684800"]),
    ("HOSTNAME", &["a", "b"]),
    ("PWD", &["/", "/nonexistent"]),
    ("EDITOR", &["vi"]),
];

/// Things the converter has something to say about
fn complaint(r: &mut Rng, n: usize) -> String {
    let w = |r: &mut Rng| format!("{}{}", r.pick(&["a", "key", "n", "opt"]), r.below(40));
    match r.below(15) {
        0 => format!("see <<{}>> and <<{}>>\n\n", w(r), w(r)),
        1 => format!("{{{}}} {{{}}} {{{}}}\n\n", w(r), w(r), w(r)),
        2 => format!("include::gone{n}.adoc[]\n\n"),
        3 => format!("image::gone{n}.png[]\n\n"),
        4 => "====== Too deep\n\ntext\n\n".to_string(),
        5 => format!("[#{0}]\none\n\n[#{0}]\ntwo\n\n", w(r)),
        6 => "|===\n|===\n\n".to_string(),
        7 => "----\nnever closed\n".to_string(),
        8 => format!("== {}\n\n==== Skipped\n\n", w(r)),
        9 => "* item\n+\n====\nlost\n\n".to_string(),
        10 => format!("footnote:{}[]\n\n", w(r)),
        11 => format!("xref:{}.adoc#{}[]\n\n", w(r), w(r)),
        12 => "|===\n|a |b\n\n|c\n|===\n\n".to_string(),
        13 => format!("{}\n\n", crate::dict::piece(r)),
        _ => format!("pass:{}[x] menu:{}[] btn:[ok] [{}=\n\n", w(r), w(r), w(r)),
    }
}

fn gen_p17(r: &mut Rng, _t: bool) -> Case {
    let o = WorldOpts { docx: false, warn: true, max_includes: 4, max_images: 2, big: r.chance(2), plain: false };
    let (mut w, call) = scenario(r, Some(o));
    let main = w.main.clone();
    let mut text = match tree::bytes(&w.tree, &main) {
        Some(b) => String::from_utf8_lossy(b).into_owned(),
        None => String::new(),
    };
    if r.chance(40) {
        text = hashed(r, &mut w.tree, gen::dirname(&main));
    }
    if r.chance(70) {
        let mut more = String::new();
        for n in 0..r.range(1, 6) {
            more.push_str(&complaint(r, n));
        }
        if r.chance(50) || text.starts_with('=') {
            text = format!("{}\n\n{more}", text.trim_end());
        } else {
            text = format!("{more}{text}");
        }
    }
    put_file(&mut w.tree, &main, text.clone().into());
    let mut k = new_case("P17", &w, &call);
    for cmd in &mut k.cmds {
        if cmd.stdin.is_some() {
            cmd.stdin = Some(text.clone().into());
        }
    }
    // something fails every time
    if r.chance(30) {
        let mut src = sources(&w);
        src.extend(call.dest.clone());
        src.push("<stdout>".into());
        let write = r.chance(30);
        let mut f = path_fault(r, &src, write);
        f.from_ev = 0;
        k.p["always"] = json!([f]);
    }
    for i in 0..4 {
        let mut c = Cfg { rand_seed: r.next() >> 1, ..disturbed(r) };
        let mut cmd = k.cmds[0].clone();
        if i > 0 && !r.chance(30) {
            c.clock = r.below(2_000_000_000) as u64 * 1_000_000_000 + r.below(1_000_000_000) as u64;
            c.pid = r.range(2, 60000) as u32;
            c.heap_pad = r.below(4000) as u32;
            c.cpus = r.range(1, 16) as u32;
            c.ns_step = *r.pick(&[1, 50, 50, 10_000, 3_000_000]);
            if r.chance(60) {
                c.env_seed = r.next() >> 1;
            }
            for (n, vals) in PLAIN_ENVS {
                if r.chance(25) {
                    cmd.env.push((n.to_string(), r.pick(vals).to_string()));
                }
            }
        }
        if i > 0 && r.chance(40) {
            benign(r, &mut c);
        }
        k.cfgs.push(c);
        if i > 0 {
            k.cmds.push(cmd);
        }
    }
    k
}

fn eval_p17(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let mut first: Option<Out> = None;
    for (i, cf) in c.cfgs.iter().enumerate() {
        let cmd = &c.cmds[i.min(c.cmds.len() - 1)];
        let pf = serde_json::from_value(c.p["always"].clone()).unwrap_or_default();
        let (o, _) = one(w, &c.tree, cmd, &Cfg { pf, ..cf.clone() });
        e.note(Some(i), &o);
        let Some(f) = &first else {
            if o.panicked() || o.abnormal() {
                if std::env::var("VSIM_DEBUG").is_ok() {
                    eprintln!("PANIC {} {:?}", o.status(), o.err_text());
                }
                // somebody else's business
                e.probe("panicked");
                return e;
            }
            e.nontrivial = !o.stderr.is_empty();
            let n = o.stderr.iter().filter(|b| **b == b'\n').count();
            e.probe(["said-nothing", "one-line", "several-lines"][n.min(2)]);
            e.probe(if o.ok() { "exit-0" } else { "exit-nonzero" });
            first = Some(o);
            continue;
        };
        if o.code != f.code || o.abnormal() {
            e.fail("status-differs", format!("{} instead of {}; stderr {:?} instead of {:?}", o.status(), f.status(), o.err_text(), f.err_text()));
        } else if o.stderr != f.stderr {
            e.fail("messages-differ", describe(Some(&f.stderr), Some(&o.stderr)));
        }
    }
    e
}

// ---------------------------------------------------------------- P18

const DECOYS: &[&str] = &[
    ".asciidocr", ".asciidocrc", ".asciidocr.toml", "asciidocr.toml", "asciidocr.json", "asciidocr.yml", "asciidocr.conf",
    ".asciidoctorconfig", ".asciidoctorconfig.adoc", "docinfo.html", "docinfo-header.html", "docinfo-footer.html",
    "attributes.adoc", "_attributes.adoc", "config.toml", "config.adoc", "style.css", "htmlbook.css", "theme.css", "custom.css",
    "header.html", "footer.html", "header.adoc", "footer.adoc", "reference.docx", "template.docx", "theme.yml", ".env", ".git/config",
    "templates/htmlbook/htmlbook.html.tera", "templates/document.html.tera", "templates/block.html.tera", "antora.yml",
    ".config/asciidocr/config.toml", ".config/asciidocr.toml", ".cache/asciidocr/index", ".editorconfig", "Makefile", "index.adoc", "README.adoc",
    "partials/attributes.adoc", "nav.adoc", "include", "image", "-", "~", "con", "*", "a\nb", "lang/en.txt",
];
const DECOY_TEXTS: &[&str] = &[
    "decoytext\n", ":decoy: decoytext\n:icons: font\n:imagesdir: decoydir\n:sectnums:\n", "<p>decoytext</p>\n",
    "[output]\nbackend = \"json\"\ntitle = \"decoytext\"\n", "{\"backend\": \"json\", \"decoytext\": true}\n", "body { color: decoytext }\n", "",
    "{% block body %}decoytext{% endblock %}\n", "1\n", "true\n", "\u{0}\u{1}\u{2}",
];

/// Names that have to do with the world's own
fn derived(r: &mut Rng, path: &str) -> String {
    let (dir, base) = (gen::dirname(path), gen::basename(path));
    let stem = base.rsplit_once('.').map(|x| x.0).filter(|s| !s.is_empty()).unwrap_or(base);
    let ext = *r.pick(&["html", "json", "docx", "adoc", "css", "toml", "tmp", "bak", "lock", "part", "cache", "d", "yml", "xml", "asg", "tera"]);
    let name = match r.below(17) {
        0 => format!("{base}~"),
        1 => format!("#{base}#"),
        2 => format!(".{base}.swp"),
        3 => format!("{base}.{ext}"),
        4 => format!(".{base}.{ext}"),
        5 => format!("{stem}-docinfo.html"),
        6 => format!("{stem}-docinfo-{}.html", r.pick(&["header", "footer"])),
        7 => format!("_{base}"),
        8 => format!("{stem}-attributes.adoc"),
        9 => format!("{stem}.{ext}"),
        10 => base.to_uppercase(),
        11 => base.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        12 => stem.to_string(),
        13 => format!("{stem}.{}", r.pick(&["txt", "adoc", "asciidoc", "asc", "ad", "PNG", "jpg", "svg", "ADOC"])),
        14 => format!("{base}.{}", r.pick(&["txt", "adoc", "png"])),
        15 => base.replace('-', "_").replace(' ', "-"),
        _ => format!("{stem}.{}.{ext}", r.pick(&["old", "en", "new"])),
    };
    gen::join(dir, &name)
}

fn gen_p18(r: &mut Rng, _t: bool) -> Case {
    let o = WorldOpts { docx: false, warn: r.chance(30), max_includes: 4, max_images: 2, big: r.chance(2), plain: false };
    let (mut w, call) = scenario(r, Some(o));
    let mut gone = None;
    let targets: Vec<String> = w.includes.iter().chain(&w.images).map(|i| i.2.clone()).collect();
    if !targets.is_empty() && r.chance(20) {
        // one that is missing must not be found elsewhere
        let t = r.pick(&targets).clone();
        w.tree.remove(&t);
        gone = Some(t);
    }
    let mut k = new_case("P18", &w, &call);
    let cmd = &mut k.cmds[0];
    cmd.env.push(("HOME".into(), "@ROOT@/home/user".into()));
    cmd.env.push(("TMPDIR".into(), "@ROOT@/scratch".into()));
    if r.chance(30) {
        cmd.env.push(("XDG_CONFIG_HOME".into(), "@ROOT@/home/user/.config".into()));
    }
    for d in ["home/user", "scratch"] {
        k.tree.insert(d.into(), Node::Dir);
    }
    // where they could be looked for
    let src = sources(&w);
    let mut dirs: Vec<String> = vec!["".into(), "home/user".into(), "home/user/.config".into(), "scratch".into(), call.cmd.cwd.clone()];
    for s in &src {
        let mut d = gen::dirname(s);
        loop {
            dirs.push(d.to_string());
            if d.is_empty() {
                break;
            }
            d = gen::dirname(d);
        }
    }
    dirs.sort();
    dirs.dedup();
    let texts: String = k.tree.values().filter_map(|n| match n { Node::File(b) => Some(String::from_utf8_lossy(&b.0).into_owned()), _ => None }).collect();
    let mut decoys: Vec<Value> = vec![];
    for _ in 0..r.range(6, 30) {
        let path = match r.below(10) {
            0..=3 => gen::join(r.pick(&dirs), r.pick(DECOYS)),
            4..=6 => {
                let mut from = src.clone();
                from.retain(|s| !s.starts_with('<'));
                from.extend(call.dest.clone());
                if let (Some(g), true) = (&gone, r.chance(60)) {
                    from = vec![g.clone()];
                }
                let from = r.pick(&from).clone();
                derived(r, &from)
            }
            7 => {
                let s = gen::basename(match &gone { Some(g) if r.chance(60) => g, _ => r.pick(&src) }).to_string();
                gen::join(r.pick(&dirs), &s)
            }
            _ => {
                let n = crate::dict::name(r).to_string();
                let e = *r.pick(&["", ".adoc", ".html", ".css", ".toml", ".tera"]);
                gen::join(r.pick(&dirs), &format!("{n}{e}"))
            }
        };
        // nothing a document could mean, and nothing in the way of what it means
        let base = gen::basename(&path).to_string();
        let taken = src.iter().chain(&call.dest).chain(k.tree.keys()).any(|s| *s == path || s.starts_with(&format!("{path}/")) || path.starts_with(&format!("{s}/")) && !matches!(k.tree.get(s), Some(Node::Dir)));
        let named = texts.contains(&base) && !src.iter().any(|s| gen::basename(s) == base);
        if taken || named || base.starts_with("<") {
            continue;
        }
        let kind = *r.pick(&["file", "file", "file", "file", "dir", "dangling", "ring", "secret", "link"]);
        decoys.push(json!({"path": path, "kind": kind, "text": r.pick(DECOY_TEXTS)}));
    }
    // what the name of the output held before
    let before = match r.below(4) {
        0 => Value::Null,
        x => json!({"data": leftover(r), "newer": x != 2}),
    };
    k.p["decoys"] = json!(decoys);
    k.p["gone"] = json!(gone.is_some());
    k.p["before"] = before;
    k.p["probed"] = json!({"kind": r.pick(&["file", "file", "file", "dir", "dangling", "secret"]), "text": r.pick(DECOY_TEXTS)});
    // 0: among the others; 1: what was looked for is there; 2: others come and go meanwhile
    for i in 0..3 {
        let mut c = disturbed(r);
        if i == 2 {
            c.edit_rate = *r.pick(&[3000, 15000, 40000]);
            c.max_faults = 40;
            for d in &decoys {
                let path = d["path"].as_str().unwrap();
                // only beside what exists
                let dir = gen::dirname(path);
                let there = dir.is_empty() || k.tree.keys().any(|t| t.starts_with(&format!("{dir}/")) || t == dir);
                if there && c.edits.len() < 40 && !path.contains('\n') {
                    c.edits.push(edit("replace", path, d["text"].as_str().unwrap_or("")));
                    if r.chance(30) {
                        c.edits.push(edit(*r.pick(&["unlink", "mkdir"]), path, ""));
                    }
                }
            }
        }
        k.cfgs.push(c);
    }
    k
}

fn put_decoy(root: &std::path::Path, path: &str, d: &Value) {
    use std::os::unix::fs::{symlink, PermissionsExt};
    let p = root.join(path);
    if let Some(dir) = p.parent() {
        let _ = std::fs::create_dir_all(dir);
    }
    if std::fs::symlink_metadata(&p).is_ok() {
        return;
    }
    let text = d["text"].as_str().unwrap_or("");
    match d["kind"].as_str().unwrap_or("") {
        "dir" => {
            let _ = std::fs::create_dir(&p);
        }
        "dangling" => {
            let _ = symlink("nowhere-at-all", &p);
        }
        "ring" => {
            let _ = symlink(p.file_name().unwrap(), &p);
        }
        "link" => {
            let _ = symlink("/dev/null", &p);
        }
        kind => {
            let _ = std::fs::write(&p, text);
            let mode = if kind == "secret" { 0 } else { 0o644 };
            let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(mode));
            tree::set_mtime(&p, tree::MTIME + 50_000_000);
        }
    }
}

/// What the run asked about below the root and did not find, and did not try to create itself
fn looked_for(o: &Out) -> Vec<String> {
    let ops = o.ops();
    let made: Vec<&str> = ops.iter().filter(|x| matches!(x.2, "openw" | "name" | "remove")).map(|x| x.3).collect();
    let mut v: Vec<String> = ops
        .iter()
        .filter(|x| matches!(x.2, "openr" | "stat" | "realpath") && x.5 < 0 && !made.contains(&x.3))
        .map(|x| x.3.to_string())
        .filter(|p| !p.starts_with('/') && !p.starts_with('<') && !p.is_empty())
        .collect();
    v.sort();
    v.dedup();
    v
}

fn eval_p18(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = Meta::of(c);
    let (b, bt) = baseline(w, c, &mut e);
    if b.panicked() || b.abnormal() {
        e.probe("panicked");
        return e;
    }
    e.probe(if b.ok() { "exit-0" } else { "exit-nonzero" });
    let mut named: Vec<String> = m.includes.iter().chain(&m.images).map(|i| i.2.clone()).collect();
    named.push(m.main.clone());
    named.extend(m.dest.clone());
    let probed: Vec<String> = looked_for(&b)
        .into_iter()
        .filter(|p| {
            // nothing the document names; a directory would be in the way of what it names
            !named.iter().any(|n| n == p || n.starts_with(&format!("{p}/")) || p.starts_with(&format!("{n}/")))
        })
        .collect();
    let decoys = c.p["decoys"].as_array().cloned().unwrap_or_default();
    for (i, cf) in c.cfgs.iter().enumerate() {
        w.reset(&c.tree);
        let root = w.root.clone();
        match i {
            0 => {
                for d in &decoys {
                    put_decoy(&root, d["path"].as_str().unwrap(), d);
                }
            }
            1 => {
                for p in &probed {
                    put_decoy(&root, p, &c.p["probed"]);
                    e.probe("answered-a-probe");
                }
            }
            _ => {}
        }
        if let (Some(d), false) = (&m.dest, c.p["before"].is_null()) {
            let p = root.join(d);
            if !p.exists() {
                let mut t = Tree::new();
                t.insert(d.clone(), Node::File(serde_json::from_value(c.p["before"]["data"].clone()).unwrap_or_default()));
                tree::write_tree(&root, &t);
                tree::set_mtime(&p, tree::MTIME + if c.p["before"]["newer"] == true { 100_000_000 } else { -100_000_000 });
            }
        }
        let o = w.cli(&c.cmds[0], cf);
        let t = w.snapshot();
        e.note(Some(i), &o);
        e.nontrivial |= (b.ok() || c.p["gone"] == true) && (!decoys.is_empty() || !probed.is_empty());
        let how = match i {
            0 => "among other files".to_string(),
            1 => format!("with {probed:?} there"),
            _ => format!("while other files change; {}", injected(&o)),
        };
        if o.code != b.code || o.abnormal() {
            e.fail("status-differs", format!("{} instead of {} {how}; stderr {:?}", o.status(), b.status(), o.err_text()));
        } else if o.stdout != b.stdout {
            e.fail("stdout-differs", format!("{how}: {}", describe(Some(&b.stdout), Some(&o.stdout))));
        } else if b.ok() && dest_bytes(&t, &m.dest) != dest_bytes(&bt, &m.dest) {
            e.fail("file-differs", format!("{how}: {}", describe(dest_bytes(&bt, &m.dest), dest_bytes(&t, &m.dest))));
        } else if o.stderr != b.stderr {
            e.fail("messages-differ", format!("{how}: {}", describe(Some(&b.stderr), Some(&o.stderr))));
        }
    }
    e
}

// ---------------------------------------------------------------- P19

fn gen_p19(r: &mut Rng, _t: bool) -> Case {
    let o = WorldOpts { docx: false, warn: r.chance(30), max_includes: 3, max_images: 3, big: r.chance(4), plain: false };
    let (mut w, call) = scenario(r, Some(o));
    if r.chance(15) {
        // one that is rejected
        let mut t = String::from_utf8_lossy(tree::bytes(&w.tree, &w.main).unwrap_or(&[])).into_owned();
        t.push_str("\n\n");
        t.push_str(r.pick(REJECTED));
        put_file(&mut w.tree, &w.main, t.into());
    }
    let mut k = Case::new("P19", Tree::new());
    let n = if r.chance(25) { 3 } else { 2 };
    let mut metas: Vec<Value> = vec![];
    let same = r.chance(25);
    let alike = r.chance(40);
    let mut calls: Vec<Call> = vec![];
    for i in 0..n {
        let mut v = w.clone();
        if i > 0 && !same && r.chance(35) {
            // the same names in another directory
            let o = WorldOpts { docx: false, warn: false, max_includes: 3, max_images: 2, big: false, plain: false };
            let mut x = gen::world(r, &o);
            let pre = |p: &str| format!("twin{i}/{p}");
            x.tree = x.tree.into_iter().map(|(p, n)| (pre(&p), n)).collect();
            x.main = pre(&x.main);
            for t in x.includes.iter_mut().chain(&mut x.images) {
                *t = (pre(&t.0), t.1.clone(), pre(&t.2));
            }
            v = x;
        } else if i > 0 && !same && r.chance(40) {
            // another document beside it, with a similar name
            let base = gen::basename(&w.main);
            let stem = base.rsplit_once('.').map(|x| x.0).filter(|s| !s.is_empty()).unwrap_or(base);
            let name = match r.below(4) {
                0 => format!("{stem}{i}.adoc"),
                1 => format!("{stem}.txt{i}"),
                2 => format!("{i}{base}"),
                _ => format!("other{i}.adoc"),
            };
            v.main = gen::join(gen::dirname(&w.main), &name);
            let old = String::from_utf8_lossy(tree::bytes(&w.tree, &w.main).unwrap_or(&[])).into_owned();
            put_file(&mut v.tree, &v.main, format!("{}\n\nother document {i}\n", old.trim_end()).into());
        }
        let cl = if same && i > 0 {
            calls[0].clone()
        } else if i == 0 {
            let mut c = call.clone();
            c.cmd.stdin = c.cmd.stdin.map(|_| Bytes(tree::bytes(&w.tree, &w.main).unwrap_or(&[]).to_vec()));
            c
        } else {
            let b = if r.chance(45) { call.backend.clone() } else { backend(r).to_string() };
            gen::call(r, &v, &b)
        };
        // different things go to different places, named alike
        let mut cl = cl;
        if !same && (calls.iter().any(|o| o.dest.is_some() && o.dest == cl.dest) || cl.dest.is_some() && alike) {
            let p = gen::join(&cl.cmd.cwd, &format!("out.{i}"));
            cl.cmd.args.retain(|a| a != "-o" && a != "out.html" && a != "result" && a != "o.x.y" && a != "öut.html");
            cl.cmd.args.extend(["-o".into(), format!("out.{i}")]);
            cl.dest = Some(p);
        }
        w.tree.extend(v.tree.clone());
        metas.push(json!({"main": v.main, "dest": cl.dest}));
        calls.push(cl);
    }
    k.tree = w.tree.clone();
    for d in ["home", "scratch"] {
        k.tree.insert(d.into(), Node::Dir);
    }
    for c in &mut calls {
        c.cmd.env.push(("HOME".into(), "@ROOT@/home".into()));
        c.cmd.env.push(("TMPDIR".into(), "@ROOT@/scratch".into()));
    }
    if r.chance(30) {
        for c in &calls {
            if let Some(d) = &c.dest {
                put_file(&mut k.tree, d, leftover(r));
            }
        }
    }
    let clock = Cfg::default().clock;
    for (i, c) in calls.iter().enumerate() {
        k.cmds.push(c.cmd.clone());
        let mut f = disturbed(r);
        f.rand_seed = r.next() >> 1;
        f.pid = 3000 + 7 * i as u32 + r.below(6) as u32;
        f.clock = clock + if r.chance(50) { r.below(2_000_000) as u64 * 1000 } else { 0 };
        if r.chance(30) {
            benign(r, &mut f);
        }
        k.cfgs.push(f);
    }
    // one of them may fail or be killed
    let mut hurt = Value::Null;
    if r.chance(30) {
        let i = r.below(n);
        hurt = json!(i);
        let f = &mut k.cfgs[i];
        f.rates.clear();
        if r.chance(50) {
            f.max_faults = 1;
            let rate = *r.pick(&[600, 2500, 8000]);
            for op in ["openr", "openw", "read", "write", "writeout", "close", "stat", "realpath", "name", "sync", "remove"] {
                f.rates.push((op.into(), r.pick(&["crash-before", "crash-after"]).to_string(), rate));
            }
        } else {
            let all: Vec<&str> = READ_OPS.iter().chain(WRITE_OPS).copied().collect();
            hard(r, f, &all);
        }
    }
    k.p = json!({"procs": metas, "same": same, "hurt": hurt});
    // whose turn it is
    match r.below(6) {
        x @ 0..=2 => {
            let most = [2, 6, 25][x];
            for _ in 0..[300, 100, 30][x] {
                k.hist.push(json!({"proc": r.below(n), "calls": r.range(1, most)}));
            }
        }
        _ => {
            // up to somewhere around a call that changes something, then another
            for _ in 0..r.range(2, 7) {
                let (p, nth, plus) = (r.below(n), r.below(6), r.below(3));
                k.hist.push(match r.below(8) {
                    0 => json!({"proc": p, "calls": r.range(1, 40)}),
                    1 => json!({"proc": p, "calls": 100_000}),
                    2 => json!({"proc": p, "near": "any", "nth": r.below(80), "plus": 0}),
                    _ => json!({"proc": p, "near": "change", "nth": nth, "plus": plus}),
                });
            }
        }
    }
    k
}

/// How many calls of which process come next, from the calls each makes when alone
fn turns(hist: &[Value], alone: &[(Out, Tree)]) -> Vec<(usize, u32)> {
    let mut done = vec![0u32; alone.len()];
    let mut v = vec![];
    for h in hist {
        let p = h["proc"].as_u64().unwrap_or(0) as usize % alone.len();
        let x = |k: &str| h[k].as_u64().unwrap_or(0) as u32;
        let calls = match h["near"].as_str() {
            None => x("calls"),
            Some(near) => {
                let at: Vec<u32> = alone[p]
                    .0
                    .ops()
                    .iter()
                    .filter(|o| near == "any" || matches!(o.2, "openw" | "write" | "name" | "sync" | "remove" | "writeout" | "seek"))
                    .map(|o| o.0)
                    .collect();
                if at.is_empty() {
                    continue;
                }
                (at[x("nth") as usize % at.len()] + x("plus")).saturating_sub(done[p])
            }
        };
        if calls > 0 {
            done[p] = done[p].saturating_add(calls);
            v.push((p, calls));
        }
    }
    v
}

fn eval_p19(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let n = c.cmds.len();
    let dest = |i: usize| c.p["procs"][i]["dest"].as_str().map(|s| s.to_string());
    let hurt = c.p["hurt"].as_u64().map(|x| x as usize);
    let mut alone: Vec<(Out, Tree)> = vec![];
    for i in 0..n {
        if i > 0 && c.p["same"] == true {
            alone.push(alone[0].clone());
            continue;
        }
        let a = one(w, &c.tree, &c.cmds[i], &Cfg::default());
        e.note(None, &a.0);
        if a.0.abnormal() || a.0.panicked() {
            e.probe("panicked");
            return e;
        }
        alone.push(a);
    }
    let order = turns(&c.hist, &alone);
    w.reset(&c.tree);
    let before = w.snapshot();
    let outs = w.together(&c.cmds, &c.cfgs, &order);
    let after = w.snapshot();
    for (i, o) in outs.iter().enumerate() {
        e.note(Some(i), o);
    }
    e.key = crate::rng::mix(e.key, crate::rng::hash(format!("{order:?}").as_bytes()));
    e.nontrivial = alone.iter().any(|a| a.0.ok()) && order.len() > 1;
    e.probe(if c.p["same"] == true { "same-output" } else { "different-outputs" });
    for i in 0..n {
        let (o, (a, at)) = (&outs[i], &alone[i]);
        if hurt == Some(i) {
            e.probe(if o.ended == 4 { "one-killed" } else if o.ok() { "one-spared" } else { "one-failed" });
            continue;
        }
        let who = format!("process {i} of {n} ({:?})", c.cmds[i].args.join(" "));
        if o.code != a.code || o.abnormal() {
            e.fail("status-differs", format!("{who}: {} instead of {}; stderr {:?}", o.status(), a.status(), o.err_text()));
        } else if o.stdout != a.stdout {
            e.fail("stdout-differs", format!("{who}: {}", describe(Some(&a.stdout), Some(&o.stdout))));
        } else if o.stderr != a.stderr {
            e.fail("messages-differ", format!("{who}: {}", describe(Some(&a.stderr), Some(&o.stderr))));
        } else if a.ok() && !(c.p["same"] == true && hurt.is_some()) && dest_bytes(&after, &dest(i)) != dest_bytes(at, &dest(i)) {
            e.fail("file-differs", format!("{who}: {}", describe(dest_bytes(at, &dest(i)), dest_bytes(&after, &dest(i)))));
        }
    }
    if hurt.is_none() {
        let dests: Vec<String> = (0..n).filter_map(dest).collect();
        for d in tree::diff(&before, &after) {
            if !dests.iter().any(|x| x == tree::diff_path(&d)) {
                e.fail("other-file", format!("after {n} conversions at the same time: {d}"));
            }
        }
    }
    e
}
