//! Documents that end early or have bytes changed.

use super::*;
use crate::dict;
use crate::gen::Mix;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P08",
        gen: gen_p08,
        eval: eval_p08,
        cases: (4000, 60_000),
        rule: "every batch of damaged documents counts",
        real: REAL,
        shrink_files: true,
    }]
}

/// Pieces of markup that open, close or interrupt something
const PIECES: &[&str] = &[
    "*", "**", "_", "__", "`", "``", "#", "##", "+", "++", "+++", "^", "~", "\"`", "`\"", "'`", "`'", "[", "]", "[[", "]]", "<<", ">>",
    "(", ")", "((", "))", "{", "}", "{a}", "::", ":", ":a:", ":!a:", ":a: b", ";;", "|", "||", "|===", "!===", ",===", ":===", "a|",
    "2+|", ".3+|", "----", "-----", "....", "====", "=====", "****", "____", "++++", "////", "--", "```", "~~~~", "'''", "***", "<<<",
    "+\n", "\n+\n", " +", " +\n", "= ", "== ", "=== ", "==== ", "===== ", "====== ", "# ", "* ", "** ", "*** ", "- ", ". ", ".. ",
    "... ", "1. ", "a. ", "<1> ", "<1>", "<.>", "a:: ", "a::: ", "a::", "NOTE: ", "TIP:", "[NOTE]", "[quote]", "[quote,", "[verse",
    "[source", "[source,rust]", "[cols=\"1,2\"]", "[cols=", "[cols=\"2*\"]", "[%header]", "[options=\"header\"]", "[[id]]", "[#id]", "[.role]", "[.role]#",
    "[id=x]", "[role=\"", "[abstract]", "[discrete]", "[colophon]", ".Title", "//", "// c", "// tag::a[]", "// end::a[]", "footnote:[",
    "footnote:a[b]", "link:", "link:x[", "link:x[y]", "http://", "https://x.y[", "https://x.y[z]", "mailto:", "a@b.c", "image:",
    "image:x[]", "image::", "image::x[", "image::x.png[]", "image::nowhere.png[]", "include::", "include::inc1.adoc[]", "include::inc2.txt[",
    "include::code.rs[lines=1..2]", "include::code.rs[lines=1..900000000]", "include::inc1.adoc[lines=-900000000..3;2]",
    "include::code.rs[lines=2..2147483647]", "include::inc1.adoc[leveloffset=+100]", "include::inc1.adoc[leveloffset=-3]", ":leveloffset: +1",
    ":leveloffset: -1", ":leveloffset: 127", ":leveloffset: -128", ":leveloffset: 4", "[start=2147483648]", "[cols=\"99999*\"]", "[cols=99999]", "[cols=0]", "99999+|",
    "99999*|", "include::code.rs[tag=t]", "include::code.rs[tags=t;u]", "include::inc1.adoc[leveloffset=+1]",
    "include::inc2.txt[lines=2..1]", "include::inc1.adoc[lines=", "xref:", "xref:id[", "<<id,", "<<id>>", "pass:[", "pass:q[x]", "stem:[",
    "kbd:[", "btn:[x]", "menu:a[b]", "icon:x[]", "indexterm:[a]", "(((a)))", "ifdef::a[]", "ifndef::a[", "endif::[]", "ifeval::[1 == 1]",
    "\\", "\\*", "\t", "  ", "\r\n", "\r", "\u{0}", "\u{feff}", "\u{2028}", "é", "日本", "\u{301}", "😀", "\"", "'", "&", "&amp;", "&#8217;", "<",
    ">", "<b>", "->", "...", "(C)", "\n", "\n\n", "\n\n\n", " ", "a", "1", "word",
];

fn piece(r: &mut Rng) -> String {
    if r.chance(20) {
        dict::piece(r)
    } else {
        r.pick(PIECES).to_string()
    }
}

/// A place right after something that has just begun or ended
fn after_mark(r: &mut Rng, s: &str) -> usize {
    let at: Vec<usize> = s.char_indices().filter(|c| c.1.is_ascii_punctuation()).map(|c| c.0 + 1).collect();
    if at.is_empty() {
        return s.len();
    }
    let i = *r.pick(&at) + r.below(3);
    (0..=i.min(s.len())).rev().find(|i| s.is_char_boundary(*i)).unwrap()
}

/// A block with attributes nobody would give it
fn labelled(r: &mut Rng) -> String {
    let mut s = String::from("\n");
    if r.chance(20) {
        // limits reached step by step
        for _ in 0..r.range(1, 4) {
            s.push_str(&format!(":leveloffset: {}\n", r.pick(&["-1", "-100", "-128", "127", "+1", "+127", "1", "-7"])));
        }
        return s + r.pick(&["", "\n== s\n", "\n===== s\n", "\n= s\n"]);
    }
    if r.chance(35) {
        let mut v = vec![];
        for _ in 0..r.range(1, 4) {
            let n = *r.pick(&["1", "2", "3", "9", "x", "é", "", "0", "-1", "99"]);
            v.push(format!("{n}{}{}", r.pick(&["", "", "*"]), r.pick(&["", "", "", "a", "<", "^", "é"])));
        }
        let v = v.join(r.pick(&[",", ",", ";", ", "]));
        return format!("\n[cols=\"{v}\"]\n|===\n|a |b\n\n|c |d\n|===\n");
    }
    for _ in 0..r.range(1, 3) {
        let a = if r.chance(30) { dict::name(r).to_string() } else { r.pick(&["cols", "cols", "options", "start", "role", "id", "width", "tags", "lines", "opts", "subs"]).to_string() };
        let v = *r.pick(dict::VALUES);
        s.push_str(&match r.below(6) {
            0 => format!("[{a}={v}]\n"),
            1 => format!("[{v},{a}]\n"),
            2 => format!("[{},{a},{v}]\n", r.pick(&["source", "quote", "verse", "", "so", "qué"])),
            _ => format!("[{a}=\"{v}\"]\n"),
        });
    }
    s.push_str(r.pick(&[
        "|===\n|a |b\n\n|c |d\n|===\n",
        "|===\n|a |b |c\n|d |e |f\n|===\n",
        ". a\n. b\n",
        "* a\n",
        "----\ncode <1>\n----\n<1> c\n",
        "____\nq\n____\n",
        "image::x.png[a,b,c]\n",
        "text\n",
        "== s\n\ntext\n",
    ]));
    s
}

/// Attributes of an include directive
fn selection(r: &mut Rng) -> String {
    let n = |r: &mut Rng| *r.pick(&["", "", "0", "1", "2", "3", "9", "-1", "-7", "x", "é", "2147483647", "-2147483648", "2147483648"]);
    match r.below(9) {
        0 => String::new(),
        8 => format!("{}={}", dict::name(r), r.pick(dict::VALUES)),
        1 | 2 => "tag=t".into(),
        3 => format!("tags={}", r.pick(&["t;u", "", ";", "u", "!t", "*"])),
        4 => format!("leveloffset={}{}", r.pick(&["", "+", "-"]), n(r)),
        _ => {
            let mut s = String::from("lines=");
            for i in 0..r.range(1, 4) {
                if i > 0 {
                    s.push_str(r.pick(&[";", ","]));
                }
                s.push_str(n(r));
                if r.chance(70) {
                    s.push_str(&format!("..{}", n(r)));
                }
            }
            s
        }
    }
}

/// A document of arbitrary mixed constructs, damaged at random places
fn damaged(r: &mut Rng, docx: bool) -> String {
    let mut s = String::new();
    let parts = r.range(1, 4);
    for k in 0..parts {
        let o = gen::Opts {
            mix: *r.pick(&[Mix::Parents, Mix::Continuations, Mix::Wrapped]),
            plain: false,
            docx: docx && r.chance(70),
            warn: r.chance(20),
            uni: r.chance(40),
            blocks: 0,
        };
        let mut d = gen::Doc::new(r, o, &format!("d{k}"));
        if k == 0 && d.r.chance(40) {
            d.header();
        }
        for _ in 0..d.r.below(4) {
            if d.r.chance(25) {
                let l = d.r.range(1, 5);
                d.section(l);
            }
            d.block();
        }
        s.push_str(&std::mem::take(&mut d.out));
    }
    if r.chance(15) {
        // nothing but pieces
        s.clear();
        for _ in 0..r.range(1, 25) {
            s.push_str(&piece(r));
            if r.chance(30) {
                s.push('\n');
            }
        }
    }
    let cut = |r: &mut Rng, s: &str| -> usize {
        let i = r.below(s.len() + 1);
        (0..=i).rev().find(|i| s.is_char_boundary(*i)).unwrap()
    };
    let line_start = |r: &mut Rng, s: &str| -> usize {
        let mut v: Vec<usize> = vec![0];
        v.extend(s.match_indices('\n').map(|m| m.0 + 1));
        *r.pick(&v)
    };
    let line_end = |s: &str, i: usize| s[i..].find('\n').map(|x| i + x + 1).unwrap_or(s.len());
    for _ in 0..r.below(5) {
        let (a, b) = (cut(r, &s), cut(r, &s));
        let (a, b) = (a.min(b), a.max(b));
        let near = (a..=(a + 12).min(s.len())).rev().find(|i| s.is_char_boundary(*i)).unwrap();
        match r.below(14) {
            0 => {
                let b = if r.chance(50) { after_mark(r, &s) } else { b };
                s.truncate(b)
            }
            // lost
            1 => s.replace_range(a..near, ""),
            2 => {
                // repeated
                let again = s[a..near].to_string();
                s.insert_str(near, &again);
            }
            3 | 4 => s.insert_str(a, &piece(r)),
            5 => {
                let i = line_start(r, &s);
                let p = piece(r);
                s.insert_str(i, &if r.chance(60) { format!("{p}\n") } else { p.to_string() });
            }
            6 => {
                // a line lost
                let i = line_start(r, &s);
                let e = line_end(&s, i);
                s.replace_range(i..e, "");
            }
            7 => {
                // a bit flipped
                let at: Vec<usize> = (0..s.len()).filter(|i| s.as_bytes()[*i] < 128).collect();
                if !at.is_empty() {
                    let i = *r.pick(&at);
                    let c = (s.as_bytes()[i] ^ (1 << r.below(7))) as char;
                    s.replace_range(i..i + 1, &c.to_string());
                }
            }
            8 => {
                // a number grown
                let at: Vec<usize> = (0..s.len()).filter(|i| s.as_bytes()[*i].is_ascii_digit()).collect();
                if !at.is_empty() {
                    let i = *r.pick(&at);
                    s.insert_str(i, r.pick(&["0", "9", "99", "-", "99999999", "2147483647", "2147483648", "-2147483648", "9999999999999999999"]));
                }
            }
            9 => {
                // a character of more than one byte in the place of another
                let at: Vec<usize> = (0..s.len()).filter(|i| s.as_bytes()[*i] < 128 && s.as_bytes()[*i] != b'\n').collect();
                if !at.is_empty() {
                    let i = *r.pick(&at);
                    s.replace_range(i..i + 1, r.pick(&["é", "日", "😀", "\u{301}", "\u{a0}"]));
                }
            }
            10 => {
                // a value lost, or another one in its place
                let at: Vec<usize> = (1..s.len()).filter(|i| s.as_bytes()[*i] == b'=' && s.as_bytes()[*i - 1].is_ascii_alphanumeric()).collect();
                if !at.is_empty() {
                    let mut i = *r.pick(&at) + 1;
                    let mut ends: &[char] = &['\n', ']', ','];
                    if s[i..].starts_with('"') && r.chance(70) {
                        i += 1;
                        ends = &['\n', '"'];
                    }
                    let n = s[i..].find(ends).unwrap_or(s.len() - i);
                    s.replace_range(i..i + n, r.pick(dict::VALUES));
                }
            }
            11 => {
                // the same for attributes of the document
                let at: Vec<usize> = s.match_indices("\n:").map(|m| m.0 + 2).collect();
                if !at.is_empty() {
                    let i = *r.pick(&at);
                    if let Some(k) = s[i..].find(':').map(|k| i + k + 1) {
                        let n = s[k..].find('\n').unwrap_or(s.len() - k);
                        s.replace_range(k..k + n, &format!(" {}", r.pick(dict::VALUES)));
                    }
                }
            }
            12 => {
                // a word stretched
                let at: Vec<usize> = (0..s.len()).filter(|i| s.as_bytes()[*i].is_ascii_alphanumeric()).collect();
                if !at.is_empty() {
                    let i = *r.pick(&at);
                    let w = *r.pick(&["é", "日", "😀", "x", "xé", "-", "ab"]);
                    s.insert_str(i, &w.repeat(*r.pick(&[3, 10, 20, 40, 70, 140, 300])));
                }
            }
            _ => {
                // lines swapped
                let (i, j) = (line_start(r, &s), line_start(r, &s));
                if j < i {
                    let e = line_end(&s, i);
                    let l = s[i..e].to_string();
                    s.replace_range(i..e, "");
                    s.insert_str(j, &l);
                }
            }
        }
    }
    if r.chance(12) {
        let at = if s.starts_with("= ") { line_end(&s, 0) } else { 0 };
        s.insert_str(at, &dict::setting(r));
    }
    if r.chance(10) {
        let i = line_start(r, &s);
        let b = labelled(r);
        s.insert_str(i, &b);
    }
    if r.chance(8) {
        let i = line_start(r, &s);
        let n = *r.pick(&["inc1.adoc", "inc2.txt", "code.rs"]);
        let a = selection(r);
        s.insert_str(i, &format!("include::{n}[{a}]\n"));
    }
    if r.chance(6) {
        // values that refer to each other
        for _ in 0..r.range(1, 5) {
            let i = line_start(r, &s);
            let i = if r.chance(50) { 0 } else { i };
            let (a, b) = (*r.pick(&["a", "b", "c"]), *r.pick(&["a", "b", "c"]));
            s.insert_str(i, &format!(":{a}: {}{{{b}}}{}\n", r.pick(&["", "x "]), r.pick(&["", " {a}", "{c}"])));
        }
        s.push_str(r.pick(&["", "\n\n{a} {b}\n", "\n\ninclude::{a}[]\n", "\n\nimage::{b}.png[]\n", "\n\n* {c}\n"]));
    }
    if r.chance(4) {
        // the same thing over and over
        let p = piece(r);
        let q = *r.pick(&["", "\n", "\n\n", " ", "x"]);
        s.push_str(&format!("{p}{q}").repeat(r.range(20, 600)));
    }
    s
}

fn gen_p08(r: &mut Rng, _t: bool) -> Case {
    let mut t = Tree::new();
    for n in ["inc1.adoc", "inc2.txt", "code.rs"] {
        let s = if n == "code.rs" {
            let mut s = "// tag::t[]\nfn f() {}\n// end::t[]\nlet x; // <1>\n".to_string();
            match r.below(6) {
                0 | 1 => s.truncate(after_mark(r, &s)),
                2 => {
                    let i = after_mark(r, &s);
                    s.insert_str(i, &piece(r));
                }
                _ => {}
            }
            s
        } else {
            damaged(r, false).replace("include::", "include:")
        };
        tree::file(&mut t, n, s);
    }
    tree::file(&mut t, "x.png", Bytes(gen::PNG.to_vec()));
    let mut k = Case::new("P08", t);
    for id in 1..=12 {
        let b = *r.pick(&["htmlbook", "htmlbook", "json", "docx", "count"]);
        let text = damaged(r, b == "docx");
        let mut h = conv(id, *r.pick(&["fromstr", "fromstr", "file", "nores", "default"]), "doc.adoc", b);
        h["text"] = json!(text);
        h["quiet"] = json!(true);
        k.hist.push(h);
    }
    // the program, reading streams that end early or have bytes changed
    let mut s = damaged(r, true);
    for n in ["inc1.adoc", "inc2.txt", "code.rs"] {
        if r.chance(50) {
            s.push_str(&format!("\n\ninclude::{n}[{}]\n", selection(r)));
        }
    }
    tree::file(&mut k.tree, "main.adoc", s);
    let b = *r.pick(&["htmlbook", "json", "docx"]);
    let mut cmd = Cmd { args: vec!["main.adoc".into(), "-b".into(), b.into()], ..Cmd::default() };
    let stdin = r.chance(30);
    if stdin {
        cmd.args[0] = "-".into();
        cmd.stdin = tree::bytes(&k.tree, "main.adoc").map(|b| Bytes(b.to_vec()));
        cmd.args.extend(["-o".to_string(), "res".to_string()]);
    }
    if r.chance(30) {
        cmd.args.push("-c".into());
    }
    k.cmds.push(cmd);
    let mut c = disturbed(r);
    for _ in 0..r.range(1, 3) {
        let p = if stdin && r.chance(60) { "<stdin>" } else { *r.pick(&["main.adoc", "inc1.adoc", "inc2.txt", "code.rs"]) };
        let n = tree::bytes(&k.tree, if p == "<stdin>" { "main.adoc" } else { p }).map(|b| b.len()).unwrap_or(0);
        c.dmg.push(crate::run::Dmg {
            path: p.into(),
            kind: r.pick(&["eof", "flip", "fill"]).to_string(),
            off: r.below(n + 1) as u64,
            len: r.range(1, 5) as u64,
            mask: *r.pick(&[1, 2, 4, 8, 16, 32, 64, 128, 10, 32, 91, 45]),
        });
    }
    if r.chance(30) {
        c.max_faults = 50;
        c.rates.push(("read".into(), "short".into(), 20000));
        c.rates.push(("readin".into(), "short".into(), 20000));
    }
    k.cfgs.push(c);
    k
}

/// Generous: measured costs stay below a fifth of it
fn allowance(n: usize) -> u64 {
    let n = n as u64;
    20_000_000 + 20_000 * n + 20 * n * n
}

fn eval_p08(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval { nontrivial: true, ..Eval::default() };
    let debug = std::env::var("VSIM_DEBUG").is_ok();
    let inc: usize = ["inc1.adoc", "inc2.txt", "code.rs"].iter().map(|p| tree::bytes(&c.tree, p).map(|b| b.len()).unwrap_or(0)).sum();
    let mut rest: Vec<Value> = c.hist.clone();
    for h in &mut rest {
        let n = h["text"].as_str().unwrap_or("").len();
        let uses = h["text"].as_str().unwrap_or("").matches("include::").count();
        let n = n + uses * inc;
        h["budget"] = json!(allowance(n));
        h["mem"] = json!((1u64 << 28) + 50_000 * n as u64);
    }
    // one process as far as it gets, then the next for what is left
    while !rest.is_empty() {
        w.reset(&c.tree);
        let l = w.lib(&script(&rest), "", &Cfg::default());
        e.note_lib(None, &l);
        let mut done = 0;
        for h in &rest {
            done += 1;
            let text = h["text"].as_str().unwrap_or("");
            let Some(v) = l.get(h["id"].as_i64().unwrap()) else {
                let err = crate::case::short(&l.out.err_text(), 300);
                if debug {
                    eprintln!("NOEND {} {err:?} {} {}", l.out.status(), text.len(), c.seed);
                }
                e.fail("no-end", format!("{} for {:?} ({}); stderr {err:?}", l.out.status(), crate::case::short(text, 300), h["backend"]));
                break;
            };
            e.probe(v["status"].as_str().unwrap_or("?"));
            if v["status"] == "panic" {
                if debug {
                    eprintln!("PANIC {} {} {}", v["err"].as_str().unwrap_or("").lines().last().unwrap_or(""), text.len(), c.seed);
                }
                e.fail("panicked", format!("{} for {text:?} ({})", v["err"].as_str().unwrap_or(""), h["backend"]));
            }
            let (s, b) = (v["steps"].as_u64().unwrap_or(0), h["budget"].as_u64().unwrap_or(1));
            if s * 5 > b {
                e.probe("more-than-a-fifth");
            }
        }
        rest.drain(..done);
    }
    let Some(cmd) = c.cmds.first() else { return e };
    let (o, _) = one(w, &c.tree, cmd, &c.cfgs[0]);
    e.note(Some(0), &o);
    if o.abnormal() || o.panicked() {
        e.fail(if o.panicked() { "panicked" } else { "no-end" }, format!("{}; stderr {:?}", o.status(), crate::case::short(&o.err_text(), 400)));
    }
    if !o.ok() && o.stderr.is_empty() {
        e.fail("silent-failure", "nothing on standard error".into());
    }
    e
}
