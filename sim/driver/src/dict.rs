//! Words the code under test compares its input with: the string literals of its sources.
//! Names that mean something to it are then tried without being listed here.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

use crate::rng::Rng;

/// Names that mean something to other implementations of the language
const KNOWN: &[&str] = &[
    "icons", "toc", "sectnums", "sectids", "idprefix", "idseparator", "imagesdir", "docname", "docdir", "docfile", "docdate", "doctime",
    "docdatetime", "docyear", "localdate", "localtime", "localdatetime", "localyear", "user-home", "outfile", "outdir", "backend", "doctype",
    "asciidoctor-version", "env", "env-asciidocr", "counter", "counter:x", "counter2:x", "set:a:b", "experimental", "stem", "lang", "author",
    "email", "revdate", "revnumber", "nbsp", "empty", "sp", "blank", "lt", "amp", "plus", "pid", "random", "uuid", "cwd", "hostname",
];

#[derive(Default)]
struct Sets {
    all: BTreeSet<String>,
    /// what names are looked up or compared with
    keys: BTreeSet<String>,
}

static DICT: OnceLock<(Vec<String>, Vec<String>)> = OnceLock::new();

fn dict() -> &'static (Vec<String>, Vec<String>) {
    DICT.get_or_init(|| {
        let mut set = Sets::default();
        let repo = std::env::var("VSIM_REPO").unwrap_or("/repo".into());
        scan_dir(&Path::new(&repo).join("src"), &mut set);
        set.keys.retain(|w| is_name(w));
        set.all.extend(KNOWN.iter().map(|w| w.to_string()));
        set.keys.extend(["icons", "x"].map(|w| w.to_string()));
        (set.all.into_iter().collect(), set.keys.into_iter().collect())
    })
}

fn is_name(w: &str) -> bool {
    w.chars().all(|c| c.is_alphanumeric() || c == '-' || c == '_')
}

fn scan_dir(dir: &Path, set: &mut Sets) {
    let Ok(list) = std::fs::read_dir(dir) else { return };
    for e in list.flatten() {
        let p = e.path();
        if p.is_dir() {
            scan_dir(&p, set);
        } else if p.extension().is_some_and(|x| x == "rs") {
            let text = std::fs::read_to_string(&p).unwrap_or_default();
            literals(text.split("#[cfg(test)]").next().unwrap_or(""), set);
        }
    }
}

fn literals(text: &str, set: &mut Sets) {
    for line in text.lines() {
        let line = line.trim();
        // nor what is only said in messages
        if line.starts_with("//") || line.starts_with("#[") || line.contains("panic!(") || line.contains("warn!(") || line.contains("println!(") {
            continue;
        }
        let compared = ["get(", "get_mut(", "contains", "==", "!=", "=>", "starts_with(", "ends_with(", "strip_"].iter().any(|k| line.contains(k));
        let mut rest = line;
        while let Some(i) = rest.find('"') {
            let from = &rest[i + 1..];
            let mut end = None;
            let mut esc = false;
            for (k, c) in from.char_indices() {
                match c {
                    _ if esc => esc = false,
                    '\\' => esc = true,
                    '"' => {
                        end = Some(k);
                        break;
                    }
                    _ => {}
                }
            }
            let Some(k) = end else { break };
            let lit = from[..k].replace("\\n", "\n").replace("\\\"", "\"").replace("\\0", "\0").replace("\\\\", "\\");
            rest = &from[k + 1..];
            if (1..=24).contains(&lit.len()) && lit.split(' ').count() < 3 {
                if compared {
                    set.keys.insert(lit.clone());
                }
                set.all.insert(lit);
            }
        }
    }
}

pub fn word(r: &mut Rng) -> &'static str {
    r.pick(&dict().0)
}

/// One that can be the name of something
pub fn name(r: &mut Rng) -> &'static str {
    if r.chance(60) {
        return r.pick(&dict().1);
    }
    for _ in 0..20 {
        let w = word(r);
        if is_name(w) {
            return w;
        }
    }
    "icons"
}

/// Turns something on, at the start of a document
pub fn setting(r: &mut Rng) -> String {
    let n = name(r);
    match r.below(10) {
        0..=3 => format!(":{n}: true\n"),
        4 => format!(":{n}:\n"),
        5 => format!(":{n}: {}\n", name(r)),
        _ => format!(":{n}: {}\n", r.pick(VALUES)),
    }
}

pub const VALUES: &[&str] = &["true", "false", "", "1", "0", "é", "x", "日本", "-1", "2147483648", "a b", "*", "\"", "a,b", "😀*", "x;y", "..", "1..2", "%d", "font", "x*", "3*", "0..", "3..1", "127", "-128", "+100"];

/// A piece of markup with such a word in it
pub fn piece(r: &mut Rng) -> String {
    let n = name(r);
    let v = *r.pick(VALUES);
    match r.below(16) {
        0 => word(r).to_string(),
        1 => format!("{{{n}}}"),
        2 => format!(":{n}: {v}"),
        3 => format!(":{n}:"),
        4 => format!("[{n}]\n"),
        5 => format!("[{n}={v}]\n"),
        6 => format!("[{n}=\"{v}\"]\n"),
        7 => format!("[{n},{v}]\n"),
        8 => format!("{n}:{v}[{}]", word(r)),
        9 => format!("{n}::{v}[{}]\n", word(r)),
        10 => format!("include::code.rs[{n}={v}]\n"),
        11 => format!("include::inc1.adoc[{n}=\"{v}\"]\n"),
        12 => format!("image::x.png[{n}={v}]\n"),
        13 => format!("image:x.png[{n}=\"{v}\"]"),
        14 => format!("{{{n}:{v}}}"),
        _ => format!("\n{}\n", word(r)),
    }
}
