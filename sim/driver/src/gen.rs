//! Worlds: directory trees of documents made of all supported constructs.

use crate::rng::Rng;
use crate::run::Cmd;
use crate::tree::{self, Bytes, Tree};

/// A 1x1 PNG
pub const PNG: [u8; 67] = [
    0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a, 0x00, 0x00, 0x00, 0x0d, 0x49, 0x48, 0x44, 0x52, 0x00,
    0x00, 0x00, 0x01, 0x00, 0x00, 0x00, 0x01, 0x08, 0x00, 0x00, 0x00, 0x00, 0x3a, 0x7e, 0x9b, 0x55, 0x00,
    0x00, 0x00, 0x0a, 0x49, 0x44, 0x41, 0x54, 0x78, 0x9c, 0x63, 0x60, 0x00, 0x00, 0x00, 0x02, 0x00, 0x01,
    0x48, 0xaf, 0xa4, 0x71, 0x00, 0x00, 0x00, 0x00, 0x49, 0x45, 0x4e, 0x44, 0xae, 0x42, 0x60, 0x82,
];

/// A small PNG unlike the others
pub fn png(r: &mut Rng) -> Vec<u8> {
    fn crc(b: &[u8]) -> u32 {
        !b.iter().fold(!0u32, |mut c, x| {
            c ^= *x as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 };
            }
            c
        })
    }
    fn chunk(out: &mut Vec<u8>, kind: &[u8], data: &[u8]) {
        out.extend((data.len() as u32).to_be_bytes());
        let body = [kind, data].concat();
        out.extend(&body);
        out.extend(crc(&body).to_be_bytes());
    }
    let (w, h) = (r.range(1, 4), r.range(1, 4));
    let mut raw: Vec<u8> = vec![];
    for _ in 0..h {
        raw.push(0);
        raw.extend((0..w).map(|_| r.below(256) as u8));
    }
    let (a, b) = raw.iter().fold((1u32, 0u32), |(a, b), x| ((a + *x as u32) % 65521, (a + *x as u32 + b) % 65521));
    let n = raw.len() as u16;
    let mut z = vec![0x78, 0x01, 1];
    z.extend(n.to_le_bytes());
    z.extend((!n).to_le_bytes());
    z.extend(&raw);
    z.extend((b << 16 | a).to_be_bytes());
    let mut out = PNG[..8].to_vec();
    let head = [&(w as u32).to_be_bytes()[..], &(h as u32).to_be_bytes(), &[8, 0, 0, 0, 0]].concat();
    chunk(&mut out, b"IHDR", &head);
    chunk(&mut out, b"IDAT", &z);
    chunk(&mut out, b"IEND", &[]);
    out
}

/// What a document may contain
#[derive(Clone)]
pub struct Opts {
    /// only constructs the docx backend renders
    pub docx: bool,
    /// constructs that make the converter warn
    pub warn: bool,
    /// characters of more than one byte
    pub uni: bool,
    pub blocks: usize,
    pub mix: Mix,
    /// only paragraphs, lists and admonitions
    pub plain: bool,
}

/// The parser rejects some combinations of these
#[derive(Clone, Copy, PartialEq)]
pub enum Mix {
    /// delimited blocks with blocks inside
    Parents,
    /// blocks attached to list items
    Continuations,
    /// include directives inside delimited blocks
    Wrapped,
}

pub struct Doc<'a> {
    pub r: &'a mut Rng,
    pub o: Opts,
    pub tag: String,
    n: usize,
    pub out: String,
    ids: Vec<String>,
    attrs: Vec<String>,
}

const WORDS: &[&str] = &[
    "alpha", "beta", "gamma", "delta", "river", "stone", "paper", "window", "quick", "lazy", "under", "over",
    "seven", "table", "fifth", "include", "image", "http", "footnote", "pass", "tag", "end", "NOTE", "TIP",
];
const UNI: &[&str] = &[
    "é", "naïve", "Straße", "日本語", "Ωmega", "“quoted”", "—", "😀", "кошка", "a\u{301}", "ﬁn", "\u{00a0}x", "𝄞clef",
];

impl<'a> Doc<'a> {
    pub fn new(r: &'a mut Rng, o: Opts, tag: &str) -> Self {
        Doc { r, o, tag: tag.to_string(), n: 0, out: String::new(), ids: vec![], attrs: vec![] }
    }
    /// a word found nowhere else
    pub fn marker(&mut self) -> String {
        self.n += 1;
        format!("{}m{}", self.tag, self.n)
    }
    pub fn word(&mut self) -> String {
        if self.o.uni && self.r.chance(25) {
            return self.r.pick(UNI).to_string();
        }
        if self.r.chance(20) {
            return self.marker();
        }
        self.r.pick(WORDS).to_string()
    }
    pub fn words(&mut self, n: usize) -> String {
        (0..n.max(1)).map(|_| self.word()).collect::<Vec<_>>().join(" ")
    }
    fn inline(&mut self) -> String {
        let w = self.words(2);
        match self.r.below(if self.o.docx { 16 } else if self.o.warn { 30 } else { 26 }) {
            0 => format!("*{w}*"),
            1 => format!("_{w}_"),
            2 => format!("`{w}`"),
            3 => format!("**{w}**x"),
            4 => format!("__{w}__y"),
            5 => format!("x^{}^", self.r.below(99)),
            6 => format!("H~{}~O", self.r.below(99)),
            7 => format!("#{w}#"),
            8 => format!("*{w} _{}_*", self.r.pick(WORDS)),
            9 => format!("\"`{w}`\" so"),
            10 => "it's (C) (R) (TM) -- -> <- ... done".to_string(),
            11 => "&amp; &lt;b&gt; &mdash; a < b & c".to_string(),
            12 => format!("``{w}``"),
            13 => format!("[.role]#{w}#"),
            14 => w,
            15 => format!("+{w}+"),
            16 => format!("https://example.org/{}[{w}]", self.n),
            17 => format!("https://example.org/a-b_c?x={}", self.n),
            18 => format!("pass:[<b>{}</b>]", self.n),
            19 => format!("footnote:[{w}]"),
            20 => {
                if self.attrs.is_empty() {
                    w
                } else {
                    let a = self.r.pick(&self.attrs).clone();
                    format!("{{{a}}}")
                }
            }
            21 => {
                if self.ids.is_empty() {
                    w
                } else {
                    let a = self.r.pick(&self.ids).clone();
                    match self.r.below(2) {
                        0 => format!("<<{a}>>"),
                        _ => format!("<<{a},{w}>>"),
                    }
                }
            }
            22 => format!("link:file{}.html[{w}]", self.n),
            23 => format!("[.a.b]#{w}# and [.c]*{w}*"),
            24 => format!("##{w}##z"),
            _ => {
                if self.o.warn {
                    match self.r.below(3) {
                        0 => format!("<<nowhere-{}>>", self.n),
                        1 => format!("<<nowhere-{},{w}>>", self.n),
                        _ if self.r.chance(50) => format!("{{{}}}", crate::dict::name(self.r)),
                        _ => format!("{{missing-{}}}", self.n),
                    }
                } else {
                    w
                }
            }
        }
    }
    pub fn sentence(&mut self) -> String {
        let n = self.r.range(1, 4);
        let mut s = self.marker();
        for _ in 0..n {
            s.push(' ');
            if self.r.chance(55) {
                let w = self.words(3);
                s.push_str(&w);
            } else {
                let i = self.inline();
                s.push_str(&i);
            }
        }
        s.push('.');
        s
    }
    pub fn para(&mut self) {
        for _ in 0..self.r.range(1, 3) {
            let s = self.sentence();
            self.out.push_str(&s);
            if self.r.chance(5) && !self.o.docx {
                self.out.push_str(" +");
            }
            self.out.push('\n');
        }
        self.out.push('\n');
    }
    fn anchor(&mut self) {
        if self.r.chance(25) {
            let id = format!("id-{}-{}", self.tag, self.n);
            match self.r.below(2) {
                0 => self.out.push_str(&format!("[[{id}]]\n")),
                _ => self.out.push_str(&format!("[#{id}]\n")),
            }
            self.ids.push(id);
        }
    }
    fn title(&mut self) {
        if self.r.chance(20) {
            let w = self.words(3);
            self.out.push_str(&format!(".{w}\n"));
        }
    }
    pub fn block(&mut self) {
        if self.o.warn && self.r.chance(10) {
            let s = self.sentence();
            self.out.push_str(&format!("[]\n{s}\n\n"));
            return;
        }
        let mut k = if self.o.docx { self.r.below(10) } else { self.r.below(24) };
        if self.o.plain {
            k = *self.r.pick(&[0, 0, 2, 3, 5]);
        }
        let parent = matches!(k, 11..=14 | 16);
        let attached = matches!(k, 17 | 23);
        let attached_ok = self.o.mix == Mix::Continuations
            && !["----", "....", "++++", "+\n--"].iter().any(|d| self.out.contains(d));
        if parent && self.o.mix != Mix::Parents || attached && !attached_ok {
            k = 0;
        }
        match k {
            0 | 1 => self.para(),
            2 => {
                for _ in 0..self.r.range(1, 4) {
                    let s = self.sentence();
                    self.out.push_str(&format!("* {s}\n"));
                    if self.r.chance(20) {
                        let s = self.sentence();
                        self.out.push_str(&format!("** {s}\n"));
                    }
                }
                self.out.push('\n');
            }
            3 => {
                for _ in 0..self.r.range(1, 4) {
                    let s = self.sentence();
                    self.out.push_str(&format!(". {s}\n"));
                }
                self.out.push('\n');
            }
            4 => {
                let n = self.r.range(1, 3);
                self.out.push_str("[source,rust]\n----\n");
                for _ in 0..n {
                    let m = self.marker();
                    self.out.push_str(&format!("let {m} = \"a*b*_c_\"; // |x| < 3 && y\n"));
                }
                self.out.push_str("----\n\n");
            }
            5 => {
                let s = self.sentence();
                let k = *self.r.pick(&["NOTE", "TIP", "IMPORTANT", "CAUTION", "WARNING"]);
                self.out.push_str(&format!("{k}: {s}\n\n"));
            }
            6 => {
                let s = self.words(4);
                self.out.push_str(&format!("....\n{s}\n  indented {s}\n....\n\n"));
            }
            7 => {
                self.anchor();
                self.para()
            }
            8 => {
                self.out.push_str("// a comment, never shown\n");
                self.para()
            }
            9 => self.para(),
            10 => {
                for _ in 0..self.r.range(1, 3) {
                    let (a, b) = (self.words(2), self.sentence());
                    if self.r.chance(50) {
                        self.out.push_str(&format!("{a} x:: {b}\n"));
                    } else {
                        self.out.push_str(&format!("{a} x::\n{b}\n"));
                    }
                }
                self.out.push('\n');
            }
            11 => {
                self.title();
                let k = *self.r.pick(&["NOTE", "TIP", "WARNING"]);
                let s = self.sentence();
                self.out.push_str(&format!("[{k}]\n====\n{s}\n\n* item\n====\n\n"));
            }
            12 => {
                self.title();
                let s = self.sentence();
                self.out.push_str(&format!("****\n{s}\n****\n\n"));
            }
            13 => {
                let s = self.sentence();
                let w = self.words(2);
                self.out.push_str(&format!("[quote, {w}, Book]\n____\n{s}\n____\n\n"));
            }
            14 => {
                let s = self.words(4);
                self.out.push_str(&format!("[verse, Someone]\n____\n{s}\n  {s}\n____\n\n"));
            }
            15 => {
                let m = self.marker();
                self.out.push_str(&format!("++++\n<div class=\"x\">{m}</div>\n++++\n\n"));
            }
            16 => {
                self.title();
                self.anchor();
                let (h, c) = if self.r.chance(50) { ("[cols=\"1,2\",options=\"header\"]\n", 2) } else { ("[cols=\"3*\"]\n", 3) };
                self.out.push_str(h);
                self.out.push_str("|===\n");
                for _ in 0..self.r.range(1, 3) {
                    for _ in 0..c {
                        let w = self.words(2);
                        self.out.push_str(&format!("| {w} "));
                    }
                    self.out.push('\n');
                }
                self.out.push_str("|===\n\n");
            }
            17 => {
                self.out.push_str("* item\n+\n--\n");
                self.para();
                self.out.push_str("--\n\n");
            }
            18 => {
                self.out.push_str("////\nhidden block\n////\n\n");
                self.para()
            }
            19 => self.out.push_str(self.r.pick(&["'''\n\n", "<<<\n\n"])),
            20 => {
                let a = format!("attr-{}-{}", self.tag, self.n);
                let w = self.words(2);
                self.out.push_str(&format!(":{a}: {w}\n\n"));
                self.attrs.push(a);
            }
            21 => {
                self.out.push_str("[source]\n----\nfn main() {} // <1>\nlet x; // <2>\n----\n<1> One\n<2> Two\n\n");
            }
            22 => {
                self.anchor();
                let w = self.words(2);
                self.out.push_str(&format!("[role=\"{}\", data-{}=\"v\"]\n", self.r.pick(WORDS), self.n));
                self.out.push_str(&format!("{w} styled paragraph\n\n"));
            }
            _ => {
                let m = self.marker();
                let t = self.words(2);
                self.out.push_str(&format!(". one {m}\n+\n----\n{t}\n----\n. two\n\n"));
            }
        }
    }
    pub fn header(&mut self) {
        let t = self.words(3);
        self.out.push_str(&format!("= {t}\n"));
        if self.r.chance(40) {
            for _ in 0..self.r.range(1, 5) {
                let a = if !self.o.plain && self.r.chance(35) {
                    self.r.pick(HEADERS).to_string()
                } else {
                    format!("h{}-{}", self.r.below(90), self.n)
                };
                let w = if !self.o.plain && self.r.chance(10) { String::new() } else { self.words(1) };
                self.out.push_str(&format!(":{a}: {w}\n"));
                self.attrs.push(a);
            }
        }
        self.out.push('\n');
    }
    pub fn section(&mut self, level: usize) {
        self.anchor();
        let t = self.words(3);
        self.out.push_str(&format!("{} {t}\n\n", "=".repeat(level + 1)));
    }
}

#[derive(Clone, Default)]
pub struct World {
    pub tree: Tree,
    /// path of the main document
    pub main: String,
    /// targets of include directives: (including file, target as written, path of the target)
    pub includes: Vec<(String, String, String)>,
    /// targets of block images: the same
    pub images: Vec<(String, String, String)>,
}

/// What headers usually say
const HEADERS: &[&str] = &[
    "author", "email", "description", "keywords", "revnumber", "revdate", "doctype", "lang", "sectnums", "toc", "toclevels", "stem",
    "experimental", "source-highlighter", "nofooter", "docinfo", "encoding", "copyright", "title", "docname", "data-uri",
];

pub fn dirname(p: &str) -> &str {
    p.rsplit_once('/').map(|x| x.0).unwrap_or("")
}
pub fn basename(p: &str) -> &str {
    p.rsplit_once('/').map(|x| x.1).unwrap_or(p)
}
pub fn join(dir: &str, name: &str) -> String {
    if dir.is_empty() {
        name.to_string()
    } else if name.is_empty() {
        dir.to_string()
    } else {
        format!("{dir}/{name}")
    }
}
/// How a file in `dir` names `to` (both relative to the root)
pub fn relative(dir: &str, to: &str) -> String {
    let a: Vec<&str> = dir.split('/').filter(|c| !c.is_empty()).collect();
    let b: Vec<&str> = to.split('/').filter(|c| !c.is_empty()).collect();
    let mut k = 0;
    while k < a.len() && k + 1 < b.len() && a[k] == b[k] {
        k += 1;
    }
    let mut out: Vec<&str> = vec![".."; a.len() - k];
    out.extend(&b[k..]);
    out.join("/")
}

#[derive(Clone)]
pub struct WorldOpts {
    pub docx: bool,
    pub warn: bool,
    pub max_includes: usize,
    pub max_images: usize,
    pub big: bool,
    pub plain: bool,
}

/// Something said about a target that does not make it another one, nor choose parts of it
pub fn attribute(r: &mut Rng) -> String {
    let v = *r.pick(&["1", "true", "optional", "\"optional\"", "50%", "x", "utf-8", "", "+1", "no"]);
    match r.below(8) {
        0 => "leveloffset=+1".into(),
        1 => "opts=optional".into(),
        2 => "%optional".into(),
        3 => "optional".into(),
        4 => format!("{}={v}", r.pick(&["opts", "options", "role", "width", "encoding", "indent", "id", "if", "fallback"])),
        _ => {
            let n = crate::dict::name(r);
            let n = if ["lines", "tag", "tags", "leveloffset"].contains(&n) { "opts" } else { n };
            format!("{n}={v}")
        }
    }
}

/// Delimiters of blocks that may hold others
pub const WRAPS: &[&str] = &["====", "****", "____", "--"];

const DIRS: &[&str] = &["", "docs", "docs/ch", "book v1.2", "a/b/c", "übung"];
const MAINS: &[&str] = &["main.adoc", "book.v2.adoc", "notes", "näme.adoc", "a.b.c.asciidoc", "x y.adoc", ".hidden", "doc.txt"];

const NOTHING: &[&str] = &[
    "", "\n", "\n\n\n", " ", "// a comment\n", "////\nnot shown\n////\n", ":attr: value\n", "----\n----\n", "== \n", "++++\n++++\n", "word", "'''\n",
    "<<<\n", "= Title",
];

/// Names of files may start like something else
fn start_of_name(r: &mut Rng) -> String {
    match r.below(10) {
        0 => r.pick(&["http-", "https.", "data-", "file-", "www.", "icon-", "_", "ftp."]).to_string(),
        1 => format!("{}-", crate::dict::name(r)),
        _ => String::new(),
    }
}

pub fn world(r: &mut Rng, o: &WorldOpts) -> World {
    let mut w = World::default();
    let dir = r.pick(DIRS).to_string();
    w.main = join(&dir, r.pick(MAINS));
    let n_inc = r.below(o.max_includes + 1);
    let mut queue: Vec<String> = vec![w.main.clone()];
    let mut made = 0;
    let mut idx = 0;
    let mut img = 0;
    let mix = *r.pick(&[Mix::Parents, Mix::Parents, Mix::Continuations, Mix::Wrapped]);
    while idx < queue.len() {
        let path = queue[idx].clone();
        let is_main = idx == 0;
        let here = dirname(&path).to_string();
        let opts = Opts {
            mix,
            plain: o.plain,
            docx: o.docx && r.chance(40) || o.plain,
            warn: o.warn && r.chance(50),
            uni: r.chance(60),
            blocks: if o.big && is_main { r.range(150, 2500) } else if is_main && r.chance(6) { r.range(8, 60) } else { r.range(1, 7) },
        };
        let blocks = opts.blocks;
        let tag = format!("f{idx}");
        let mut d = Doc::new(r, opts, &tag);
        if is_main && d.r.chance(70) {
            d.header();
        }
        let mut level = 0;
        for _ in 0..blocks {
            if is_main && d.r.chance(20) {
                level = d.r.range(1, (level + 1).min(3));
                d.section(level);
            }
            d.block();
            if made < n_inc && d.r.chance(if is_main { 50 } else { 30 }) {
                made += 1;
                let sub = *d.r.pick(&["", "parts", "parts/deep", "../shared", "code"]);
                let code = d.r.chance(25) && !o.plain;
                let name = if code {
                    format!("inc{made}.{}", d.r.pick(&["rs", "py", "xml"]))
                } else {
                    format!("{}inc{made}.{}", start_of_name(d.r), d.r.pick(&["adoc", "adoc", "adoc", "txt", "asciidoc"]))
                };
                let sub = if here.is_empty() && sub.starts_with("..") { "" } else { sub };
                let written = join(sub, &name);
                let target = normalise(&join(&here, &written));
                let attrs = match d.r.below(100) {
                    _ if code => String::new(),
                    0..=24 => attribute(d.r),
                    25..=37 if !o.plain => d.r.pick(&["leveloffset=+1", "lines=1..3", "tag=t"]).to_string(),
                    _ => String::new(),
                };
                if code {
                    d.out.push_str(&format!("[source]\n----\ninclude::{written}[]\n----\n\n"));
                } else if mix == Mix::Wrapped && !o.plain && d.r.chance(50) {
                    let t = d.word();
                    d.out.push_str(&format!("====\n{t}\n\ninclude::{written}[{attrs}]\n====\n\n"));
                } else {
                    d.out.push_str(&format!("include::{written}[{attrs}]\n\n"));
                }
                w.includes.push((path.clone(), written.clone(), target.clone()));
                if code {
                    let m = d.marker();
                    let body = format!("# tag::t[]\ncode {m} first line\n# end::t[]\ncode {m} second line\n");
                    tree::file(&mut w.tree, &target, body);
                } else {
                    queue.push(target);
                }
            }
            if img < o.max_images && d.r.chance(20) {
                img += 1;
                let sub = *d.r.pick(&["", "img", "../img"]);
                let sub = if here.is_empty() && sub.starts_with("..") { "" } else { sub };
                let written = join(sub, &format!("{}pic{img}.png", start_of_name(d.r)));
                let target = normalise(&join(&here, &written));
                let mut alt = d.words(2);
                if d.r.chance(25) {
                    alt = format!("{alt},{}", attribute(d.r));
                }
                if mix != Mix::Continuations && !o.docx && d.r.chance(30) {
                    let k = *d.r.pick(WRAPS);
                    d.out.push_str(&format!("{k}\nimage::{written}[{alt}]\n{k}\n\n"));
                } else {
                    d.out.push_str(&format!("image::{written}[{alt}]\n\n"));
                }
                let pic = png(d.r);
                tree::file(&mut w.tree, &target, Bytes(pic));
                w.images.push((path.clone(), written, target));
            }
        }
        if d.r.chance(15) {
            // no newline at the end
            let m = d.marker();
            d.out.push_str(&format!("last {m}"));
        }
        let mut out = std::mem::take(&mut d.out);
        if is_main && n_inc == 0 && img == 0 && !o.big && !o.plain && r.chance(8) {
            // hardly anything
            out = r.pick(NOTHING).to_string();
        }
        tree::file(&mut w.tree, &path, out);
        idx += 1;
    }
    w
}

pub fn normalise(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            _ => out.push(c),
        }
    }
    out.join("/")
}

pub const BACKENDS: [&str; 3] = ["htmlbook", "json", "docx"];
pub fn ext(backend: &str) -> &str {
    match backend {
        "htmlbook" => "html",
        b => b,
    }
}

/// The default output beside the input: its name with the backend's extension
pub fn default_output(input: &str, backend: &str) -> String {
    let base = basename(input);
    let stem = match base.rfind('.') {
        Some(i) if i > 0 => &base[..i],
        _ => base,
    };
    join(dirname(input), &format!("{stem}.{}", ext(backend)))
}

/// One way of calling the converter on a world
#[derive(Clone, Debug, Default)]
pub struct Call {
    pub cmd: Cmd,
    pub backend: String,
    /// path of the output file below the root; none for standard output
    pub dest: Option<String>,
    pub count: bool,
    pub nores: bool,
    pub stdin: bool,
}

pub fn call(r: &mut Rng, w: &World, backend: &str) -> Call {
    let mut c = Call { backend: backend.to_string(), ..Call::default() };
    let main_dir = dirname(&w.main).to_string();
    let docx = backend == "docx";
    let cwd = if r.chance(50) { main_dir.clone() } else { String::new() };
    let rel = relative(&cwd, &w.main);
    c.stdin = r.chance(25);
    let mut args: Vec<String> = vec![];
    let cwd = if c.stdin {
        args.push("-".into());
        c.cmd.stdin = Some(Bytes(tree::bytes(&w.tree, &w.main).unwrap_or(&[]).to_vec()));
        c.cmd.stdin_pipe = r.chance(50);
        main_dir.clone()
    } else {
        args.push(if rel.starts_with('-') { format!("./{rel}") } else { rel });
        cwd
    };
    c.cmd.cwd = cwd.clone();
    let k = r.below(10);
    if docx && (c.stdin || k >= 4) || !docx && k < 3 {
        let name = *r.pick(&["out.html", "result", "o.x.y", "öut.html"]);
        let out = join(&cwd, name);
        args.push("-o".into());
        args.push(name.into());
        c.dest = Some(out);
    } else if !docx && k < 6 && !c.stdin {
        args.push("-o".into());
        args.push("-".into());
    } else if !c.stdin {
        c.dest = Some(default_output(&w.main, backend));
    }
    if backend != "htmlbook" || r.chance(30) {
        args.push("-b".into());
        args.push(backend.into());
    }
    if r.chance(25) {
        c.count = true;
        args.push("-c".into());
    }
    if r.chance(20) && !docx {
        c.nores = true;
        args.push("-x".into());
    }
    c.cmd.args = args;
    c
}
