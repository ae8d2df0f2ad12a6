//! Properties decided on the command line program.

use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            // not a property: which undisturbed scenarios the converter rejects, and why
            id: "D00",
            gen: gen_p01,
            eval: eval_d00,
            cases: (3000, 3000),
            rule: "-",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P01",
            gen: gen_p01,
            eval: eval_p01,
            cases: (3000, 100_000),
            rule: "a case counts if the undisturbed conversion succeeds and at least one failure was injected into a call the program made",
            real: REAL,
            shrink_files: true,
        },
        Prop {
            id: "P05",
            gen: gen_p05,
            eval: eval_p05,
            cases: (2500, 100_000),
            rule: "a case counts if the undisturbed conversion succeeds and at least one transfer was split or interrupted, or the same document was delivered in two ways",
            real: REAL,
            shrink_files: true,
        },
    ]
}

fn eval_d00(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let (b, _) = baseline(w, c, &mut e);
    let want = std::env::var("VSIM_DEBUG").unwrap_or_default();
    if !b.ok() && b.err_text().contains(&want) {
        e.fail("rejected", b.err_text());
    }
    e
}

// ---------------------------------------------------------------- P01

fn gen_p01(r: &mut Rng, _t: bool) -> Case {
    let (w, call) = scenario(r, None);
    let mut k = new_case("P01", &w, &call);
    if let Some(d) = &call.dest {
        if r.chance(40) {
            put_file(&mut k.tree, d, leftover(r));
        }
    }
    let src = sources(&w);
    let mut dst = vec!["<stdout>".to_string()];
    dst.extend(call.dest.clone());
    for _ in 0..3 {
        let mut c = disturbed(r);
        match r.below(10) {
            0..=3 => {
                let all: Vec<&str> = READ_OPS.iter().chain(WRITE_OPS).copied().collect();
                hard(r, &mut c, &all)
            }
            4 => hard(r, &mut c, WRITE_OPS),
            5 | 6 => {
                benign(r, &mut c);
                c.pf.push(path_fault(r, &src, false));
            }
            7 | 8 => {
                benign(r, &mut c);
                c.pf.push(path_fault(r, &dst, true));
            }
            _ => {
                // a full disk accepts some bytes first
                c.max_faults = 1;
                c.rates.push(("write".into(), "short".into(), 60000));
                c.rates.push(("writeout".into(), "short".into(), 60000));
                let mut f = path_fault(r, &dst, true);
                f.from_ev = 0;
                f.err = libc::ENOSPC;
                if !r.chance(50) {
                    f.from_ev = r.below(60) as u32;
                }
                c.pf.push(f);
            }
        }
        k.cfgs.push(c);
    }
    k
}

fn eval_p01(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = Meta::of(c);
    let (b, bt) = baseline(w, c, &mut e);
    if !b.ok() {
        e.probe("baseline-failed");
        return e;
    }
    if m.dest.is_some() && dest_bytes(&bt, &m.dest).is_none() {
        e.fail("nothing-delivered", format!("exit 0 but there is no {}", m.dest.as_ref().unwrap()));
    }
    for (i, cf) in c.cfgs.iter().enumerate() {
        let (o, t) = one(w, &c.tree, &c.cmds[0], cf);
        e.note(Some(i), &o);
        if o.faults > 0 {
            e.nontrivial = true;
        }
        if o.abnormal() {
            e.fail("abnormal-end", format!("{} instead of an exit status; injected {}; stderr {:?}", o.status(), injected(&o), o.err_text()));
        } else if o.ok() {
            e.probe("exit-0");
            if o.stdout != b.stdout {
                e.fail("stdout-differs", format!("exit 0 but standard output: {}; injected {}", describe(Some(&b.stdout), Some(&o.stdout)), injected(&o)));
            }
            if m.dest.is_some() && dest_bytes(&t, &m.dest) != dest_bytes(&bt, &m.dest) {
                e.fail("file-differs", format!("exit 0 but {}: {}; injected {}", m.dest.as_ref().unwrap(), describe(dest_bytes(&bt, &m.dest), dest_bytes(&t, &m.dest)), injected(&o)));
            }
        } else {
            e.probe("exit-nonzero");
            if o.stderr.iter().all(|b| b.is_ascii_whitespace()) {
                e.fail("silent-failure", format!("{} with nothing on standard error; injected {}", o.status(), injected(&o)));
            } else if o.stderr == b.stderr {
                e.fail("unexplained-failure", format!("{} with no more on standard error than a success; injected {}", o.status(), injected(&o)));
            }
        }
    }
    e
}

// ---------------------------------------------------------------- P05

fn gen_p05(r: &mut Rng, _t: bool) -> Case {
    let b = backend(r);
    let o = WorldOpts { docx: b == "docx", warn: r.chance(30), max_includes: 4, max_images: 1, big: r.chance(10), plain: false };
    let mut w = gen::world(r, &o);
    if r.chance(8) {
        w.tree.insert(w.main.clone(), Node::File(["", "\n", "x", "\u{feff}= T\n\nx\n", "a\r\nb\r\n\r\n* c\r\n"][r.below(5)].into()));
    }
    if r.chance(15) {
        let text = String::from_utf8_lossy(tree::bytes(&w.tree, &w.main).unwrap()).into_owned();
        let text = match r.below(4) {
            0 => text.replace('\n', "\r\n"),
            1 => text.trim_end_matches('\n').to_string(),
            2 => format!("{text}\n\n \n"),
            _ => format!("\u{feff}{text}"),
        };
        w.tree.insert(w.main.clone(), Node::File(text.into()));
    }
    let mut call = gen::call(r, &w, b);
    let twice = r.chance(40);
    if twice {
        // the same bytes from a file in the current directory and from standard input
        let dir = gen::dirname(&w.main).to_string();
        call.cmd = Cmd { cwd: dir.clone(), ..Cmd::default() };
        call.count = false;
        call.stdin = false;
        let name = gen::basename(&w.main);
        let mut args = vec![if name.starts_with('-') { format!("./{name}") } else { name.to_string() }];
        let out = if b == "docx" { "result.docx" } else { *r.pick(&["-", "result.x"]) };
        args.extend(["-o".to_string(), out.to_string(), "-b".into(), b.into()]);
        if call.nores {
            args.push("-x".into());
        }
        call.dest = if out == "-" { None } else { Some(gen::join(&dir, out)) };
        call.cmd.args = args;
    }
    let mut k = new_case("P05", &w, &call);
    if twice {
        let mut s = k.cmds[0].clone();
        s.args[0] = "-".into();
        s.stdin = Some(Bytes(tree::bytes(&w.tree, &w.main).unwrap().to_vec()));
        s.stdin_pipe = r.chance(50);
        k.cmds.push(s);
    }
    for _ in 0..3 {
        let mut c = disturbed(r);
        benign(r, &mut c);
        if r.chance(10) {
            c.tty = r.below(8) as u32;
        }
        k.cfgs.push(c);
    }
    k
}

fn eval_p05(w: &mut Worker, c: &Case) -> Eval {
    let mut e = Eval::default();
    let m = Meta::of(c);
    let (b, bt) = baseline(w, c, &mut e);
    if !b.ok() {
        e.probe("baseline-failed");
    }
    let mut judge = |w: &mut Worker, e: &mut Eval, cmd: &Cmd, cf: &Cfg, i: Option<usize>| {
        let (o, t) = one(w, &c.tree, cmd, cf);
        e.note(i, &o);
        e.nontrivial |= b.ok() && (o.faults > 0 || i.is_none());
        let how = if i.is_none() { "standard input instead of a file".to_string() } else { injected(&o) };
        if o.code != b.code || o.abnormal() {
            e.fail("status-differs", format!("{} instead of {}; {how}; stderr {:?}", o.status(), b.status(), o.err_text()));
        } else if o.stdout != b.stdout {
            e.fail("stdout-differs", format!("{}; {how}", describe(Some(&b.stdout), Some(&o.stdout))));
        } else if dest_bytes(&t, &m.dest) != dest_bytes(&bt, &m.dest) {
            e.fail("file-differs", format!("{}; {how}", describe(dest_bytes(&bt, &m.dest), dest_bytes(&t, &m.dest))));
        }
    };
    if let Some(s) = c.cmds.get(1) {
        judge(w, &mut e, s, &Cfg::default(), None);
        e.probe("stdin-vs-file");
    }
    for (i, cf) in c.cfgs.iter().enumerate() {
        let cmd = &c.cmds[if i == 2 { c.cmds.len() - 1 } else { 0 }];
        judge(w, &mut e, cmd, cf, Some(i));
    }
    e
}
