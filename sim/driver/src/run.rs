//! Executes simulated runs: one process of the real binary (or of the library
//! harness) in a fresh world, under one configuration.

use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::fs::{self, File};
use std::io;
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

use crate::shm::{self, Listed, Shared, SwPoint};
use crate::tree::{self, Bytes, Tree};

pub const DEFAULT_STEPS: u64 = 400_000_000;

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct EditSpec {
    /// replace | unlink | mkdir | link | chmod | away
    pub kind: String,
    pub path: String,
    #[serde(default)]
    pub data: Bytes,
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Pf {
    pub path: String,
    pub ops: Vec<String>,
    pub err: i32,
    pub from_ev: u32,
}
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Dmg {
    pub path: String,
    /// eof | flip | fill
    pub kind: String,
    pub off: u64,
    pub len: u64,
    pub mask: u32,
}

/// Everything that determines a run besides the world and the command line
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
#[serde(default)]
pub struct Cfg {
    pub fault_seed: u64,
    pub sched_seed: u64,
    pub rand_seed: u64,
    pub clock: u64,
    pub pid: u32,
    pub heap_pad: u32,
    /// nonzero: unset environment variables may appear to be set
    pub env_seed: u64,
    /// standard streams that are terminals
    pub tty: u32,
    /// simulated nanoseconds per step, 0 for the usual number
    pub ns_step: u32,
    pub cpus: u32,
    pub faults_on: bool,
    pub max_faults: u32,
    pub edit_rate: u32,
    pub rates: Vec<(String, String, u16)>,
    pub short_mode: u32,
    pub edits: Vec<EditSpec>,
    pub pf: Vec<Pf>,
    pub dmg: Vec<Dmg>,
    pub gap_mean: u32,
    pub io_switch: u32,
    pub cold_switch: u32,
    pub fd_limit: u32,
    pub max_steps: u64,
    pub max_live: u64,
    /// replay: exactly these faults, exactly these thread switches
    pub explicit: Option<Vec<Listed>>,
    pub sched: Option<Vec<SwPoint>>,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            fault_seed: 1,
            sched_seed: 1,
            rand_seed: 1,
            clock: 1_700_000_000_000_000_000,
            pid: 4242,
            heap_pad: 0,
            env_seed: 0,
            tty: 0,
            ns_step: 0,
            cpus: 0,
            faults_on: true,
            max_faults: 0,
            edit_rate: 0,
            rates: vec![],
            short_mode: 0,
            edits: vec![],
            pf: vec![],
            dmg: vec![],
            gap_mean: 0,
            io_switch: 0,
            cold_switch: 0,
            fd_limit: 0,
            max_steps: DEFAULT_STEPS,
            max_live: 1 << 30,
            explicit: None,
            sched: None,
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, Default, PartialEq)]
#[serde(default)]
pub struct Cmd {
    pub args: Vec<String>,
    /// relative to the world's root
    pub cwd: String,
    pub stdin: Option<Bytes>,
    /// standard input is a pipe rather than a file
    pub stdin_pipe: bool,
    pub env: Vec<(String, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    /// 0 by itself, 1 step budget, 2 deadlock, 3 memory bound, 4 injected crash, 5 cpu limit, 6 wall limit
    pub ended: u32,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub log: String,
    pub steps: u64,
    pub events: u32,
    pub faults: u32,
    pub switches: u32,
    pub threads: u32,
    pub open_max: u32,
    pub live_max: u64,
    pub log_over: bool,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0) && self.ended == 0
    }
    pub fn status(&self) -> String {
        match (self.ended, self.code, self.signal) {
            (1, _, _) => "step budget exceeded".into(),
            (2, _, _) => "deadlock".into(),
            (3, _, _) => "memory bound exceeded".into(),
            (4, _, _) => "crashed by injection".into(),
            (5, _, _) => "cpu limit exceeded".into(),
            (6, _, _) => "wall clock limit exceeded".into(),
            (_, Some(c), _) => format!("exit {c}"),
            (_, _, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
    pub fn err_text(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    /// Ended without an exit status of its own
    pub fn abnormal(&self) -> bool {
        self.ended != 0 || self.signal.is_some()
    }
    pub fn panicked(&self) -> bool {
        self.code == Some(101) || find(&self.stderr, b"panicked at").is_some()
    }
    pub fn fired(&self) -> Vec<Listed> {
        self.log
            .lines()
            .filter_map(|l| {
                let mut w = l.strip_prefix("F ")?.split(' ');
                Some(Listed {
                    ev: w.next()?.parse().ok()?,
                    act: w.next()?.parse().ok()?,
                    arg: w.next()?.parse().ok()?,
                })
            })
            .collect()
    }
    pub fn switched(&self) -> Vec<SwPoint> {
        self.log
            .lines()
            .filter_map(|l| {
                let mut w = l.strip_prefix("S ")?.split(' ');
                Some(SwPoint { step: w.next()?.parse().ok()?, thr: w.next()?.parse().ok()?, pad: 0 })
            })
            .collect()
    }
    /// (event, thread, op, path, arg, result) of every event
    pub fn ops(&self) -> Vec<(u32, i32, &str, &str, i64, i64)> {
        self.log
            .lines()
            .filter_map(|l| {
                let r = l.strip_prefix("E ")?;
                let (ev, r) = r.split_once(' ')?;
                let (thr, r) = r.split_once(' ')?;
                let (op, r) = r.split_once(' ')?;
                let (r, res) = r.rsplit_once(' ')?;
                let (path, arg) = r.rsplit_once(' ').unwrap_or((r, "0"));
                Some((ev.parse().ok()?, thr.parse().ok()?, op, path, arg.parse().ok()?, res.parse().unwrap_or(0)))
            })
            .collect()
    }
    /// Counts of what was injected, by "op/action"
    pub fn fault_kinds(&self, into: &mut BTreeMap<String, u64>) {
        let ops: BTreeMap<u32, &str> = self.ops().iter().map(|o| (o.0, o.2)).collect();
        for l in self.log.lines() {
            if l.starts_with("F ") || l.starts_with("P ") {
                let w: Vec<&str> = l.split(' ').collect();
                let ev: u32 = w[1].parse().unwrap_or(0);
                let a = if w[0] == "P" {
                    "path-errno"
                } else {
                    w[2].parse::<usize>().ok().and_then(|i| shm::ACTS.get(i)).copied().unwrap_or("?")
                };
                let o = ops.get(&ev).copied().unwrap_or("?");
                *into.entry(format!("{o}/{a}")).or_default() += 1;
            }
        }
    }
    /// Paths touched outside the world
    pub fn outside(&self) -> Vec<String> {
        self.log
            .lines()
            .filter_map(|l| l.strip_prefix("O "))
            .filter_map(|l| l.split_once(' '))
            .map(|(_, p)| p.to_string())
            .collect()
    }
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() {
        return Some(0);
    }
    h.windows(n.len()).position(|w| w == n)
}

#[derive(Clone, Debug, Default)]
pub struct LibOut {
    pub out: Out,
    pub results: Vec<Value>,
    pub done: bool,
}
impl LibOut {
    pub fn get(&self, id: i64) -> Option<&Value> {
        self.results.iter().find(|v| v["id"].as_i64() == Some(id))
    }
}

pub struct Env {
    pub base: PathBuf,
    pub bin: PathBuf,
    pub drop_user: bool,
}

/// Sets up the scratch area: on tmpfs if binaries can be run from there
pub fn make_env(home: &Path) -> Result<Env, String> {
    let src = home.join("target/vsim");
    for parent in ["/dev/shm", "/tmp"] {
        for drop_user in [true, false] {
            let base = PathBuf::from(format!("{parent}/vsim.{:07}", std::process::id()));
            if fs::create_dir(&base).is_err() {
                continue;
            }
            let _ = fs::set_permissions(&base, fs::Permissions::from_mode(0o755));
            let bin = base.join("bin");
            let _ = fs::create_dir(&bin);
            let mut good = true;
            for f in ["asciidocr", "libsim", "libvsim.so"] {
                good &= fs::copy(src.join(f), bin.join(f)).is_ok();
                let _ = fs::set_permissions(bin.join(f), fs::Permissions::from_mode(0o755));
            }
            if !good {
                let _ = fs::remove_dir_all(&base);
                return Err(format!("missing binaries in {src:?}"));
            }
            let env = Env { base, bin, drop_user };
            let mut w = Worker::new(&env, 999);
            let o = w.cli(&Cmd { args: vec!["--version".into()], ..Cmd::default() }, &Cfg::default());
            if o.ok() && o.events > 0 {
                return Ok(env);
            }
            let _ = fs::remove_dir_all(&env.base);
        }
    }
    Err("cannot run the binaries".into())
}

/// What a simulated process is controlled through
struct Slot {
    memfd: i32,
    shm: *mut Shared,
    io: PathBuf,
    stage: PathBuf,
}
impl Slot {
    fn new(dir: &Path, n: usize) -> Slot {
        let (memfd, shm) = shm::create();
        let s = Slot { memfd, shm, io: dir.join(format!("io{n}")), stage: dir.join(format!("stage{n}")) };
        for p in [&s.io, &s.stage] {
            fs::create_dir(p).expect("worker subdir");
            let _ = fs::set_permissions(p, fs::Permissions::from_mode(0o777));
        }
        s
    }
}

/// A simulated process under way
struct Running {
    child: Child,
    pidfd: i32,
    slot: usize,
    /// it says here that it is about to do something, and waits there
    gate: Option<(File, File)>,
}

pub struct Worker {
    dir: PathBuf,
    pub root: PathBuf,
    pub tmp: PathBuf,
    bin: PathBuf,
    drop_user: bool,
    slots: Vec<Slot>,
    /// totals for the evidence
    pub runs: u64,
    pub lib_runs: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub events: u64,
    pub switches: u64,
}
unsafe impl Send for Worker {}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
        for s in &self.slots {
            unsafe {
                libc::munmap(s.shm as *mut libc::c_void, std::mem::size_of::<Shared>());
                libc::close(s.memfd);
            }
        }
    }
}

/// Waits until the process is about to do something, perhaps after waiting for others, or has ended
#[derive(Clone, Copy, PartialEq)]
enum Gate {
    Ended,
    Ready,
    Waited,
}
fn at_gate(p: &Running) -> Gate {
    let say = &p.gate.as_ref().unwrap().0;
    let mut f = [
        libc::pollfd { fd: say.as_raw_fd(), events: libc::POLLIN, revents: 0 },
        libc::pollfd { fd: p.pidfd, events: libc::POLLIN, revents: 0 },
    ];
    unsafe { libc::poll(f.as_mut_ptr(), 2, 60_000) };
    let mut b = [0u8; 1];
    if f[0].revents & libc::POLLIN == 0 || !matches!(io::Read::read(&mut &*say, &mut b), Ok(1)) {
        Gate::Ended
    } else if b[0] == 2 {
        Gate::Waited
    } else {
        Gate::Ready
    }
}

impl Worker {
    pub fn new(env: &Env, n: usize) -> Worker {
        let dir = env.base.join(format!("w{n:03}"));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir(&dir).expect("worker dir");
        for d in ["root", "tmp"] {
            let p = dir.join(d);
            fs::create_dir(&p).expect("worker subdir");
            let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o777));
        }
        Worker {
            slots: vec![Slot::new(&dir, 0)],
            root: dir.join("root"),
            tmp: dir.join("tmp"),
            bin: env.bin.clone(),
            drop_user: env.drop_user,
            dir,
            runs: 0,
            lib_runs: 0,
            steps: 0,
            sim_ns: 0,
            events: 0,
            switches: 0,
        }
    }

    /// Starts over with exactly these files
    pub fn reset(&mut self, t: &Tree) {
        tree::clear_dir(&self.root);
        tree::clear_dir(&self.tmp);
        tree::write_tree(&self.root, t);
    }
    pub fn snapshot(&self) -> Tree {
        tree::read_tree(&self.root)
    }
    pub fn abs(&self, rel: &str) -> String {
        if rel.is_empty() {
            return self.root.to_string_lossy().into_owned();
        }
        self.root.join(rel).to_string_lossy().into_owned()
    }
    pub fn coverage(&self) -> Vec<u8> {
        let mut v = unsafe { (&(*self.slots[0].shm).cov).to_vec() };
        for s in &self.slots[1..] {
            for (a, b) in v.iter_mut().zip(unsafe { &(*s.shm).cov }) {
                *a |= *b;
            }
        }
        v
    }

    fn prepare(&mut self, slot: usize, c: &Cfg) {
        let stage_dir = self.slots[slot].stage.clone();
        tree::clear_dir(&stage_dir);
        let s = unsafe { &mut *self.slots[slot].shm };
        s.magic = shm::MAGIC;
        s.fault_seed = c.fault_seed;
        s.sched_seed = c.sched_seed;
        s.rand_seed = c.rand_seed;
        s.clock_base = c.clock;
        s.pid = c.pid;
        s.heap_pad = c.heap_pad;
        s.env_seed = c.env_seed;
        s.tty = c.tty;
        s.ns_step = c.ns_step;
        s.cpus = c.cpus;
        s.gated = 0;
        s.max_faults = c.max_faults;
        s.edit_rate = c.edit_rate;
        s.fd_limit = c.fd_limit;
        s.max_steps = c.max_steps;
        s.max_live = c.max_live;
        s.gap_mean = c.gap_mean;
        s.io_switch = c.io_switch;
        s.cold_switch = c.cold_switch;
        s.short_mode = c.short_mode;
        s.faults_on = c.faults_on as u32;
        s.rate = [[0; shm::NACTS]; shm::NOPS];
        for (o, a, r) in &c.rates {
            s.rate[shm::op(o)][shm::act(a)] = *r;
        }
        shm::put(&mut s.root, self.root.to_str().unwrap());
        s.explicit_faults = c.explicit.is_some() as u32;
        s.n_listed = 0;
        for l in c.explicit.iter().flatten().take(shm::MAXLIST) {
            s.listed[s.n_listed as usize] = *l;
            s.n_listed += 1;
        }
        s.explicit_sched = c.sched.is_some() as u32;
        s.n_switch = 0;
        for l in c.sched.iter().flatten().take(shm::MAXSW) {
            s.sw[s.n_switch as usize] = *l;
            s.n_switch += 1;
        }
        s.n_edits = 0;
        for (i, e) in c.edits.iter().take(shm::MAXEDIT).enumerate() {
            let d = &mut s.edits[i];
            d.done = 0;
            shm::put(&mut d.path, self.root.join(&e.path).to_str().unwrap());
            let stage = stage_dir.join(i.to_string());
            shm::put(&mut d.src, stage.to_str().unwrap());
            d.kind = match e.kind.as_str() {
                "replace" => {
                    fs::write(&stage, &e.data.0).expect("stage");
                    let _ = fs::set_permissions(&stage, fs::Permissions::from_mode(0o666));
                    1
                }
                "unlink" => 2,
                "mkdir" => 3,
                "link" => {
                    shm::put(&mut d.src, std::str::from_utf8(&e.data.0).unwrap_or("gone"));
                    4
                }
                "chmod" => 5,
                _ => 6,
            };
            s.n_edits += 1;
        }
        s.n_pf = 0;
        for (i, p) in c.pf.iter().take(shm::MAXPF).enumerate() {
            let d = &mut s.pf[i];
            d.opmask = p.ops.iter().fold(0, |m, o| m | 1 << shm::op(o));
            d.err = p.err;
            d.from_ev = p.from_ev;
            shm::put(&mut d.path, &p.path);
            s.n_pf += 1;
        }
        s.n_damage = 0;
        for (i, g) in c.dmg.iter().take(shm::MAXDMG).enumerate() {
            let d = &mut s.dmg[i];
            d.kind = match g.kind.as_str() {
                "eof" => 1,
                "flip" => 2,
                _ => 3,
            };
            d.off = g.off;
            d.len = g.len;
            d.mask = g.mask;
            shm::put(&mut d.path, &g.path);
            s.n_damage += 1;
        }
        s.steps = 0;
        s.live = 0;
        s.max_live_seen = 0;
        s.events = 0;
        s.faults = 0;
        s.switches = 0;
        s.ended = 0;
        s.open_now = 0;
        s.open_max = 0;
        s.threads_made = 0;
        s.log_over = 0;
        s.log_len = 0;
        s.rnd_calls = 0;
        s.clock_calls = 0;
        s.sim_time = 0;
    }

    fn start(&mut self, slot: usize, gated: bool, prog: &str, cmd: &Cmd, cfg: &Cfg) -> Result<Running, Out> {
        self.prepare(slot, cfg);
        let io_dir = self.slots[slot].io.clone();
        let stdin: Stdio = match &cmd.stdin {
            None => File::open("/dev/null").expect("null").into(),
            Some(b) if cmd.stdin_pipe && b.0.len() <= 60_000 => unsafe {
                let mut p = [0i32; 2];
                assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
                let mut w = File::from_raw_fd(p[1]);
                io::Write::write_all(&mut w, &b.0).expect("pipe");
                File::from_raw_fd(p[0]).into()
            },
            Some(b) => {
                let p = io_dir.join("in");
                fs::write(&p, &b.0).expect("stdin");
                File::open(&p).expect("stdin").into()
            }
        };
        let fo = File::create(io_dir.join("out")).expect("stdout file");
        let fe = File::create(io_dir.join("err")).expect("stderr file");
        let pipe = || unsafe {
            let mut p = [0i32; 2];
            assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
            (File::from_raw_fd(p[0]), File::from_raw_fd(p[1]))
        };
        let gates = if gated { Some((pipe(), pipe())) } else { None };
        let theirs = gates.as_ref().map(|(say, go)| (say.1.as_raw_fd(), go.0.as_raw_fd()));
        unsafe { (*self.slots[slot].shm).gated = gated as u32 };
        let mut c = Command::new(self.bin.join(prog));
        let here = self.abs("");
        c.args(cmd.args.iter().map(|a| a.replace("@ROOT@", &here)))
            .current_dir(self.root.join(&cmd.cwd))
            .stdin(stdin)
            .stdout(fo)
            .stderr(fe)
            .env_clear()
            .env("LD_PRELOAD", self.bin.join("libvsim.so"))
            .env("LD_LIBRARY_PATH", &self.bin)
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", self.tmp.as_os_str())
            .env("TMPDIR", self.tmp.as_os_str());
        for (k, v) in &cmd.env {
            c.env(k, v.replace("@ROOT@", &here));
        }
        let memfd = self.slots[slot].memfd;
        let drop_user = self.drop_user;
        unsafe {
            c.pre_exec(move || {
                if libc::dup2(memfd, shm::CFG_FD) < 0 {
                    return Err(io::Error::last_os_error());
                }
                if let Some((say, go)) = theirs {
                    if libc::dup2(say, shm::GATE_OUT) < 0 || libc::dup2(go, shm::GATE_IN) < 0 {
                        return Err(io::Error::last_os_error());
                    }
                }
                let lim = |r, v: u64| {
                    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                    libc::setrlimit(r, &l);
                };
                lim(libc::RLIMIT_NOFILE, 2048);
                lim(libc::RLIMIT_CPU, 20);
                lim(libc::RLIMIT_CORE, 0);
                lim(libc::RLIMIT_AS, 6 << 30);
                lim(libc::RLIMIT_FSIZE, 1 << 30);
                let stack = libc::rlimit { rlim_cur: 8 << 20, rlim_max: 8 << 20 };
                libc::setrlimit(libc::RLIMIT_STACK, &stack);
                libc::umask(0);
                libc::personality(libc::ADDR_NO_RANDOMIZE as u64);
                if drop_user {
                    if libc::setgroups(0, std::ptr::null()) != 0
                        || libc::setgid(65534) != 0
                        || libc::setuid(65534) != 0
                    {
                        return Err(io::Error::last_os_error());
                    }
                }
                Ok(())
            });
        }
        match c.spawn() {
            Err(e) => {
                let stderr = format!("spawn: {e}").into_bytes();
                Err(Out { signal: Some(-1), stderr, ..Out::default() })
            }
            Ok(child) => {
                let pidfd = unsafe { libc::syscall(libc::SYS_pidfd_open, child.id() as i32, 0) as i32 };
                let gate = gates.map(|((say, _), (_, go))| (say, go));
                Ok(Running { child, pidfd, slot, gate })
            }
        }
    }

    fn finish(&mut self, mut r: Running) -> Out {
        let mut o = Out::default();
        let mut wall = false;
        unsafe {
            if r.pidfd >= 0 {
                let mut p = libc::pollfd { fd: r.pidfd, events: libc::POLLIN, revents: 0 };
                if libc::poll(&mut p, 1, 60_000) == 0 {
                    wall = true;
                    libc::kill(r.child.id() as i32, libc::SIGKILL);
                }
                libc::close(r.pidfd);
            }
        }
        let st = r.child.wait().expect("wait");
        let slot = &self.slots[r.slot];
        o.code = st.code();
        o.signal = st.signal();
        let s = unsafe { &*slot.shm };
        o.ended = s.ended;
        if o.ended == 0 && o.signal == Some(libc::SIGXCPU) {
            o.ended = 5;
        }
        if o.ended == 0 && wall {
            o.ended = 6;
        }
        // a crash by injection is recorded before the signal is sent
        o.steps = s.steps;
        o.events = s.events;
        o.faults = s.faults;
        o.switches = s.switches;
        o.threads = s.threads_made;
        o.open_max = s.open_max;
        o.live_max = s.max_live_seen;
        o.log_over = s.log_over != 0;
        let n = (s.log_len as usize).min(shm::LOGCAP);
        o.log = String::from_utf8_lossy(&s.log[..n]).into_owned();
        o.stdout = fs::read(slot.io.join("out")).unwrap_or_default();
        o.stderr = fs::read(slot.io.join("err")).unwrap_or_default();
        self.steps += o.steps;
        self.sim_ns += s.sim_time;
        self.events += o.events as u64;
        self.switches += o.switches as u64;
        o
    }

    fn spawn(&mut self, prog: &str, cmd: &Cmd, cfg: &Cfg) -> Out {
        match self.start(0, false, prog, cmd, cfg) {
            Ok(r) => self.finish(r),
            Err(o) => o,
        }
    }

    /// Several processes at the same time, one call of one of them after the other: `order`
    /// says how many calls of which process come next; at the end they take turns
    pub fn together(&mut self, cmds: &[Cmd], cfgs: &[Cfg], order: &[(usize, u32)]) -> Vec<Out> {
        while self.slots.len() < cmds.len() {
            let n = self.slots.len();
            self.slots.push(Slot::new(&self.dir, n));
        }
        let mut procs: Vec<Option<Running>> = vec![];
        let mut outs: Vec<Out> = vec![Out::default(); cmds.len()];
        for (i, cmd) in cmds.iter().enumerate() {
            self.runs += 1;
            match self.start(i, true, "asciidocr", cmd, &cfgs[i]) {
                Ok(r) => procs.push(Some(r)),
                Err(o) => {
                    outs[i] = o;
                    procs.push(None);
                }
            }
        }
        // each stops at its first call
        let mut live: Vec<bool> = procs.iter().map(|p| p.as_ref().is_some_and(|p| at_gate(p) != Gate::Ended)).collect();
        let mut turns = 0u64;
        let mut step = |live: &mut Vec<bool>, i: usize, n: u32| {
            for _ in 0..n {
                if let (true, Some(p)) = (live[i], &procs[i]) {
                    turns += 1;
                    let _ = io::Write::write_all(&mut &p.gate.as_ref().unwrap().1, &[1]);
                    let g = at_gate(p);
                    live[i] = g != Gate::Ended;
                    // who waits leaves the rest of the turn to others
                    if g == Gate::Waited {
                        break;
                    }
                }
            }
        };
        for (i, n) in order {
            if *i < live.len() {
                step(&mut live, *i, *n);
            }
        }
        while live.contains(&true) {
            for i in 0..live.len() {
                step(&mut live, i, 40);
            }
        }
        self.switches += turns;
        for (i, p) in procs.into_iter().enumerate() {
            if let Some(p) = p {
                outs[i] = self.finish(p);
            }
        }
        outs
    }

    pub fn cli(&mut self, cmd: &Cmd, cfg: &Cfg) -> Out {
        self.runs += 1;
        self.spawn("asciidocr", cmd, cfg)
    }

    pub fn lib(&mut self, script: &Value, cwd: &str, cfg: &Cfg) -> LibOut {
        self.lib_runs += 1;
        let io_dir = self.slots[0].io.clone();
        let sp = io_dir.join("script");
        let rp = io_dir.join("result");
        let text = serde_json::to_string(script).unwrap().replace("@ROOT@", &self.abs(""));
        fs::write(&sp, text).expect("script");
        let _ = fs::remove_file(&rp);
        let cmd = Cmd {
            args: vec![sp.to_string_lossy().into_owned(), rp.to_string_lossy().into_owned()],
            cwd: cwd.to_string(),
            ..Cmd::default()
        };
        let out = self.spawn("libsim", &cmd, cfg);
        let mut results = vec![];
        let mut done = false;
        for l in fs::read(&rp).unwrap_or_default().split(|b| *b == b'\n') {
            if let Ok(v) = serde_json::from_slice::<Value>(l) {
                if v["done"] == true {
                    done = true;
                } else {
                    results.push(v);
                }
            }
        }
        LibOut { out, results, done }
    }
}

