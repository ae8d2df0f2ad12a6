//! The memory shared with the interposed process; mirrors `struct shared` in shim.c.

use serde::{Deserialize, Serialize};

pub const CFG_FD: i32 = 1021;
pub const GATE_OUT: i32 = 1019;
pub const GATE_IN: i32 = 1018;
pub const MAGIC: u64 = 0x31304d495356;
pub const NOPS: usize = 17;
pub const NACTS: usize = 10;
pub const MAXLIST: usize = 4096;
pub const MAXSW: usize = 65536;
pub const MAXEDIT: usize = 48;
pub const MAXPF: usize = 24;
pub const MAXDMG: usize = 16;
pub const PLEN: usize = 256;
pub const LOGCAP: usize = 1 << 20;
pub const COVCAP: usize = 1 << 16;

pub const OPS: [&str; NOPS] = [
    "openr", "openw", "read", "readin", "write", "writeout", "writeerr", "close", "stat", "seek",
    "realpath", "getcwd", "name", "sync", "chdir", "remove", "lock",
];
pub const ACTS: [&str; NACTS] = [
    "none", "short", "eintr", "errno", "zero", "crash-before", "crash-after", "crash-part", "edit", "delay",
];
pub fn op(name: &str) -> usize {
    OPS.iter().position(|o| *o == name).expect("op")
}
pub fn act(name: &str) -> usize {
    ACTS.iter().position(|o| *o == name).expect("act")
}

#[repr(C)]
#[derive(Clone, Copy, Serialize, Deserialize, PartialEq, Debug)]
pub struct Listed {
    pub ev: u32,
    pub act: u32,
    pub arg: i64,
}
#[repr(C)]
#[derive(Clone, Copy, Serialize, Deserialize, PartialEq, Debug)]
pub struct SwPoint {
    pub step: u64,
    pub thr: u32,
    #[serde(skip)]
    pub pad: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Edit {
    pub kind: u32,
    pub done: u32,
    pub path: [u8; PLEN],
    pub src: [u8; PLEN],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct PathFault {
    pub opmask: u32,
    pub err: i32,
    pub from_ev: u32,
    pub pad: u32,
    pub path: [u8; PLEN],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Damage {
    pub kind: u32,
    pub mask: u32,
    pub off: u64,
    pub len: u64,
    pub path: [u8; PLEN],
}

#[repr(C)]
pub struct Shared {
    pub magic: u64,
    pub fault_seed: u64,
    pub sched_seed: u64,
    pub rand_seed: u64,
    pub clock_base: u64,
    pub pid: u32,
    pub heap_pad: u32,
    pub explicit_faults: u32,
    pub n_listed: u32,
    pub explicit_sched: u32,
    pub n_switch: u32,
    pub max_faults: u32,
    pub edit_rate: u32,
    pub n_edits: u32,
    pub n_pf: u32,
    pub n_damage: u32,
    pub fd_limit: u32,
    pub max_steps: u64,
    pub max_live: u64,
    pub gap_mean: u32,
    pub io_switch: u32,
    pub short_mode: u32,
    pub faults_on: u32,
    pub env_seed: u64,
    pub gated: u32,
    pub tty: u32,
    pub ns_step: u32,
    pub cpus: u32,
    pub cold_switch: u32,
    pub pad3: u32,
    pub rate: [[u16; NACTS]; NOPS],
    pub root: [u8; PLEN],
    pub listed: [Listed; MAXLIST],
    pub sw: [SwPoint; MAXSW],
    pub edits: [Edit; MAXEDIT],
    pub pf: [PathFault; MAXPF],
    pub dmg: [Damage; MAXDMG],
    pub steps: u64,
    pub live: u64,
    pub max_live_seen: u64,
    pub events: u32,
    pub faults: u32,
    pub switches: u32,
    pub ended: u32,
    pub open_now: u32,
    pub open_max: u32,
    pub threads_made: u32,
    pub log_over: u32,
    pub log_len: u32,
    pub pad2: u32,
    pub rnd_calls: u64,
    pub clock_calls: u64,
    pub sim_time: u64,
    pub cov: [u8; COVCAP],
    pub log: [u8; LOGCAP],
}

pub fn put(dst: &mut [u8; PLEN], s: &str) {
    let b = s.as_bytes();
    assert!(b.len() < PLEN, "path too long: {s}");
    dst[..b.len()].copy_from_slice(b);
    dst[b.len()] = 0;
}

/// Creates the shared memory; returns the descriptor and the mapping
pub fn create() -> (i32, *mut Shared) {
    unsafe {
        let fd = libc::memfd_create(c"vsim".as_ptr(), libc::MFD_CLOEXEC);
        assert!(fd >= 0, "memfd_create");
        let n = std::mem::size_of::<Shared>();
        assert_eq!(libc::ftruncate(fd, n as i64), 0);
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(p != libc::MAP_FAILED, "mmap");
        (fd, p as *mut Shared)
    }
}
