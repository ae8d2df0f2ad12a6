//! A case is one scenario, complete enough to be written to a replay file; its
//! evaluation executes the runs and applies the property's oracle.

use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

use crate::rng::{hash, mix, Rng};
use crate::run::{Cfg, Cmd, LibOut, Out, Worker};
use crate::shm::{Listed, SwPoint};
use crate::tree::Tree;

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub tree: Tree,
    pub cmds: Vec<Cmd>,
    /// one per run that is disturbed; reference runs use the default
    pub cfgs: Vec<Cfg>,
    /// the steps of a history: library calls, edits, runs
    #[serde(default)]
    pub hist: Vec<Value>,
    /// the property's own parameters
    pub p: Value,
}

#[derive(Default)]
pub struct Eval {
    /// class of the violation, and details for the reader
    pub violation: Option<(String, String)>,
    pub nontrivial: bool,
    /// identifies the history for counting distinct ones
    pub key: u64,
    /// what was injected in the run of each of the case's configurations
    pub fired: BTreeMap<usize, (Vec<Listed>, Vec<SwPoint>)>,
    pub kinds: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    /// the event logs of all runs
    pub logs: Vec<String>,
    pub error: Option<String>,
}

impl Eval {
    pub fn note(&mut self, cfg_index: Option<usize>, o: &Out) {
        if let Some(i) = cfg_index {
            self.fired.insert(i, (o.fired(), o.switched()));
            o.fault_kinds(&mut self.kinds);
        }
        if o.ended == 6 {
            self.error = Some("wall clock limit".into());
        }
        if o.signal == Some(-1) {
            self.error = Some(o.err_text());
        }
        if o.log_over {
            *self.probes.entry("log-overflow".into()).or_default() += 1;
        }
        self.key = mix(self.key, hash(o.log.as_bytes()));
        self.logs.push(o.log.clone());
    }
    pub fn note_lib(&mut self, cfg_index: Option<usize>, o: &LibOut) {
        self.note(cfg_index, &o.out);
    }
    pub fn fail(&mut self, class: &str, detail: String) {
        if self.violation.is_none() {
            self.violation = Some((class.to_string(), detail));
        }
    }
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_default() += 1;
    }
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, bool) -> Case,
    pub eval: fn(&mut Worker, &Case) -> Eval,
    /// number of cases: quick, thorough
    pub cases: (u64, u64),
    pub rule: &'static str,
    pub real: &'static str,
    /// shrink the text of the world's files
    pub shrink_files: bool,
}

impl Case {
    pub fn new(prop: &str, tree: Tree) -> Case {
        Case { prop: prop.into(), seed: 0, tree, cmds: vec![], cfgs: vec![], hist: vec![], p: Value::Null }
    }
    /// The same case with what the random choices amounted to written out
    pub fn explicit(&self, e: &Eval) -> Case {
        let mut c = self.clone();
        for (i, (f, s)) in &e.fired {
            if let Some(cfg) = c.cfgs.get_mut(*i) {
                cfg.explicit = Some(f.clone());
                if !s.is_empty() || cfg.gap_mean > 0 || cfg.io_switch > 0 || cfg.cold_switch > 0 {
                    cfg.sched = Some(s.clone());
                }
            }
        }
        c
    }
}

/// Draws the usual parameters of a disturbed run
pub fn cfg(r: &mut Rng) -> Cfg {
    Cfg { fault_seed: r.next() >> 1, sched_seed: r.next() >> 1, ..Cfg::default() }
}

pub fn short(s: &str, n: usize) -> String {
    let t: String = s.chars().take(n).collect();
    t.replace('\n', "\\n")
}
