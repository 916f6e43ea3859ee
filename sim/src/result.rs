//! What crosses from the simulated process to its supervisor.
use crate::bytes::Bytes;
use crate::disk::Disk;
use crate::mval::MVal;
use crate::plan::{Content, Op};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Outcome {
    ///the daemon's process ended by itself
    Exited(i32),
    Killed,
    PowerLost,
    ///killed by a signal of its own making (abort, segmentation fault) or by one it did not handle
    Died(String),
    Deadlock,
    StepBudget,
    TimeBudget,
    CpuHang(String),
    Harness(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Stats {
    pub preemptions: u64,
    pub alloc_points: u64,
    pub thread_stalls: u64,
    pub connections: u64,
    pub disk_errors: BTreeMap<String, u64>,
    pub short_io: u64,
    pub disk_stalls: u64,
    pub saves: u64,
    pub aborts: u64,
    pub resets_sent: u64,
    pub fragments: u64,
    pub threads: u64,
    pub fs_ops: u64,
    pub allocs_refused: u64,
    pub peak_live: u64,
    pub probes: BTreeMap<String, u64>,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.preemptions += o.preemptions;
        self.alloc_points += o.alloc_points;
        self.thread_stalls += o.thread_stalls;
        self.connections += o.connections;
        for (k, v) in &o.disk_errors {
            *self.disk_errors.entry(k.clone()).or_insert(0) += v;
        }
        self.short_io += o.short_io;
        self.disk_stalls += o.disk_stalls;
        self.saves += o.saves;
        self.aborts += o.aborts;
        self.resets_sent += o.resets_sent;
        self.fragments += o.fragments;
        self.threads += o.threads;
        self.fs_ops += o.fs_ops;
        self.allocs_refused += o.allocs_refused;
        self.peak_live = self.peak_live.max(o.peak_live);
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FsLog {
    pub seq: u64,
    pub t: u64,
    pub op: String,
    pub path: String,
    pub to: Option<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Snap {
    pub seq: u64,
    pub t: u64,
    pub files: Vec<(String, Bytes)>,
}
///what a restart would load
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct View {
    pub seq: u64,
    pub t: u64,
    ///None: could not be decoded
    pub dbs: BTreeMap<String, Option<Content>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Body {
    None,
    Text(String),
    Val(MVal),
    Store(Content),
    Names(Vec<String>),
    Creation(String),
    ///the names of all keys, sorted
    Keys(Vec<String>),
    ///a table of keys and, where they are on one line, values
    Table(Vec<(String, Option<String>)>),
    ///an exported file; None: it cannot be exported
    Json { types: bool, text: Option<String> },
    Probe { fds: u64, threads: u64, live: i64, strays: Vec<String> },
    Bad(String),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Out {
    ///status and body as far as it was understood
    Resp(u16, Body),
    ///no (complete) answer
    Lost(String),
    ///a client of the library answered in a way that matches any of these
    OneOf(Vec<(u16, Body)>),
    ///a wrong answer by itself
    Wrong(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rec {
    pub client: usize,
    pub op: Op,
    pub inv: u64,
    pub inv_t: u64,
    ///None: never returned
    pub ret: Option<(u64, u64)>,
    pub out: Out,
    ///nothing of it can have reached the daemon
    pub not_sent: bool,
    ///may have been sent twice by the client library
    pub maybe_twice: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EpochResult {
    pub outcome: Outcome,
    pub started: bool,
    pub recs: Vec<Rec>,
    pub disk: Disk,
    pub start: u64,
    pub now: u64,
    pub end_seq: u64,
    pub wall_off: i64,
    pub rng: Rng,
    pub steps: u64,
    pub switches: u64,
    pub hash: u64,
    pub stats: Stats,
    pub panics: Vec<String>,
    pub output: String,
    pub escapes: Vec<String>,
    pub unsupported: Vec<String>,
    pub views: Vec<View>,
    pub fs_busy: Vec<(u64, u64)>,
    pub fs_log: Vec<FsLog>,
    pub fault_hits: Vec<u64>,
    pub fault_last: Vec<u64>,
    pub last_fault: u64,
    pub last_delay: u64,
    pub death_t: u64,
    pub signal_t: u64,
    pub signal_seq: u64,
    pub save_after_signal: bool,
    pub liveness: Vec<String>,
    pub power_notes: Vec<String>,
    pub trace: Vec<String>,
    pub client_panics: Vec<String>,
    pub attempted_save_after_signal: bool,
    pub crash_seq: u64,
    pub last_disk_fault: u64,
    pub stall_total: u64,
    pub died_of: Option<String>,
    ///changes of files by a daemon that did not start
    pub changes: Vec<String>,
}
