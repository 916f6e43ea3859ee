//! What a run does: everything that is not decided by the scheduler's random numbers.
use crate::bytes::Bytes;
use crate::mval::MVal;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub type Content = BTreeMap<String, MVal>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Strategy {
    ///run until blocked
    Sticky,
    Random { per_mille: u64 },
    Pct { depth: u64, len: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NetCfg {
    pub lat: u64,
    pub jitter: u64,
    ///largest segment, 0: as sent
    pub frag: u64,
    pub cap: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DiskCfg {
    pub op_min: u64,
    pub op_max: u64,
    pub sync_min: u64,
    pub sync_max: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KCfg {
    pub seed: u64,
    pub strategy: Strategy,
    pub alloc_period: u64,
    pub stall_num: u64,
    pub stall_max: u64,
    pub tick_max: u64,
    pub quiet_after: u64,
    pub max_steps: u64,
    pub net: NetCfg,
    pub disk: DiskCfg,
}

///where the daemon is told to keep its data
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum BaseKind {
    Env,
    EnvSlash,
    EnvDeep,
    Root,
    Home,
}
impl BaseKind {
    pub fn path(self) -> &'static str {
        match self {
            Self::Env | Self::EnvSlash => "/mnt/data",
            Self::EnvDeep => "/mnt/a/b/c",
            Self::Root => "/etc/souris",
            Self::Home => "/home/u/.local/share/souris",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    ///errors for file operations
    Disk { from: u64, to: u64, ops: u32, errno: i32, percent: u64, path: Option<String>, max: u64 },
    DiskStall { from: u64, to: u64, ops: u32, add: u64 },
    Short { from: u64, to: u64, ops: u32, percent: u64 },
    NetStall { from: u64, to: u64, conn: Option<usize> },
    NetReset { at: u64, conn: Option<usize> },
    ///the nth piece sent in that direction loses its last bytes, and the connection ends there
    NetCut { conn: Option<usize>, dir: usize, nth: u64, back: usize, fin: bool },
    NetLat { from: u64, to: u64, add: u64 },
    ClockJump { at: u64, delta: i64 },
    Accept { from: u64, to: u64, errno: i32, max: u64 },
    ///the daemon cannot have its port
    Bind { errno: i32, max: u64 },
}
impl Fault {
    pub fn starts(&self) -> u64 {
        match self {
            Self::Disk { from, .. }
            | Self::DiskStall { from, .. }
            | Self::Short { from, .. }
            | Self::NetStall { from, .. }
            | Self::NetLat { from, .. }
            | Self::Accept { from, .. } => *from,
            Self::NetReset { at, .. } | Self::ClockJump { at, .. } => *at,
            Self::NetCut { .. } | Self::Bind { .. } => 0,
        }
    }
    pub fn ends(&self) -> u64 {
        match self {
            Self::Disk { to, .. }
            | Self::DiskStall { to, .. }
            | Self::Short { to, .. }
            | Self::NetStall { to, .. }
            | Self::NetLat { to, .. }
            | Self::Accept { to, .. } => *to,
            Self::NetReset { at, .. } | Self::ClockJump { at, .. } => *at,
            Self::NetCut { .. } | Self::Bind { .. } => 0,
        }
    }
    pub fn name(&self) -> String {
        match self {
            Self::Disk { errno, .. } => format!("disk_error_{errno}"),
            Self::DiskStall { .. } => "disk_stall".into(),
            Self::Short { .. } => "short_io".into(),
            Self::NetStall { conn: None, .. } => "partition".into(),
            Self::NetStall { .. } => "connection_stall".into(),
            Self::NetReset { .. } => "connection_reset".into(),
            Self::NetCut { fin: true, .. } => "connection_cut".into(),
            Self::NetCut { .. } => "connection_cut_with_reset".into(),
            Self::NetLat { .. } => "latency_spike".into(),
            Self::ClockJump { .. } => "clock_jump".into(),
            Self::Accept { .. } => "accept_error".into(),
            Self::Bind { .. } => "bind_error".into(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    AddDb { db: String, over: bool },
    AddContent { db: String, over: bool, content: Content },
    RmDb { db: String },
    ClearDb { db: String },
    AddKv { db: String, key: String, val: MVal, create: bool, over: bool },
    RmKv { db: String, key: String },
    GetVal { db: String, key: String },
    GetDb { db: String },
    Names,
    Health,
    ///anything else: written as given; must not change anything
    Raw { method: String, target: String, headers: Vec<(String, String)>, body: Bytes, expect: Expect, close: bool },
    ///bytes on a new connection, then wait for an answer or the end
    Junk { bytes: Bytes, expect: Expect },
    ///reads everything, to compare with the model
    Audit,
    ///a recorded body, sent as the recording says; the content it stands for
    PutBody { db: String, body: Bytes, content: Content, over: bool },
    PutValueBody { db: String, key: String, body: Bytes, val: MVal },
    Sleep { ns: u64 },
    ///until that long before the daemon's next own timer
    Meet { before: u64 },
    ///when everybody else is done and things are calm: what does the daemon hold on to?
    Probe,
    ///somebody at a terminal
    Mouse {
        cmd: crate::mouse::Cmd,
        ///how long to think about what is shown, at most
        think: u64,
        ///the terminal goes away when it asks for the nth time (0: never)
        #[serde(default)]
        leaves: u64,
        ///the daemon cannot be reached from there any more, from when it is asked for the nth time on (0: never)
        #[serde(default)]
        cut: u64,
    },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Expect {
    Status(Vec<u16>),
    ///any answer which is not a success, or the connection is closed
    Rejected,
    ///success or not, but the daemon must live and nothing outside of the given scratch database may change
    Any,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Abort {
    No,
    ///close after sending that many bytes of the request
    AfterBytes(u64),
    ///close that long after sending everything, without reading the answer
    AfterSend(u64),
    ///like AfterSend, but with a reset
    ResetAfterSend(u64),
    ///shut down the writing side after the request
    HalfClose,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetOpts {
    ///pieces the request is written in (0: one), and the pause between them
    pub pieces: u64,
    pub pause: u64,
    pub chunked: bool,
    pub fresh_conn: bool,
    pub abort: Abort,
    ///percent-encode every byte of the query
    pub encode_all: bool,
    pub slow_read: u64,
    pub expect_continue: bool,
}
impl Default for NetOpts {
    fn default() -> Self {
        NetOpts {
            pieces: 0,
            pause: 0,
            chunked: false,
            fresh_conn: false,
            abort: Abort::No,
            encode_all: false,
            slow_read: 0,
            expect_continue: false,
        }
    }
}
impl NetOpts {
    pub fn is_default(&self) -> bool {
        *self == Self::default()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    ///wait before it
    pub delay: u64,
    pub op: Op,
    #[serde(default, skip_serializing_if = "NetOpts::is_default")]
    pub net: NetOpts,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum ClientKind {
    Http,
    Async,
    Sync,
    ///opens a connection and stays silent
    Idle,
    ///sends an incomplete request and stays
    HalfRequest,
    ///somebody who uses the command line client
    Mouse,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Client {
    pub kind: ClientKind,
    pub start: u64,
    pub timeout: u64,
    pub steps: Vec<Step>,
    ///open until the daemon goes away instead of closing at the end
    pub linger: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum When {
    ///after all clients are finished and that much time
    Done(u64),
    At(u64),
    Step(u64),
    ///at the n-th changing file operation; 0 before, 1 in the middle, 2 after
    FsOp(u64, u8),
    ///when n requests were answered, plus a delay
    Acks(u64, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Graceful { sig: i32, when: When },
    Kill { when: When },
    Power { when: When },
}
impl End {
    pub fn when(&self) -> &When {
        match self {
            End::Graceful { when, .. } | End::Kill { when } | End::Power { when } => when,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Damage {
    Truncate { name: String, keep: u64 },
    Zero { name: String },
    Flip { name: String, bits: Vec<u64> },
    Garbage { name: String, data: Bytes },
    Append { name: String, data: Bytes },
    Delete { name: String },
    ///back to what it was before any damage
    Restore { name: String },
}
impl Damage {
    pub fn name(&self) -> &str {
        match self {
            Damage::Truncate { name, .. }
            | Damage::Zero { name }
            | Damage::Flip { name, .. }
            | Damage::Garbage { name, .. }
            | Damage::Append { name, .. }
            | Damage::Restore { name }
            | Damage::Delete { name } => name,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Epoch {
    ///done to the files of databases before the start
    pub damage: Vec<Damage>,
    pub faults: Vec<Fault>,
    pub clients: Vec<Client>,
    pub end: End,
    ///read everything before the other clients start
    pub audit: bool,
    ///virtual time the daemon gets to start
    pub start_limit: u64,
    ///the daemon may refuse to start (faults during start-up)
    pub may_refuse: bool,
    ///crash while it starts, before any client
    pub crash_in_start: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Preset {
    pub files: Vec<(String, Bytes)>,
    pub content: BTreeMap<String, Content>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub profile: String,
    pub run: u64,
    pub k: KCfg,
    pub base: BaseKind,
    pub workers: u32,
    pub cpus: u32,
    pub log: Option<String>,
    pub wall: u64,
    pub preset: Option<Preset>,
    pub epochs: Vec<Epoch>,
}
