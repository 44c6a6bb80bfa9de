//! A scenario is everything that determines a run. It is the replay file.
use serde::{Deserialize, Serialize};

use crate::kern::{IoCfg, NetCfg, SchedCfg, K};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub cfg: String,
    pub seed: u64,
    pub note: String,
    pub net: NetCfg,
    pub sched: SchedCfg,
    pub io: IoCfg,
    pub files: Vec<FileSpec>,
    pub procs: Vec<ProcSpec>,
    pub timeline: Vec<Timed>,
    pub expects: Vec<Expect>,
    /// hard limit of simulated time
    pub end_us: u64,
    /// the run ends this long after the last foreground process ended
    pub grace_us: u64,
    pub max_steps: u64,
    pub mitm: Option<MitmSpec>,
    pub sock_limit: Option<(usize, u64)>,
    /// fault decisions to take instead of drawing them
    pub explicit: Option<Vec<(K, u64, u64)>>,
    pub log_trace: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileSpec {
    pub path: String,
    pub kind: FileKind,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FileKind {
    Data { seed: u64, size: u64 },
    Text(String),
    Dir,
    Link(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProcSpec {
    pub name: String,
    pub host: u32,
    pub prog: Prog,
    pub start: StartAt,
    pub fg: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum StartAt {
    At(u64),
    After(usize, u64),
    Never,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Prog {
    Bin(Vec<String>),
    Peer(crate::peers::Peer),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Timed {
    pub at_us: u64,
    pub act: Act,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Kill(usize),
    Start(usize),
    Stall(usize, u64),
    /// step the wall clock of a process by microseconds
    Wall(usize, i64),
    Cut(u32, u32),
    Heal(u32, u32),
    HealAll,
    /// note the memory a process holds
    Sample(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Expect {
    /// when p exits successfully, dst holds exactly the bytes of src
    OkExact { p: usize, src: String, dst: String, at_end: bool },
    /// as above, and the byte count p reported is the length of src
    OkCount { p: usize, src: String },
    MustOk(usize),
    MustFail(usize),
    /// p has ended within this much time of its start
    EndsWithin { p: usize, us: u64 },
    /// p ended successfully no later than this moment, or this long after the last fault
    /// (a failure is excused if the file nevertheless arrived: the last acknowledgement is repeated for bounded time only)
    OkBy { p: usize, us: u64, after_fault_us: u64, excuse: Option<(String, String)> },
    /// p (a server) is running at the end
    Alive(usize),
    /// no panic in any task of p
    NoPanic(usize),
    /// content at the end is the given content from `files`
    Unchanged(String),
    FileIs { path: String, src: String },
    /// at the end the file is absent, or holds exactly one of these
    OneOf { path: String, srcs: Vec<String>, absent_ok: bool },
    Absent(String),
    /// never bigger than this at the end
    MaxLen { path: String, max: u64 },
    /// server p holds only its idle descriptors and threads at the end
    Released { p: usize },
    /// the only successful opens by p after start are below this directory (or listed)
    Confined { p: usize, dir: String, allow: Vec<String> },
    /// p created, changed or removed nothing outside these path prefixes
    TreeIntact { dirs: Vec<String> },
    /// no datagram contains 8 consecutive bytes of the file's content / this text
    NoLeak { srcs: Vec<String>, texts: Vec<String>, hosts: Vec<u32> },
    /// wire conformance of unencrypted transfers; file: content of the transferred file, by remote name
    WireConform { server: u32, files: Vec<(String, String)> },
    /// traffic bounds
    Traffic(TrafficSpec),
    /// no datagram of these hosts is an unencrypted acknowledgement or block (everything was to be encrypted)
    NoPlain { hosts: Vec<u32> },
    /// at most n concurrent sessions seen by the server on the wire
    MaxSessions { p: usize, n: usize },
    /// listing: dst holds exactly the lines
    Listing { p: usize, dst: String, lines: Vec<String> },
    /// if both succeeded, dst holds exactly the bytes of src
    OkBoth { p: usize, q: usize, src: String, dst: String },
    /// bytes of dst are the content of src encrypted with the key (not plain)
    AtRest { p: usize, src: String, dst: String },
    /// p opened or created nothing whose path contains this
    NoOpenOk { p: usize, under: String },
    /// at least one of these succeeded / exactly one
    SuccessCount { ps: Vec<usize>, min: usize, max: usize },
    /// winner's content: the file equals the source of (one of) the successful procs
    WinnerIs { path: String, pairs: Vec<(usize, String)>, initial: Option<String> },
    /// known-hosts file contains exactly these lines at the end
    KnownHosts { path: String, must: Option<String>, only: bool },
    /// a log-independent check: the file at the end equals src if any of ps succeeded
    IfOkFile { p: usize, path: String, src: String },
    /// server socket used for data differs from / equals the contacted one
    FreshPort { p: usize, server: u32, port: u16 },
    SamePort { client: u32, server: u32, port: u16 },
    /// at the end nothing was sent in the last `us` microseconds
    Quiet { us: u64 },
    /// encrypted datagrams never use a nonce twice
    NonceOnce { hosts: Vec<u32>, all: bool },
    /// the two files do not begin with the same `n` bytes
    /// what p holds does not grow from sample to sample
    HeapFlat { p: usize, slack: i64 },
    /// between two samples (or in all) p never held more than max bytes above the first sample
    HeapPeak { p: usize, max: i64 },
    Differ { ps: Vec<usize>, a: String, b: String, n: usize },
    /// host `from` sends nothing to host `to`
    Silent { from: u32, to: u32 },
    /// all file names below dir (recursive) are exactly these
    Names { dir: String, names: Vec<String> },
    /// sync: remote path content equals final local content at the end
    SameAs { a: String, b: String },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TrafficSpec {
    pub server: u32,
    /// how often a block may be sent, unless it is among the last ones
    pub max_copies: u32,
    /// data packets in total, not counting the last blocks
    pub max_data: u64,
    pub last: u64,
    /// datagrams allowed in total
    pub max_total: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MitmSpec {
    pub kind: String,
    pub a: u32,
    pub b: u32,
    pub n: u64,
    pub m: u64,
    pub s: String,
    #[serde(default)]
    pub ppm: u32,
}

impl Scenario {
    pub fn new(prop: &str, cfg: &str, seed: u64) -> Scenario {
        Scenario {
            prop: prop.into(),
            cfg: cfg.into(),
            seed,
            note: String::new(),
            net: NetCfg::default(),
            sched: SchedCfg::default(),
            io: IoCfg::default(),
            files: vec![],
            procs: vec![],
            timeline: vec![],
            expects: vec![],
            end_us: 600_000_000,
            grace_us: 2_000_000,
            max_steps: 3_000_000,
            mitm: None,
            sock_limit: None,
            explicit: None,
            log_trace: false,
        }
    }
    pub fn file(&mut self, path: &str, kind: FileKind) {
        self.files.push(FileSpec { path: path.into(), kind });
    }
    pub fn data(&mut self, path: &str, seed: u64, size: u64) {
        self.file(path, FileKind::Data { seed, size });
    }
    pub fn dir(&mut self, path: &str) {
        self.file(path, FileKind::Dir);
    }
    pub fn proc(&mut self, name: &str, host: u32, prog: Prog, start: StartAt, fg: bool) -> usize {
        self.procs.push(ProcSpec { name: name.into(), host, prog, start, fg });
        self.procs.len() - 1
    }
    pub fn bytes_of(&self, path: &str) -> Option<Vec<u8>> {
        self.files.iter().find(|f| f.path == path).and_then(|f| match &f.kind {
            FileKind::Data { seed, size } => Some(crate::util::content(*seed, *size)),
            FileKind::Text(t) => Some(t.clone().into_bytes()),
            _ => None,
        })
    }
}
