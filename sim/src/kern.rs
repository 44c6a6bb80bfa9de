//! Simulated kernel: tasks, scheduler, clock, descriptors, UDP network.
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering};

use crate::raw;

pub const VFD: i32 = 1 << 20;
pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

pub type Ip = u32; // host number, address 10.0.0.n
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Addr {
    pub ip: u32,
    pub port: u16,
}
impl Addr {
    pub fn new(host: u32, port: u16) -> Self {
        Addr { ip: ip_of(host), port }
    }
    pub fn s(&self) -> String {
        let i = self.ip;
        format!("{}.{}.{}.{}:{}", i >> 24, (i >> 16) & 255, (i >> 8) & 255, i & 255, self.port)
    }
}
pub fn ip_of(host: u32) -> u32 {
    0x0a00_0000 | host
}
pub fn host_of(ip: u32) -> u32 {
    ip & 0x00ff_ffff
}

thread_local! {
    /// 0: not a simulated task (raw system calls)
    pub static TASK: Cell<usize> = const { Cell::new(0) };
}
#[inline(always)]
pub fn in_sim() -> bool {
    TASK.try_with(|t| t.get() != 0).unwrap_or(false)
}
/// run `f` with interception off
pub fn rawly<T>(f: impl FnOnce() -> T) -> T {
    let old = TASK.with(|t| t.replace(0));
    let r = f();
    TASK.with(|t| t.set(old));
    r
}

static mut SIM: *mut Sim = std::ptr::null_mut();
#[inline(always)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn sim_active() -> bool {
    unsafe { !SIM.is_null() }
}
pub fn install(s: Sim) {
    unsafe { SIM = Box::into_raw(Box::new(s)) }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn hash3(a: u64, b: u64, c: u64) -> u64 {
    mix(mix(mix(a) ^ b) ^ c.rotate_left(17))
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, serde::Serialize, serde::Deserialize)]
pub enum K {
    Drop,
    Dup,
    Delay,
    Corrupt,
    Trunc,
    Preempt,
    TStall,
    ShortRead,
    ShortWrite,
    Eintr,
    IoErr,
    // counters only
    RxOverflow,
    Partition,
    Icmp,
    Kill,
    Restart,
    Stall,
    ClockStep,
    NoSpace,
    Inject,
    Mitm,
    OpenErr,
    SockErr,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct NetCfg {
    pub latency_us: u64,
    pub jitter_us: u64,
    pub drop_ppm: u32,
    pub dup_ppm: u32,
    pub delay_ppm: u32,
    pub delay_max_us: u64,
    pub corrupt_ppm: u32,
    pub trunc_ppm: u32,
    /// random network faults only in this window of simulated time
    pub from_us: u64,
    pub until_us: u64,
    pub rxq_bytes: usize,
    pub icmp: bool,
    /// packets between these hosts only are subject to faults (empty: all)
    pub only_hosts: Vec<u32>,
    /// datagrams shorter than this are never hit (0: all)
    #[serde(default)]
    pub min_len: usize,
    #[serde(default)]
    pub only_ops: Vec<u8>,
    /// only blocks and acknowledgements whose number is this close to the wrap (0: all)
    #[serde(default)]
    pub near_wrap: u16,
    /// no more than this many random faults (0: any number)
    #[serde(default)]
    pub max_faults: u64,
    /// at least this many packets from one random fault to the next
    #[serde(default)]
    pub gap: u64,
    #[serde(skip)]
    pub faults: u64,
    #[serde(skip)]
    pub last_hit: u64,
}
impl Default for NetCfg {
    fn default() -> Self {
        NetCfg {
            latency_us: 100,
            jitter_us: 0,
            drop_ppm: 0,
            dup_ppm: 0,
            delay_ppm: 0,
            delay_max_us: 0,
            corrupt_ppm: 0,
            trunc_ppm: 0,
            from_us: 0,
            until_us: u64::MAX / 4000,
            rxq_bytes: 212_992,
            icmp: true,
            only_hosts: vec![],
            min_len: 0,
            only_ops: vec![],
            near_wrap: 0,
            max_faults: 0,
            gap: 0,
            last_hit: 0,
            faults: 0,
        }
    }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct SchedCfg {
    pub preempt_ppm: u32,
    pub tstall_ppm: u32,
    pub tstall_max_us: u64,
    pub quantum_us: u64,
    pub cost_ns: u64,
    pub clock_cost_ns: u64,
    pub until_us: u64,
}
impl Default for SchedCfg {
    fn default() -> Self {
        SchedCfg {
            preempt_ppm: 0,
            tstall_ppm: 0,
            tstall_max_us: 0,
            quantum_us: 40,
            cost_ns: 1500,
            clock_cost_ns: 60,
            until_us: u64::MAX / 4000,
        }
    }
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct IoCfg {
    /// process indices the faults apply to
    pub procs: Vec<usize>,
    pub short_read_ppm: u32,
    pub short_write_ppm: u32,
    pub eintr_ppm: u32,
    pub err_ppm: u32,
    /// n-th (1 based) file operation of the process of the kind fails with errno
    pub nth: Vec<IoNth>,
    /// bytes the process may write before the disk is full
    pub disk_quota: Option<u64>,
    /// only paths containing this
    pub path: String,
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct IoNth {
    pub op: String, // open read write mkdir seek
    pub n: u64,
    pub errno: i32,
    /// keep failing from then on
    pub sticky: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wait {
    None,
    Sleep,
    Futex(usize),
    Epoll(i32),
    Join(usize),
    Sock(i32),
    Never,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Ready,
    Blocked,
    Done,
    Dead,
}

pub struct Task {
    pub proc: usize,
    pub st: St,
    pub wait: Wait,
    pub wseq: u64,
    pub timed_out: bool,
    pub go: AtomicU32,
    pub yields: u64,
    pub pthread: u64,
    /// joined or detached: nothing stays behind when it ends
    pub freed: bool,
    pub hold_until: u64,
    pub name: String,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum PState {
    NotStarted,
    Running,
    Exited(Result<(), String>),
    Panicked(String),
    ExitCode(i32),
    Killed,
}

pub struct Proc {
    pub host: u32,
    pub name: String,
    pub state: PState,
    pub started: u64,
    pub ended: u64,
    pub stalled_until: u64,
    pub rand_ctr: u64,
    pub io_ops: u64,
    pub io_kind: [u64; 8],
    pub written: u64,
    pub vfds: i32,
    pub main_task: usize,
    pub incarnation: u32,
    pub max_vfds: i32,
    pub threads_live: i32,
    pub wall_off: i64,
    /// sockets connected to one peer: the sessions of a server
    pub conns: i32,
    pub max_conns: i32,
}

pub struct Dgram {
    pub src: Addr,
    pub data: Rc<Vec<u8>>,
}

pub struct Sock {
    pub proc: usize,
    pub host: u32,
    pub local: Option<Addr>, // ip may be 0 (any)
    pub peer: Option<Addr>,
    pub rx: VecDeque<Dgram>,
    pub rx_bytes: usize,
    pub reuseport: bool,
    pub reuseaddr: bool,
    pub nonblock: bool,
    pub err: i32,
    pub bind_seq: u64,
}

pub struct EpEntry {
    pub events: u32,
    pub data: u64,
    pub seen: u64,
}
pub struct Epoll {
    pub list: BTreeMap<i32, EpEntry>,
    pub rot: i32,
}
pub enum Vfd {
    Udp(Sock),
    Epoll(Epoll),
    Event { count: u64, gen: u64 },
    Timer { expire: Option<u64>, gen: u64 },
}
pub struct VfdSlot {
    pub proc: usize,
    pub v: Vfd,
}

pub struct RealFd {
    pub proc: usize,
    pub path: String,
    pub write: bool,
}

pub enum Ev {
    WakeTask(usize, u64),
    Deliver { src: Addr, dst: Addr, data: Rc<Vec<u8>>, id: u64 },
    IcmpUnreach { to: Addr, about: Addr },
    TimerFd(i32, u64),
    Action(usize),
    Unhold(usize),
    Unstall(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum WK {
    Sent,
    /// put on the wire by an attacker
    Injected,
    Delivered,
    Dropped,
    Unroutable,
}
#[derive(Clone)]
pub struct Wire {
    pub t: u64,
    pub k: WK,
    pub src: Addr,
    pub dst: Addr,
    pub data: Rc<Vec<u8>>,
    pub id: u64,
}

#[derive(Clone, Debug)]
pub struct OpenRec {
    pub t: u64,
    pub proc: usize,
    pub op: &'static str,
    pub path: String,
    pub real: String,
    pub flags: i32,
    pub ok: bool,
}

pub struct LogRec {
    pub t: u64,
    pub proc: usize,
    pub msg: String,
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub proc: usize,
    pub main: bool,
    pub msg: String,
}

pub type MitmFn = Box<dyn FnMut(&mut Sim, Addr, Addr, Rc<Vec<u8>>) -> Vec<(Addr, Addr, Rc<Vec<u8>>, u64)>>;
pub type ActionFn = Box<dyn FnMut(&mut Sim)>;
pub type ExitFn = Box<dyn FnMut(usize)>;

pub struct Sim {
    pub now: u64,
    pub seed: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub end_at: u64,
    pub tasks: Vec<Box<Task>>, // index 0 unused
    pub cur: usize,
    pub ready: VecDeque<usize>,
    pub procs: Vec<Proc>,
    pub events: BTreeMap<(u64, u64), Ev>,
    pub evseq: u64,
    pub next_ev: u64,
    pub fds: Vec<Option<VfdSlot>>,
    pub free_fds: Vec<usize>,
    pub real: BTreeMap<i32, RealFd>,
    pub dirs: BTreeMap<usize, String>,
    pub net: NetCfg,
    pub sched: SchedCfg,
    pub io: IoCfg,
    pub link_n: HashMap<(u32, u32), u64>,
    pub partitions: Vec<(u32, u32)>, // directed host pairs that are cut
    pub slice_start: u64,
    pub explicit: Option<HashMap<(K, u64), u64>>,
    pub fired: Vec<(K, u64, u64)>,
    pub counts: BTreeMap<K, u64>,
    pub hash: u64,
    pub ileave: u64,
    pub switches: u64,
    pub trace: Option<Vec<String>>,
    pub wire: Vec<Wire>,
    pub keep_wire: bool,
    pub pkt_id: u64,
    pub opens: Vec<OpenRec>,
    pub logs: Vec<LogRec>,
    pub panics: Vec<PanicRec>,
    pub mitm: Option<MitmFn>,
    pub actions: Vec<Option<ActionFn>>,
    pub on_exit: Option<ExitFn>,
    pub done: bool,
    pub why_done: &'static str,
    pub main_go: AtomicU32,
    pub root: String,
    pub escapes: Vec<String>,
    pub eph: u16,
    pub last_fault: u64,
    pub violations: Vec<String>,
    pub heaps: Vec<(usize, i64, i64)>,
    pub starters: HashMap<usize, fn(usize) -> Box<dyn FnOnce() -> Result<(), String>>>,
    pub fd_fail_after: Option<(usize, u64)>,
    /// what a process held just before the first client started
    pub idle: BTreeMap<usize, (i32, usize, usize)>,
}

impl Sim {
    pub fn new(seed: u64) -> Sim {
        let dummy = Box::new(Task {
            proc: 0,
            st: St::Done,
            wait: Wait::None,
            wseq: 0,
            timed_out: false,
            go: AtomicU32::new(0),
            yields: 0,
            pthread: 0,
            freed: true,
            hold_until: 0,
            name: String::new(),
        });
        Sim {
            now: 1_000_000 * SEC,
            seed,
            steps: 0,
            max_steps: 3_000_000,
            end_at: u64::MAX,
            tasks: vec![dummy],
            cur: 0,
            ready: VecDeque::new(),
            procs: vec![],
            events: BTreeMap::new(),
            evseq: 0,
            next_ev: u64::MAX,
            fds: vec![],
            free_fds: vec![],
            real: BTreeMap::new(),
            dirs: BTreeMap::new(),
            net: NetCfg::default(),
            sched: SchedCfg::default(),
            io: IoCfg::default(),
            link_n: HashMap::new(),
            partitions: vec![],
            slice_start: 0,
            explicit: None,
            fired: vec![],
            counts: BTreeMap::new(),
            hash: 0xcbf2_9ce4_8422_2325,
            ileave: 0,
            switches: 0,
            trace: None,
            wire: vec![],
            keep_wire: true,
            pkt_id: 0,
            opens: vec![],
            logs: vec![],
            panics: vec![],
            mitm: None,
            actions: vec![],
            on_exit: None,
            done: false,
            why_done: "",
            main_go: AtomicU32::new(0),
            root: String::new(),
            escapes: vec![],
            eph: 0,
            last_fault: 0,
            violations: vec![],
            heaps: vec![],
            starters: HashMap::new(),
            fd_fail_after: None,
            idle: BTreeMap::new(),
        }
    }

    pub fn t0() -> u64 {
        1_000_000 * SEC
    }
    /// simulated time since the start of the run
    pub fn t(&self) -> u64 {
        self.now - Self::t0()
    }

    // ---- log ----
    #[inline]
    pub fn h(&mut self, a: u64, b: u64) {
        self.hash = (self.hash ^ a).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23) ^ mix(b);
    }
    pub fn hb(&mut self, d: &[u8]) {
        let mut x = 0xcbf2_9ce4_8422_2325u64;
        for c in d.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            x = (x ^ u64::from_le_bytes(v)).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(29);
        }
        self.h(d.len() as u64, x);
    }
    pub fn tr(&mut self, f: impl FnOnce(&Sim) -> String) {
        if self.trace.is_some() {
            let t = self.t();
            let p = self.tasks[self.cur].proc;
            let pn = if self.procs.is_empty() { String::new() } else { self.procs[p].name.clone() };
            let s = format!("{:>12.6}s t{} {}: {}", t as f64 / 1e9, self.cur, pn, f(self));
            self.trace.as_mut().unwrap().push(s);
        }
    }
    pub fn count(&mut self, k: K) {
        *self.counts.entry(k).or_insert(0) += 1;
    }

    // ---- decisions ----
    pub fn decide(&mut self, k: K, key: u64, ppm: u32, max: u64) -> Option<u64> {
        let v = match &self.explicit {
            Some(m) => m.get(&(k, key)).copied(),
            None => {
                if ppm == 0 {
                    None
                } else {
                    let r = hash3(self.seed, k as u64 + 1, key);
                    if r % 1_000_000 < ppm as u64 {
                        Some(if max == 0 { 0 } else { mix(r) % max })
                    } else {
                        None
                    }
                }
            }
        };
        if let Some(v) = v {
            self.fired.push((k, key, v));
            self.count(k);
            if !matches!(k, K::Preempt) {
                self.last_fault = self.last_fault.max(self.now);
            }
        }
        v
    }

    // ---- events ----
    pub fn at(&mut self, t: u64, e: Ev) {
        self.evseq += 1;
        self.events.insert((t, self.evseq), e);
        if t < self.next_ev {
            self.next_ev = t;
        }
    }
    fn refresh_next(&mut self) {
        self.next_ev = self.events.keys().next().map(|k| k.0).unwrap_or(u64::MAX);
    }
    pub fn run_events(&mut self) {
        while self.next_ev <= self.now {
            let k = match self.events.keys().next() {
                Some(k) if k.0 <= self.now => *k,
                _ => break,
            };
            let e = self.events.remove(&k).unwrap();
            self.refresh_next();
            self.handle(e);
        }
        self.refresh_next();
    }
    fn handle(&mut self, e: Ev) {
        match e {
            Ev::WakeTask(t, seq) => {
                if self.tasks[t].st == St::Blocked && self.tasks[t].wseq == seq {
                    self.tasks[t].timed_out = true;
                    self.make_ready(t);
                }
            }
            Ev::Deliver { src, dst, data, id } => self.deliver(src, dst, data, id),
            Ev::IcmpUnreach { to, about } => {
                for i in 0..self.fds.len() {
                    if let Some(VfdSlot { v: Vfd::Udp(s), .. }) = &mut self.fds[i] {
                        if s.peer == Some(about) && s.local.map(|l| l.port) == Some(to.port) && ip_of(s.host) == to.ip {
                            s.err = libc::ECONNREFUSED;
                            self.count(K::Icmp);
                            self.wake_fd(VFD + i as i32);
                            break;
                        }
                    }
                }
            }
            Ev::TimerFd(fd, g) => {
                if let Some(Vfd::Timer { gen, .. }) = self.vfd_get(fd) {
                    if *gen == g {
                        self.wake_fd(fd);
                    }
                }
            }
            Ev::Action(i) => {
                if let Some(mut f) = self.actions[i].take() {
                    f(self);
                    self.actions[i] = Some(f);
                }
            }
            Ev::Unhold(_) | Ev::Unstall(_) => {}
        }
    }

    // ---- tasks ----
    pub fn make_ready(&mut self, t: usize) {
        let k = &mut self.tasks[t];
        if k.st == St::Blocked {
            k.st = St::Ready;
            k.wait = Wait::None;
            k.wseq += 1;
            self.ready.push_back(t);
        }
    }
    pub fn runnable(&self, t: usize) -> bool {
        let k = &self.tasks[t];
        k.st == St::Ready && k.hold_until <= self.now && self.procs[k.proc].stalled_until <= self.now
    }
    fn finish(&mut self, why: &'static str) {
        if !self.done {
            self.done = true;
            self.why_done = why;
        }
    }

    /// pick the next task; None when the run is over. The current task must
    /// already be in the ready queue if it may continue.
    fn pick(&mut self) -> Option<usize> {
        loop {
            self.run_events();
            if self.done {
                return None;
            }
            if self.now >= self.end_at {
                self.finish("time");
                return None;
            }
            if self.steps >= self.max_steps {
                self.finish("steps");
                return None;
            }
            // drop dead entries
            let mut first = None;
            let mut i = 0;
            while i < self.ready.len() {
                let t = self.ready[i];
                if self.tasks[t].st != St::Ready {
                    self.ready.remove(i);
                    continue;
                }
                if self.runnable(t) {
                    first = Some(i);
                    break;
                }
                i += 1;
            }
            if let Some(i) = first {
                return self.ready.remove(i);
            }
            let nx = self.next_ev;
            if nx == u64::MAX {
                self.finish("quiescent");
                return None;
            }
            if nx > self.end_at {
                self.now = self.end_at;
                self.finish("time");
                return None;
            }
            self.now = self.now.max(nx);
        }
    }

    // ---- descriptors ----
    pub fn vfd_new(&mut self, v: Vfd) -> i32 {
        let proc = self.tasks[self.cur].proc;
        self.procs[proc].vfds += 1;
        if self.procs[proc].vfds > self.procs[proc].max_vfds {
            self.procs[proc].max_vfds = self.procs[proc].vfds;
        }
        let i = match self.free_fds.pop() {
            Some(i) => i,
            None => {
                self.fds.push(None);
                self.fds.len() - 1
            }
        };
        self.fds[i] = Some(VfdSlot { proc, v });
        VFD + i as i32
    }
    pub fn vfd_get(&mut self, fd: i32) -> Option<&mut Vfd> {
        if fd < VFD {
            return None;
        }
        self.fds.get_mut((fd - VFD) as usize).and_then(|s| s.as_mut()).map(|s| &mut s.v)
    }
    pub fn sock(&mut self, fd: i32) -> Option<&mut Sock> {
        match self.vfd_get(fd) {
            Some(Vfd::Udp(s)) => Some(s),
            _ => None,
        }
    }
    pub fn vfd_close(&mut self, fd: i32) -> bool {
        let i = (fd - VFD) as usize;
        let Some(slot) = self.fds.get_mut(i) else { return false };
        let Some(s) = slot.take() else { return false };
        self.procs[s.proc].vfds -= 1;
        if let Vfd::Udp(Sock { peer: Some(_), .. }) = &s.v {
            self.procs[s.proc].conns -= 1;
        }
        self.free_fds.push(i);
        // a closed descriptor leaves every epoll set
        for f in self.fds.iter_mut().flatten() {
            if let Vfd::Epoll(e) = &mut f.v {
                e.list.remove(&fd);
            }
        }
        true
    }
    pub fn ready_mask(&mut self, fd: i32) -> (u32, u64) {
        if fd < VFD {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let r = unsafe { raw::sc!(libc::SYS_poll, &mut p as *mut _, 1, 0) };
            return (if r > 0 { libc::EPOLLIN as u32 } else { 0 }, u64::MAX);
        }
        let now = self.now;
        match self.vfd_get(fd) {
            Some(Vfd::Udp(s)) => {
                let mut m = libc::EPOLLOUT as u32;
                if !s.rx.is_empty() {
                    m |= libc::EPOLLIN as u32;
                }
                if s.err != 0 {
                    m |= (libc::EPOLLIN | libc::EPOLLERR) as u32;
                }
                (m, u64::MAX)
            }
            Some(Vfd::Event { count, gen }) => {
                (if *count > 0 { libc::EPOLLIN as u32 } else { 0 }, *gen)
            }
            Some(Vfd::Timer { expire, .. }) => {
                (if expire.is_some_and(|e| e <= now) { libc::EPOLLIN as u32 } else { 0 }, u64::MAX)
            }
            _ => (0, 0),
        }
    }
    pub fn epoll_collect(&mut self, ep: i32, max: usize) -> Vec<(u32, u64)> {
        let keys: Vec<i32> = match self.vfd_get(ep) {
            Some(Vfd::Epoll(e)) => {
                let r = e.rot;
                let mut k: Vec<i32> = e.list.range(r..).map(|x| *x.0).collect();
                k.extend(e.list.range(..r).map(|x| *x.0));
                k
            }
            _ => return vec![],
        };
        let mut out = vec![];
        let mut last = 0;
        for k in keys {
            if out.len() >= max {
                break;
            }
            let (m, gen) = self.ready_mask(k);
            let Some(Vfd::Epoll(e)) = self.vfd_get(ep) else { break };
            let ent = e.list.get_mut(&k).unwrap();
            let ev = m & (ent.events | (libc::EPOLLERR | libc::EPOLLHUP) as u32);
            if ev == 0 || ent.events & 0x0fff_ffff & !((libc::EPOLLONESHOT) as u32) == 0 {
                continue;
            }
            if ent.events & libc::EPOLLET as u32 != 0 && gen != u64::MAX {
                if ent.seen == gen {
                    continue;
                }
                ent.seen = gen;
            }
            if ent.events & libc::EPOLLONESHOT as u32 != 0 {
                ent.events &= libc::EPOLLONESHOT as u32;
            }
            out.push((ev, ent.data));
            last = k;
        }
        if let Some(Vfd::Epoll(e)) = self.vfd_get(ep) {
            e.rot = last + 1;
        }
        out
    }
    pub fn epoll_any(&mut self, ep: i32) -> bool {
        let keys: Vec<(i32, u32, u64)> = match self.vfd_get(ep) {
            Some(Vfd::Epoll(e)) => e.list.iter().map(|(k, v)| (*k, v.events, v.seen)).collect(),
            _ => return false,
        };
        for (k, events, seen) in keys {
            let (m, gen) = self.ready_mask(k);
            let ev = m & (events | (libc::EPOLLERR | libc::EPOLLHUP) as u32);
            if ev == 0 || events & 0x0fff_ffff & !((libc::EPOLLONESHOT) as u32) == 0 {
                continue;
            }
            if events & libc::EPOLLET as u32 != 0 && gen != u64::MAX && seen == gen {
                continue;
            }
            return true;
        }
        false
    }
    /// fd may have become ready: wake tasks waiting for it
    pub fn wake_fd(&mut self, fd: i32) {
        for t in 1..self.tasks.len() {
            if self.tasks[t].st != St::Blocked {
                continue;
            }
            match self.tasks[t].wait {
                Wait::Epoll(ep) => {
                    let has = matches!(self.vfd_get(ep), Some(Vfd::Epoll(e)) if e.list.contains_key(&fd));
                    if has && self.epoll_any(ep) {
                        self.make_ready(t);
                    }
                }
                Wait::Sock(f) if f == fd => self.make_ready(t),
                _ => {}
            }
        }
    }
    /// real descriptors (inotify) in epoll sets
    pub fn wake_real(&mut self) {
        for t in 1..self.tasks.len() {
            if self.tasks[t].st == St::Blocked {
                if let Wait::Epoll(ep) = self.tasks[t].wait {
                    let has = matches!(self.vfd_get(ep), Some(Vfd::Epoll(e)) if e.list.keys().next().is_some_and(|k| *k < VFD));
                    if has && self.epoll_any(ep) {
                        self.make_ready(t);
                    }
                }
            }
        }
    }

    // ---- network ----
    pub fn port_users(&self, host: u32, port: u16) -> Vec<usize> {
        let mut v = vec![];
        for (i, f) in self.fds.iter().enumerate() {
            if let Some(VfdSlot { v: Vfd::Udp(s), .. }) = f {
                if s.host == host && s.local.is_some_and(|l| l.port == port) {
                    v.push(i);
                }
            }
        }
        v
    }
    pub fn net_send(&mut self, src: Addr, dst: Addr, data: Vec<u8>) {
        let data = Rc::new(data);
        if let Some(mut m) = self.mitm.take() {
            let out = m(self, src, dst, data.clone());
            self.mitm = Some(m);
            // what the sender emitted is part of the wire log in any case
            let same = out.iter().any(|(s, d, b, _)| *s == src && *d == dst && b == &data);
            if !same {
                self.wire_log(WK::Sent, src, dst, data.clone(), 0);
                self.wire_log(WK::Dropped, src, dst, data.clone(), 0);
                self.count(K::Mitm);
            }
            for (s, d, b, extra) in out {
                let k = if s == src && d == dst && b == data { WK::Sent } else { WK::Injected };
                self.net_send2(s, d, b, extra, k);
            }
        } else {
            self.net_send2(src, dst, data, 0, WK::Sent);
        }
    }
    fn wire_log(&mut self, k: WK, src: Addr, dst: Addr, data: Rc<Vec<u8>>, id: u64) {
        self.h(k as u64 + 100, (src.ip as u64) << 32 | dst.ip as u64);
        self.h(src.port as u64, dst.port as u64);
        self.hb(&data);
        self.tr(|_| format!("net {:?} #{} {} -> {} {}", k, id, src.s(), dst.s(), crate::util::pkt(&data)));
        if self.keep_wire {
            let t = self.t();
            self.wire.push(Wire { t, k, src, dst, data, id });
        }
    }
    pub fn net_send2(&mut self, src: Addr, dst: Addr, data: Rc<Vec<u8>>, extra: u64, kind: WK) {
        self.pkt_id += 1;
        let id = self.pkt_id;
        self.wire_log(kind, src, dst, data.clone(), id);
        let n = self.link_n.entry((src.ip, dst.ip)).or_insert(0);
        *n += 1;
        let key = ((host_of(src.ip) as u64 & 0xffff) << 48) | ((host_of(dst.ip) as u64 & 0xffff) << 32) | *n;
        let (sh, dh) = (host_of(src.ip), host_of(dst.ip));
        if self.partitions.iter().any(|p| *p == (sh, dh)) {
            self.count(K::Partition);
            self.last_fault = self.last_fault.max(self.now);
            self.wire_log(WK::Dropped, src, dst, data, id);
            return;
        }
        let c = self.net.clone();
        let fired = self.fired.len();
        let t_us = self.t() / US;
        let op = data.get(1).copied().unwrap_or(0);
        let live = (t_us >= c.from_us && t_us < c.until_us)
            && (c.max_faults == 0 || c.faults < c.max_faults)
            && (c.gap == 0 || id >= c.last_hit + c.gap)
            && (c.only_hosts.is_empty() || c.only_hosts.contains(&sh) || c.only_hosts.contains(&dh))
            && data.len() >= c.min_len
            && (c.only_ops.is_empty() || c.only_ops.contains(&op))
            && (c.near_wrap == 0 || {
                let n = crate::peers::num(&data);
                matches!(op, 3 | 4) && n.min(n.wrapping_neg()) <= c.near_wrap
            });
        let ppm = |x: u32| if live { x } else { 0 };
        if self.decide(K::Drop, key, ppm(c.drop_ppm), 0).is_some() {
            self.net.faults += 1;
            self.net.last_hit = id;
            self.wire_log(WK::Dropped, src, dst, data, id);
            return;
        }
        let mut data = data;
        if !data.is_empty() {
            if let Some(v) = self.decide(K::Corrupt, key, ppm(c.corrupt_ppm), u64::MAX) {
                let mut d = (*data).clone();
                let nb = 1 + (v >> 60) as usize % 3;
                for j in 0..nb {
                    let x = hash3(v, j as u64, 77);
                    // half of the hits go to the header
                    let i = if x & 1 == 0 { (x >> 8) as usize % d.len().min(4) } else { (x >> 8) as usize % d.len() };
                    d[i] ^= ((x >> 40) as u8) | 1;
                }
                data = Rc::new(d);
            }
            if let Some(v) = self.decide(K::Trunc, key, ppm(c.trunc_ppm), u64::MAX) {
                let mut d = (*data).clone();
                let l = v as usize % d.len();
                d.truncate(l);
                data = Rc::new(d);
            }
        }
        let mut lat = c.latency_us * US + extra;
        if c.jitter_us > 0 {
            lat += hash3(self.seed, 991, key) % (c.jitter_us * US);
        }
        if let Some(v) = self.decide(K::Delay, key, ppm(c.delay_ppm), (c.delay_max_us * US).max(1)) {
            lat += v;
            self.last_fault = self.last_fault.max(self.now + lat);
        }
        if let Some(v) = self.decide(K::Dup, key, ppm(c.dup_ppm), (c.delay_max_us * US).max(c.latency_us * US * 4).max(1)) {
            let t = self.now + lat + v;
            self.last_fault = self.last_fault.max(t);
            self.at(t, Ev::Deliver { src, dst, data: data.clone(), id });
        }
        if self.fired.len() > fired {
            self.net.faults += 1;
            self.net.last_hit = id;
        }
        let t = self.now + lat;
        self.at(t, Ev::Deliver { src, dst, data, id });
    }
    /// put a datagram on the wire from nowhere (attackers without a socket)
    pub fn inject(&mut self, src: Addr, dst: Addr, data: Vec<u8>) {
        self.count(K::Inject);
        self.net_send2(src, dst, Rc::new(data), 0, WK::Injected);
    }
    fn deliver(&mut self, src: Addr, dst: Addr, data: Rc<Vec<u8>>, id: u64) {
        let host = host_of(dst.ip);
        if self.partitions.iter().any(|p| *p == (host_of(src.ip), host)) {
            self.count(K::Partition);
            self.last_fault = self.last_fault.max(self.now);
            self.wire_log(WK::Dropped, src, dst, data, id);
            return;
        }
        let mut best: Vec<usize> = vec![];
        let mut score = -1;
        for (i, f) in self.fds.iter().enumerate() {
            let Some(VfdSlot { v: Vfd::Udp(s), .. }) = f else { continue };
            if s.host != host {
                continue;
            }
            let Some(l) = s.local else { continue };
            if l.port != dst.port || (l.ip != 0 && l.ip != dst.ip) {
                continue;
            }
            let mut sc = 0;
            if l.ip != 0 {
                sc += 1;
            }
            if let Some(p) = s.peer {
                if p != src {
                    continue;
                }
                sc += 4;
            }
            if sc > score {
                score = sc;
                best = vec![i];
            } else if sc == score {
                best.push(i);
            }
        }
        if best.is_empty() {
            self.wire_log(WK::Unroutable, src, dst, data, id);
            if self.net.icmp && self.host_up(host) {
                let t = self.now + self.net.latency_us * US;
                self.at(t, Ev::IcmpUnreach { to: src, about: dst });
            }
            return;
        }
        let i = if best.len() == 1 {
            best[0]
        } else {
            // SO_REUSEPORT group: by flow hash over the group in bind order
            best.sort_by_key(|i| match &self.fds[*i] {
                Some(VfdSlot { v: Vfd::Udp(s), .. }) => s.bind_seq,
                _ => 0,
            });
            let x = hash3(self.seed ^ 0x5eed, (src.ip as u64) << 16 | src.port as u64, (dst.ip as u64) << 16 | dst.port as u64);
            best[(x % best.len() as u64) as usize]
        };
        let cap = self.net.rxq_bytes;
        let Some(VfdSlot { v: Vfd::Udp(s), .. }) = &mut self.fds[i] else { return };
        let true_size = 768 + data.len();
        if s.rx_bytes + true_size > cap && !s.rx.is_empty() {
            self.count(K::RxOverflow);
            self.last_fault = self.last_fault.max(self.now);
            self.wire_log(WK::Dropped, src, dst, data, id);
            return;
        }
        s.rx_bytes += true_size;
        s.rx.push_back(Dgram { src, data: data.clone() });
        self.wire_log(WK::Delivered, src, dst, data, id);
        self.wake_fd(VFD + i as i32);
    }
    pub fn host_up(&self, host: u32) -> bool {
        self.procs.iter().any(|p| p.host == host)
    }

    // ---- process control ----
    pub fn kill_proc(&mut self, p: usize) {
        if self.procs[p].state != PState::Running {
            return;
        }
        self.end_proc(p, PState::Killed);
        self.tr(|s| format!("KILL {}", s.procs[p].name));
    }
    /// terminate every task of p, release its descriptors
    pub fn end_proc(&mut self, p: usize, st: PState) {
        self.procs[p].state = st;
        self.procs[p].ended = self.now;
        for t in 1..self.tasks.len() {
            if self.tasks[t].proc == p && self.tasks[t].st != St::Done {
                self.tasks[t].st = St::Dead;
            }
        }
        for i in 0..self.fds.len() {
            if self.fds[i].as_ref().is_some_and(|s| s.proc == p) {
                self.vfd_close(VFD + i as i32);
            }
        }
        let fds: Vec<i32> = self.real.iter().filter(|x| x.1.proc == p).map(|x| *x.0).collect();
        for fd in fds {
            self.real.remove(&fd);
            unsafe { raw::sc!(libc::SYS_close, fd) };
        }
        self.wake_real();
        self.h(0xdead, p as u64);
    }
    pub fn real_fds_of(&self, p: usize) -> usize {
        self.real.values().filter(|r| r.proc == p).count()
    }
    pub fn live_tasks_of(&self, p: usize) -> usize {
        self.tasks.iter().skip(1).filter(|t| t.proc == p && matches!(t.st, St::Ready | St::Blocked)).count()
    }
}

// ---- baton ----
fn give(t: usize) {
    let s = sim();
    let g = &s.tasks[t].go as *const AtomicU32;
    unsafe { (*g).store(1, Ordering::Release) };
    raw::futex_wake(g as *const u32);
}
/// `g` is read before another task may run, the list of tasks can move afterwards
fn take(g: *const AtomicU32) {
    loop {
        if unsafe { (*g).swap(0, Ordering::Acquire) } == 1 {
            return;
        }
        raw::futex_wait(g as *const u32, 0);
    }
}
fn wake_main() {
    let g = &sim().main_go as *const AtomicU32;
    unsafe { (*g).store(1, Ordering::Release) };
    raw::futex_wake(g as *const u32);
}
fn park_forever() -> ! {
    loop {
        raw::futex_wait(&0u32 as *const u32, 0);
        unsafe { raw::sc!(libc::SYS_pause) };
    }
}

pub fn go_of(t: usize) -> *const AtomicU32 {
    &sim().tasks[t].go as *const AtomicU32
}

fn switch_from(me: usize, wait_self: bool) {
    let s = sim();
    let mine = go_of(me);
    match s.pick() {
        Some(n) => {
            if n != me {
                s.switches += 1;
                s.ileave = (s.ileave ^ ((n as u64) << 8 | s.tasks[n].proc as u64)).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(7);
            }
            s.cur = n;
            s.slice_start = s.now;
            if n != me {
                give(n);
                if wait_self {
                    take(mine);
                }
            }
        }
        None => {
            wake_main();
            if wait_self {
                park_forever();
            }
        }
    }
}

/// block the current task; true if it timed out
pub fn block(wait: Wait, deadline: Option<u64>) -> bool {
    let s = sim();
    let me = s.cur;
    {
        let k = &mut s.tasks[me];
        k.st = St::Blocked;
        k.wait = wait;
        k.wseq += 1;
        k.timed_out = false;
    }
    if let Some(d) = deadline {
        let seq = s.tasks[me].wseq;
        s.at(d, Ev::WakeTask(me, seq));
    }
    switch_from(me, true);
    sim().tasks[me].timed_out
}

/// entry of an intercepted call: time passes, events happen, others may run
pub fn enter(cost: u64) {
    let s = sim();
    s.steps += 1;
    s.now += cost;
    if s.next_ev <= s.now {
        s.run_events();
    }
    let me = s.cur;
    if s.done || s.steps >= s.max_steps || s.now >= s.end_at || s.tasks[me].st == St::Dead {
        switch_now(me);
        return;
    }
    let t_us = s.t() / US;
    let live = t_us < s.sched.until_us;
    let y = {
        let k = &mut s.tasks[me];
        k.yields += 1;
        k.yields
    };
    let key = ((me as u64) << 40) | y;
    if (s.sched.tstall_ppm > 0 && live) || s.explicit.is_some() {
        let ppm = if live { s.sched.tstall_ppm } else { 0 };
        let mx = (s.sched.tstall_max_us * US).max(1);
        if let Some(v) = s.decide(K::TStall, key, ppm, mx) {
            let until = s.now + v;
            s.tasks[me].hold_until = until;
            s.last_fault = s.last_fault.max(until);
            s.at(until, Ev::Unhold(me));
            switch_now(me);
            return;
        }
    }
    if s.procs[s.tasks[me].proc].stalled_until > s.now {
        switch_now(me);
        return;
    }
    if s.ready.is_empty() {
        return;
    }
    let ppm = if live { s.sched.preempt_ppm } else { 0 };
    let forced = s.now - s.slice_start > s.sched.quantum_us * US;
    if let Some(v) = s.decide(K::Preempt, key, ppm, 8) {
        // rotate the ready queue: another task than the oldest may run first
        let n = s.ready.len();
        s.ready.rotate_left(v as usize % n);
        switch_now(me);
    } else if forced {
        switch_now(me);
    }
}

fn switch_now(me: usize) {
    let s = sim();
    if s.tasks[me].st == St::Ready {
        s.ready.push_back(me);
    }
    switch_from(me, true);
}

pub fn sleep_until(t: u64) {
    block(Wait::Sleep, Some(t));
}

// ---- threads ----
pub struct Start {
    pub task: usize,
    /// address of the flag that lets the task run
    pub go: usize,
    pub f: Option<Box<dyn FnOnce()>>,
    pub c: Option<(extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void)>,
}

pub fn new_task(proc: usize, name: String) -> usize {
    let s = sim();
    let id = s.tasks.len();
    s.tasks.push(Box::new(Task {
        proc,
        st: St::Ready,
        wait: Wait::None,
        wseq: 0,
        timed_out: false,
        go: AtomicU32::new(0),
        yields: 0,
        pthread: 0,
        freed: true,
        hold_until: 0,
        name,
    }));
    s.ready.push_back(id);
    id
}

type PthreadCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> libc::c_int;
pub fn real_pthread_create() -> PthreadCreate {
    static mut P: Option<PthreadCreate> = None;
    unsafe {
        if P.is_none() {
            let p = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
            P = Some(std::mem::transmute::<*mut libc::c_void, PthreadCreate>(p));
        }
        P.unwrap()
    }
}

pub extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    let me = st.task;
    take(st.go as *const AtomicU32);
    TASK.with(|t| t.set(me));
    crate::heap::own(sim().tasks[me].proc);
    let mut r = std::ptr::null_mut();
    let Start { f, c, .. } = *st;
    if let Some(f) = f {
        f();
    }
    if let Some((g, a)) = c {
        r = g(a);
    }
    task_exit(me);
    r
}

/// the current task ends; hands the baton on and returns (the OS thread then ends)
pub fn task_exit(me: usize) {
    let s = sim();
    if s.tasks[me].st != St::Dead {
        s.tasks[me].st = St::Done;
    }
    for t in 1..s.tasks.len() {
        if s.tasks[t].st == St::Blocked && s.tasks[t].wait == Wait::Join(me) {
            s.make_ready(t);
        }
    }
    TASK.with(|t| t.set(0));
    switch_from(me, false);
}

/// the current task never runs again
pub fn task_stop() -> ! {
    let s = sim();
    let me = s.cur;
    if s.tasks[me].st != St::Done {
        s.tasks[me].st = St::Dead;
    }
    switch_from(me, false);
    park_forever()
}

pub fn start_thread(task: usize, f: Box<dyn FnOnce()>) {
    let st = Box::new(Start { task, go: go_of(task) as usize, f: Some(f), c: None });
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        // a process' main thread has a large stack
        libc::pthread_attr_setstacksize(&mut attr, 8 << 20);
        let mut th: libc::pthread_t = 0;
        let r = real_pthread_create()(&mut th, &attr, trampoline, Box::into_raw(st) as *mut _);
        assert_eq!(r, 0, "pthread_create");
        libc::pthread_attr_destroy(&mut attr);
        sim().tasks[task].pthread = th as u64;
    }
}

/// create a process (not started)
pub fn add_proc(host: u32, name: &str) -> usize {
    let s = sim();
    s.procs.push(Proc {
        host,
        name: name.to_string(),
        state: PState::NotStarted,
        started: 0,
        ended: 0,
        stalled_until: 0,
        rand_ctr: 0,
        io_ops: 0,
        io_kind: [0; 8],
        written: 0,
        vfds: 0,
        main_task: 0,
        incarnation: 0,
        max_vfds: 0,
        threads_live: 0,
        wall_off: 0,
        conns: 0,
        max_conns: 0,
    });
    s.procs.len() - 1
}

/// start (or restart) a process with the given main function
pub fn start_proc(p: usize, f: Box<dyn FnOnce() -> Result<(), String>>) {
    {
        let s = sim();
        s.procs[p].state = PState::Running;
        s.procs[p].started = s.now;
        s.procs[p].incarnation += 1;
        crate::heap::reset(p);
    }
    let name = sim().procs[p].name.clone();
    let t = new_task(p, name);
    sim().procs[p].main_task = t;
    start_thread(
        t,
        Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let st = match r {
                Ok(r) => PState::Exited(r),
                Err(e) => {
                    let m = if let Some(s) = e.downcast_ref::<&str>() {
                        s.to_string()
                    } else if let Some(s) = e.downcast_ref::<String>() {
                        s.clone()
                    } else {
                        "panic".into()
                    };
                    PState::Panicked(m)
                }
            };
            proc_exit(p, st);
        }),
    );
}

/// called in a task of the process
pub fn proc_exit(p: usize, st: PState) {
    let s = sim();
    s.tr(|_| format!("EXIT {:?}", st));
    s.h(0xe817, matches!(st, PState::Exited(Ok(()))) as u64);
    s.end_proc(p, st);
    if let Some(mut f) = s.on_exit.take() {
        rawly(|| f(p));
        sim().on_exit = Some(f);
    }
}

/// run the simulation from the controlling (main) thread until it is over
pub fn run() {
    let s = sim();
    match s.pick() {
        Some(n) => {
            s.cur = n;
            s.slice_start = s.now;
            give(n);
            let g = &s.main_go as *const AtomicU32;
            loop {
                if unsafe { (*g).load(Ordering::Acquire) } == 1 {
                    break;
                }
                raw::futex_wait(g as *const u32, 0);
            }
        }
        None => {}
    }
}

pub fn stop(why: &'static str) {
    sim().finish(why);
}
