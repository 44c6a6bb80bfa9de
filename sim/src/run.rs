//! Executes one scenario in the current (forked, single threaded) OS process.
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;

use serde::{Deserialize, Serialize};

use crate::kern::*;
use crate::oracle;
use crate::scen::*;
use crate::shim;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violations: Vec<String>,
    pub hash: u64,
    pub ileave: u64,
    pub switches: u64,
    pub steps: u64,
    pub sim_us: u64,
    pub why: String,
    pub counts: BTreeMap<String, u64>,
    pub fired: Vec<(K, u64, u64)>,
    pub ends: Vec<String>,
    pub panics: Vec<String>,
    pub packets: u64,
    pub oks: u32,
    pub trace: Vec<String>,
    pub crashed: Option<String>,
}

struct Logger;
static LOGGER: Logger = Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if !in_sim() {
            return;
        }
        let _held = crate::heap::Hold::new();
        let s = sim();
        let keep = r.target().starts_with("tftp_bin") || r.level() <= log::Level::Info;
        let full = s.trace.is_some() || log::max_level() == log::LevelFilter::Trace;
        if !keep && !full {
            return;
        }
        let own = r.target().starts_with("tftp");
        if !own && s.trace.is_none() {
            return;
        }
        let msg = format!("{}", r.args());
        let s = sim();
        if s.trace.is_some() && own && !msg.starts_with("Received ") && !msg.starts_with("Send to") {
            s.tr(|_| format!("log {} {}: {}", r.level(), r.target(), msg));
        }
        if keep && s.logs.len() < 100_000 {
            let p = s.tasks[s.cur].proc;
            let t = s.t();
            s.logs.push(LogRec { t, proc: p, msg });
        }
    }
    fn flush(&self) {}
}

pub fn make_files(sc: &Scenario) {
    for f in &sc.files {
        if let Some(d) = std::path::Path::new(&f.path).parent() {
            if !d.as_os_str().is_empty() {
                std::fs::create_dir_all(d).expect("mkdir");
            }
        }
        match &f.kind {
            FileKind::Dir => std::fs::create_dir_all(&f.path).expect("mkdir"),
            FileKind::Link(t) => std::os::unix::fs::symlink(t, &f.path).expect("symlink"),
            FileKind::Data { seed, size } => {
                // specs below "ref/" only define contents
                if !f.path.starts_with("ref/") {
                    std::fs::write(&f.path, crate::util::content(*seed, *size)).expect("write")
                }
            }
            FileKind::Text(t) => {
                if !f.path.starts_with("ref/") {
                    std::fs::write(&f.path, t).expect("write")
                }
            }
        }
    }
}

fn main_fn(sc: &Scenario, p: usize) -> Box<dyn FnOnce() -> Result<(), String>> {
    match sc.procs[p].prog.clone() {
        Prog::Bin(args) => Box::new(move || {
            let mut a = vec!["tftp-dus".to_string()];
            a.extend(args);
            shim::set_args(&a);
            tftp_bin::bin_main().map_err(|e| e.to_string())
        }),
        Prog::Peer(peer) => Box::new(move || crate::peers::run(peer, p)),
    }
}

static mut SC: *const Scenario = std::ptr::null();
pub fn scen() -> &'static Scenario {
    unsafe { &*SC }
}

fn launch(p: usize) {
    let s = sim();
    if s.idle.is_empty() && scen().procs[p].host != crate::gen::SRV {
        for q in 0..s.procs.len() {
            if s.procs[q].state == PState::Running {
                s.idle.insert(q, (s.procs[q].vfds, s.live_tasks_of(q), s.real_fds_of(q)));
            }
        }
    }
    rawly(|| {
        if sim().procs[p].state != PState::Running {
            start_proc(p, main_fn(scen(), p));
        }
    })
}

pub fn schedule_action(at: u64, f: ActionFn) {
    let s = sim();
    s.actions.push(Some(f));
    let i = s.actions.len() - 1;
    s.at(at, Ev::Action(i));
}

pub fn execute(sc: Scenario, root: &str, trace: bool) -> Outcome {
    std::fs::create_dir_all(root).expect("run dir");
    std::env::set_current_dir(root).expect("chdir");
    let real_root = std::fs::canonicalize(root).unwrap().to_string_lossy().into_owned();
    make_files(&sc);
    unsafe { SC = Box::into_raw(Box::new(sc)) };
    let sc = scen();
    let mut s = Sim::new(sc.seed);
    s.root = real_root;
    s.net = sc.net.clone();
    s.sched = sc.sched.clone();
    s.io = sc.io.clone();
    s.max_steps = sc.max_steps;
    s.end_at = Sim::t0() + sc.end_us * US;
    s.fd_fail_after = sc.sock_limit;
    if let Some(e) = &sc.explicit {
        s.explicit = Some(e.iter().map(|(k, a, b)| ((*k, *a), *b)).collect());
    }
    if trace {
        s.trace = Some(vec![]);
    }
    install(s);
    let s = sim();
    for p in &sc.procs {
        add_proc(p.host, &p.name);
    }
    if let Some(m) = &sc.mitm {
        s.mitm = Some(crate::mitm::make(m));
    }
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(if sc.log_trace { log::LevelFilter::Trace } else { log::LevelFilter::Debug });
    std::panic::set_hook(Box::new(|info| {
        if !in_sim() {
            eprintln!("harness panic: {info}");
            return;
        }
        let _held = crate::heap::Hold::new();
        let s = sim();
        let t = s.cur;
        let p = s.tasks[t].proc;
        let main = s.procs[p].main_task == t;
        let msg = format!("{info}").replace('\n', " ");
        s.tr(|_| format!("PANIC {msg}"));
        s.panics.push(PanicRec { proc: p, main, msg });
    }));
    s.on_exit = Some(Box::new(on_exit));
    for (i, p) in sc.procs.iter().enumerate() {
        if let StartAt::At(us) = p.start {
            schedule_action(Sim::t0() + us * US, Box::new(move |_| launch(i)));
        }
    }
    for t in &sc.timeline {
        let act = t.act.clone();
        schedule_action(Sim::t0() + t.at_us * US, Box::new(move |s| do_act(s, &act)));
    }
    run();
    let s = sim();
    let mut out = Outcome::default();
    oracle::at_end(sc, &mut out);
    out.violations.splice(0..0, s.violations.iter().cloned());
    out.hash = s.hash;
    out.ileave = s.ileave;
    out.switches = s.switches;
    out.steps = s.steps;
    out.sim_us = s.t() / US;
    out.why = s.why_done.into();
    out.counts = s.counts.iter().map(|(k, v)| (format!("{k:?}"), *v)).collect();
    out.fired = s.fired.clone();
    out.packets = s.pkt_id;
    for (i, p) in s.procs.iter().enumerate() {
        out.ends.push(format!("{} {:?} at {:.3}s", p.name, p.state, (p.ended.saturating_sub(Sim::t0())) as f64 / 1e9));
        if sc.procs[i].fg && p.state == PState::Exited(Ok(())) {
            out.oks += 1;
        }
    }
    out.panics = s.panics.iter().map(|p| format!("{}: {}", s.procs[p.proc].name, p.msg)).collect();
    if let Some(t) = &s.trace {
        out.trace = t.clone();
    }
    out
}

fn do_act(s: &mut Sim, a: &Act) {
    match a {
        Act::Kill(p) => {
            if s.procs[*p].state == PState::Running {
                s.count(K::Kill);
                s.last_fault = s.last_fault.max(s.now);
                s.kill_proc(*p);
                on_exit(*p);
            }
        }
        Act::Start(p) => {
            s.count(K::Restart);
            launch(*p)
        }
        Act::Stall(p, us) => {
            s.count(K::Stall);
            let until = s.now + us * US;
            s.last_fault = s.last_fault.max(until);
            s.procs[*p].stalled_until = until;
            s.at(until, Ev::Unstall(*p));
        }
        Act::Wall(p, us) => {
            s.count(K::ClockStep);
            s.procs[*p].wall_off += us * 1000;
        }
        Act::Cut(a, b) => {
            s.partitions.push((*a, *b));
        }
        Act::Heal(a, b) => {
            s.last_fault = s.last_fault.max(s.now);
            s.partitions.retain(|x| *x != (*a, *b));
        }
        Act::Sample(p) => {
            let (mut live, peak) = (crate::heap::live(*p), crate::heap::peak(*p));
            // the stacks of threads that ended and were neither joined nor let go
            live += 16_384 * s.tasks.iter().filter(|t| t.proc == *p && !t.freed && t.st == St::Done).count() as i64;
            s.heaps.push((*p, live, peak));
            crate::heap::mark(*p);
            s.tr(|_| format!("heap {p} {live} {peak}"));
        }
        Act::HealAll => {
            s.last_fault = s.last_fault.max(s.now);
            s.partitions.clear();
        }
    }
    s.tr(|_| format!("ACT {a:?}"));
}

pub fn on_exit(p: usize) {
    let sc = scen();
    oracle::at_exit(sc, p);
    for (i, q) in sc.procs.iter().enumerate() {
        if let StartAt::After(w, us) = q.start {
            if w == p {
                let at = sim().now + us * US;
                schedule_action(at, Box::new(move |_| launch(i)));
            }
        }
    }
    // over when every foreground process has ended
    let s = sim();
    let open = sc.procs.iter().enumerate().any(|(i, q)| {
        q.fg && match s.procs[i].state {
            PState::NotStarted => !matches!(q.start, StartAt::Never) || sc.timeline.iter().any(|t| matches!(t.act, Act::Start(x) if x == i)),
            PState::Running => true,
            _ => false,
        }
    });
    let later = sc.timeline.iter().map(|t| Sim::t0() + t.at_us * US).max().unwrap_or(0);
    if !open {
        let e = (s.now + sc.grace_us * US).max(later + if later > s.now { sc.grace_us * US } else { 0 });
        s.end_at = s.end_at.min(e);
    }
}

pub fn chmod_open(p: &str) {
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o1777));
}
