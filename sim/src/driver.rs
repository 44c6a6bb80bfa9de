//! Coordinator: forks one child per run, collects outcomes, minimises failures.
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

use crate::kern::{hash3, sim, sim_active};
use crate::run::{self, Outcome};
use crate::scen::{Act, Scenario};

fn opt<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}

fn reexec(args: &[String]) {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new(exe);
    c.args(&args[1..]);
    for _ in 0..96 {
        c.arg("_");
    }
    let e = c.exec();
    panic!("exec {e}");
}

pub fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect()
    }
}

pub struct Base {
    pub dir: String,
}
impl Base {
    pub fn new() -> Base {
        let root = ["/dev/shm", "/tmp"]
            .iter()
            .find(|d| {
                let p = format!("{d}/.vsim-probe-{}", std::process::id());
                let ok = std::fs::create_dir(&p).is_ok();
                let _ = std::fs::remove_dir(&p);
                ok
            })
            .expect("no scratch space");
        let dir = format!("{root}/vsim-{:010}", std::process::id());
        std::fs::create_dir_all(&dir).expect("scratch");
        run::chmod_open(&dir);
        Base { dir }
    }
}
impl Drop for Base {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

extern "C" fn on_prof(_: i32) {
    static mut LAST: u64 = u64::MAX;
    unsafe {
        if sim_active() {
            let n = sim().steps;
            if n == LAST {
                libc::_exit(99);
            }
            LAST = n;
        }
    }
}

pub struct Child {
    pub pid: i32,
    pub fd: i32,
    pub dir: String,
    pub buf: Vec<u8>,
    pub started: Instant,
}

/// fork a child that executes the scenario
pub fn spawn(sc: &Scenario, base: &Base, n: u64, cpu: Option<usize>, trace: bool) -> Child {
    let mut fds = [0i32; 2];
    unsafe { assert_eq!(libc::pipe(fds.as_mut_ptr()), 0) };
    let dir = format!("{}/r{:010}", base.dir, n);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if let Some(c) = cpu {
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(c, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            // keep whatever the code under test does away from real files
            if libc::geteuid() == 0 {
                libc::setgroups(0, std::ptr::null());
                libc::setresgid(65534, 65534, 65534);
                libc::setresuid(65534, 65534, 65534);
            }
            libc::umask(0o022);
            libc::signal(libc::SIGPROF, on_prof as *const () as usize);
            let it = libc::timeval { tv_sec: 10, tv_usec: 0 };
            let itv = libc::itimerval { it_interval: it, it_value: it };
            libc::syscall(libc::SYS_setitimer, libc::ITIMER_PROF, &itv as *const _, 0usize);
        }
        let out = run::execute(sc.clone(), &dir, trace);
        let js = serde_json::to_vec(&out).unwrap();
        let mut o = 0;
        while o < js.len() {
            let r = unsafe { libc::write(fds[1], js[o..].as_ptr() as *const _, js.len() - o) };
            if r <= 0 {
                break;
            }
            o += r as usize;
        }
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&dir);
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    Child { pid, fd: fds[0], dir, buf: vec![], started: Instant::now() }
}

pub fn reap(c: Child) -> Outcome {
    let mut st = 0;
    unsafe {
        libc::close(c.fd);
        libc::waitpid(c.pid, &mut st, 0);
    }
    let mut o: Outcome = serde_json::from_slice(&c.buf).unwrap_or_default();
    let bad = if libc::WIFSIGNALED(st) {
        Some(format!("the process was killed by signal {}", libc::WTERMSIG(st)))
    } else if libc::WEXITSTATUS(st) == 99 {
        Some("endless loop: no call for 10 s of CPU time".to_string())
    } else if libc::WEXITSTATUS(st) != 0 {
        Some(format!("HARNESS exit status {}", libc::WEXITSTATUS(st)))
    } else if c.buf.is_empty() {
        Some("HARNESS no output".to_string())
    } else {
        None
    };
    if let Some(b) = bad {
        let _ = std::fs::remove_dir_all(&c.dir);
        o.violations.insert(0, b.clone());
        o.crashed = Some(b);
    }
    o
}

pub fn run_one(sc: &Scenario, base: &Base, n: u64, trace: bool) -> Outcome {
    let mut c = spawn(sc, base, n, None, trace);
    let mut f = unsafe { std::fs::File::from_raw_fd(libc::dup(c.fd)) };
    let mut b = vec![];
    let _ = f.read_to_end(&mut b);
    c.buf = b;
    reap(c)
}

fn norm(m: &str) -> String {
    m.chars().filter(|c| !c.is_ascii_digit()).take(60).collect()
}

pub fn minimise(sc: &Scenario, first: &Outcome, base: &Base, budget: Duration) -> (Scenario, Outcome, u32) {
    let t0 = Instant::now();
    let mut n = 1_000_000u64;
    let mut tries = 0u32;
    let key = norm(&first.violations[0]);
    let mut test = |s: &Scenario| -> Option<Outcome> {
        n += 1;
        tries += 1;
        let o = run_one(s, base, n, false);
        if o.violations.iter().any(|v| norm(v) == key) {
            Some(o)
        } else {
            None
        }
    };
    let mut best = sc.clone();
    let mut best_out = first.clone();
    if first.crashed.is_none() {
        let mut s = sc.clone();
        s.explicit = Some(first.fired.clone());
        if let Some(o) = test(&s) {
            best = s;
            best_out = o;
        }
    }
    if let Some(list) = best.explicit.clone() {
        // ddmin
        let mut cur = list;
        let mut k = 2usize;
        // quick win: no faults at all
        let mut s = best.clone();
        s.explicit = Some(vec![]);
        if let Some(o) = test(&s) {
            cur = vec![];
            best = s;
            best_out = o;
        }
        while cur.len() >= 1 && t0.elapsed() < budget {
            let chunk = cur.len().div_ceil(k);
            let mut reduced = false;
            let mut i = 0;
            while i < cur.len() && t0.elapsed() < budget {
                let mut c2 = cur.clone();
                c2.drain(i..(i + chunk).min(cur.len()));
                let mut s = best.clone();
                s.explicit = Some(c2.clone());
                if let Some(o) = test(&s) {
                    cur = c2;
                    best = s;
                    best_out = o;
                    reduced = true;
                } else {
                    i += chunk;
                }
            }
            if !reduced {
                if chunk <= 1 {
                    break;
                }
                k = (k * 2).min(cur.len().max(1));
            } else {
                k = 2.max(k / 2);
            }
        }
    }
    // scenario shrinking
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        let mut cands: Vec<Scenario> = vec![];
        for i in 0..best.timeline.len() {
            // the end of a fault stays
            if matches!(best.timeline[i].act, Act::Start(_) | Act::Heal(..) | Act::HealAll) {
                continue;
            }
            let mut s = best.clone();
            s.timeline.remove(i);
            cands.push(s);
        }
        if best.net.jitter_us != 0 {
            let mut s = best.clone();
            s.net.jitter_us = 0;
            cands.push(s);
        }
        for i in 0..best.files.len() {
            if let crate::scen::FileKind::Data { seed, size } = best.files[i].kind {
                for d in [size / 2, size.saturating_sub(size / 4)] {
                    if d != size && d > 0 {
                        let mut s = best.clone();
                        s.files[i].kind = crate::scen::FileKind::Data { seed, size: d };
                        cands.push(s);
                    }
                }
            }
        }
        for s in cands {
            if t0.elapsed() > budget {
                break;
            }
            if let Some(o) = test(&s) {
                best = s;
                best_out = o;
                progress = true;
                break;
            }
        }
    }
    (best, best_out, tries)
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub scenario: Scenario,
    pub violation: Vec<String>,
    pub hash: u64,
    pub original_seed: u64,
    pub faults: usize,
    pub repeatable: bool,
    pub minimiser_runs: u32,
}

#[derive(Default, Serialize)]
pub struct Found {
    pub sig: String,
    pub msg: String,
    pub replay: String,
    pub count: u64,
    pub repeatable: bool,
}

#[derive(Default, Serialize)]
pub struct Summary {
    pub prop: String,
    pub cfg: String,
    pub seed: u64,
    pub runs: u64,
    pub wall_s: f64,
    pub sim_s: f64,
    pub steps: u64,
    pub packets: u64,
    pub switches: u64,
    pub distinct_hash: u64,
    pub distinct_ileave: u64,
    pub nontrivial: u64,
    pub transfers_ok: u64,
    pub faults: BTreeMap<String, u64>,
    pub whys: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub rerun_checked: u64,
    pub nondeterministic: u64,
    /// runs whose only violations are listed known findings
    pub known: u64,
    pub harness_errors: Vec<String>,
    /// crashes of a run that did not happen again in three repetitions
    pub unrepeated: Vec<String>,
    pub found: Vec<Found>,
    pub samples: Vec<String>,
}

pub fn main(args: Vec<String>) -> i32 {
    if crate::shim::argc() < 90 {
        reexec(&args);
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => cmd_run(&args),
        Some("replay") => cmd_replay(&args),
        Some("show") => cmd_show(&args),
        _ => {
            eprintln!("vsim run PROP CFG --seed N --count N --secs S --out FILE --dir DIR | replay FILE [--trace] | show PROP CFG SEED INDEX [--trace]");
            2
        }
    }
}

fn seed_of(base: u64, prop: &str, cfg: &str, i: u64) -> u64 {
    hash3(base, crate::util::fnv(prop.as_bytes()) ^ crate::util::fnv(cfg.as_bytes()).rotate_left(9), i)
}

fn cmd_show(a: &[String]) -> i32 {
    let (prop, cfg) = (&a[2], &a[3]);
    let base: u64 = a[4].parse().unwrap();
    let i: u64 = a[5].parse().unwrap();
    let sc = crate::gen::make(prop, cfg, seed_of(base, prop, cfg, i), i, a.iter().any(|x| x == "--deep"));
    if a.iter().any(|x| x == "--scenario") {
        println!("{}", serde_json::to_string_pretty(&sc).unwrap());
        return 0;
    }
    show(&sc, a.iter().any(|x| x == "--trace"), &[], 0)
}

fn show(sc: &Scenario, trace: bool, want: &[String], hash: u64) -> i32 {
    let base = Base::new();
    let o = run_one(sc, &base, 1, trace);
    for l in &o.trace {
        println!("{l}");
    }
    println!("note {}", sc.note);
    println!("ends {:?}", o.ends);
    println!("why {} sim {:.3}s steps {} packets {} switches {} hash {:016x}", o.why, o.sim_us as f64 / 1e6, o.steps, o.packets, o.switches, o.hash);
    println!("faults {:?}", o.counts);
    for p in &o.panics {
        println!("panic {p}");
    }
    for v in &o.violations {
        println!("violation {v}");
    }
    if hash != 0 {
        let same = o.hash == hash && o.violations == want;
        println!("replay {}", if same { "identical" } else { "DIFFERS" });
    }
    i32::from(!o.violations.is_empty())
}

fn cmd_replay(a: &[String]) -> i32 {
    let r: Replay = match std::fs::read(&a[2]).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    show(&r.scenario, a.iter().any(|x| x == "--trace"), &r.violation, r.hash)
}

fn cmd_run(a: &[String]) -> i32 {
    let (prop, cfg) = (a[2].clone(), a[3].clone());
    let seed: u64 = opt(a, "--seed").unwrap_or("1").parse().unwrap();
    let from: u64 = opt(a, "--from").unwrap_or("0").parse().unwrap();
    let count: u64 = opt(a, "--count").unwrap_or("100").parse().unwrap();
    let secs: f64 = opt(a, "--secs").unwrap_or("1000000").parse().unwrap();
    let jobs: usize = opt(a, "--jobs").map(|s| s.parse().unwrap()).unwrap_or(cpus().len().min(8));
    let max_found: usize = opt(a, "--max-found").unwrap_or("3").parse().unwrap();
    let deep = a.iter().any(|x| x == "--deep");
    let nomin = a.iter().any(|x| x == "--no-min");
    let dir = opt(a, "--dir").unwrap_or("/tmp/vsim-replays").to_string();
    let cp = cpus();
    let base = Base::new();
    let t0 = Instant::now();
    let known: Vec<String> = a.windows(2).filter(|w| w[0] == "--known").map(|w| w[1].clone()).collect();
    let mut sum = Summary { prop: prop.clone(), cfg: cfg.clone(), seed, ..Default::default() };
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut ileaves: HashSet<u64> = HashSet::new();
    let mut nontriv: HashSet<u64> = HashSet::new();
    struct Slot {
        c: Child,
        sc: Scenario,
        i: u64,
        rerun_of: Option<u64>,
    }
    let mut slots: Vec<Option<Slot>> = (0..jobs).map(|_| None).collect();
    let mut next = from;
    let mut redo: Vec<(Scenario, u64, u64)> = vec![];
    let mut bad: Vec<(Scenario, Outcome)> = vec![];
    let mut sigs: BTreeMap<String, usize> = BTreeMap::new();
    loop {
        let stop = t0.elapsed().as_secs_f64() > secs || next >= from + count || bad.len() >= 40;
        for (j, s) in slots.iter_mut().enumerate() {
            if s.is_none() {
                let cpu = cp.get(j % cp.len()).copied();
                if let Some((sc, i, h)) = redo.pop() {
                    let c = spawn(&sc, &base, next + 10_000_000 + i, cpu, false);
                    *s = Some(Slot { c, sc, i, rerun_of: Some(h) });
                } else if !stop {
                    let i = next;
                    next += 1;
                    let sc = crate::gen::make(&prop, &cfg, seed_of(seed, &prop, &cfg, i), i, deep);
                    let c = spawn(&sc, &base, i, cpu, false);
                    *s = Some(Slot { c, sc, i, rerun_of: None });
                }
            }
        }
        if slots.iter().all(|s| s.is_none()) {
            break;
        }
        let mut pf: Vec<libc::pollfd> = slots
            .iter()
            .map(|s| libc::pollfd { fd: s.as_ref().map(|s| s.c.fd).unwrap_or(-1), events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000) };
        for (j, p) in pf.iter().enumerate() {
            let Some(sl) = slots[j].as_mut() else { continue };
            if sl.c.started.elapsed() > Duration::from_secs(240) {
                unsafe { libc::kill(sl.c.pid, libc::SIGKILL) };
            }
            if p.revents == 0 {
                continue;
            }
            let mut tmp = [0u8; 65536];
            let n = unsafe { libc::read(sl.c.fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
            if n > 0 {
                sl.c.buf.extend_from_slice(&tmp[..n as usize]);
                continue;
            }
            let Slot { c, sc, i, rerun_of } = slots[j].take().unwrap();
            let slow = c.started.elapsed() > Duration::from_secs(240);
            let mut o = reap(c);
            if let Some(h) = rerun_of {
                sum.rerun_checked += 1;
                if o.hash != h {
                    sum.nondeterministic += 1;
                    sum.harness_errors.push(format!("run {i} not repeatable: {:016x} {:016x}", h, o.hash));
                }
                continue;
            }
            sum.runs += 1;
            if slow {
                sum.harness_errors.push(format!("run {i} took more than 240 s"));
                continue;
            }
            if o.crashed.as_deref().is_some_and(|c| c.starts_with("HARNESS")) {
                sum.harness_errors.push(format!("run {i}: {}", o.crashed.unwrap()));
                continue;
            }
            sum.sim_s += o.sim_us as f64 / 1e6;
            sum.steps += o.steps;
            sum.packets += o.packets;
            sum.switches += o.switches;
            sum.transfers_ok += o.oks as u64;
            hashes.insert(o.hash);
            ileaves.insert(o.ileave);
            for (k, v) in &o.counts {
                *sum.faults.entry(k.clone()).or_insert(0) += v;
            }
            *sum.whys.entry(o.why.clone()).or_insert(0) += 1;
            let kind = sc.note.split(' ').next().unwrap_or("").to_string();
            *sum.notes.entry(kind).or_insert(0) += 1;
            if crate::gen::nontrivial(&sc, &o) {
                nontriv.insert(o.hash);
            }
            if sum.samples.len() < 5 && i % 7 == 3 {
                sum.samples.push(format!("run {i} seed {:x}: {} -> {} faults {:?}", sc.seed, sc.note, o.ends.join("; "), o.counts));
            }
            if i % 40 == 5 && o.crashed.is_none() && rerun_of.is_none() {
                redo.push((sc.clone(), i, o.hash));
            }
            let before = o.violations.len();
            o.violations.retain(|v| !known.iter().any(|k| v.contains(k)));
            if o.violations.is_empty() && before > 0 {
                sum.known += 1;
            }
            if !o.violations.is_empty() {
                let k = norm(&o.violations[0]);
                if let Some(x) = sigs.get(&k) {
                    sum.found[*x].count += 1;
                    continue;
                }
                if sigs.len() < max_found {
                    sigs.insert(k.clone(), sum.found.len());
                    sum.found.push(Found { sig: k, msg: o.violations[0].clone(), replay: String::new(), count: 1, repeatable: false });
                    bad.push((sc, o));
                }
            }
        }
    }
    sum.wall_s = t0.elapsed().as_secs_f64();
    sum.distinct_hash = hashes.len() as u64;
    sum.distinct_ileave = ileaves.len() as u64;
    sum.nontrivial = nontriv.len() as u64;
    let _ = std::fs::create_dir_all(&dir);
    for (x, (sc, o)) in bad.into_iter().enumerate() {
        // a run is a function of its scenario: a crash that never returns came from outside (memory, a signal)
        if o.crashed.is_some() && (0..3).all(|k| run_one(&sc, &base, 2_000_010 + k, false).crashed.is_none()) {
            sum.unrepeated.push(format!("{} (seed {:x})", o.violations[0], sc.seed));
            continue;
        }
        let (m, mo, tries) = if nomin { (sc.clone(), o.clone(), 0) } else { minimise(&sc, &o, &base, Duration::from_secs(25)) };
        let again = run_one(&m, &base, 2_000_001, false);
        let rep = if mo.crashed.is_some() { again.crashed == mo.crashed } else { again.hash == mo.hash && again.violations == mo.violations };
        if !rep {
            sum.harness_errors.push(format!("violation not repeatable: {}", mo.violations[0]));
        }
        let path = format!("{dir}/{prop}-{cfg}-{:016x}.json", sc.seed);
        let r = Replay {
            faults: m.explicit.as_ref().map(|e| e.len()).unwrap_or(0),
            original_seed: sc.seed,
            violation: mo.violations.clone(),
            hash: mo.hash,
            repeatable: rep,
            minimiser_runs: tries,
            scenario: m,
        };
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("replay file");
        sum.found[x].replay = path;
        sum.found[x].msg = mo.violations[0].clone();
        sum.found[x].repeatable = rep;
    }
    sum.found.retain(|f| !f.replay.is_empty());
    let js = serde_json::to_string_pretty(&sum).unwrap();
    match opt(a, "--out") {
        Some(f) => std::fs::write(f, js).unwrap(),
        None => println!("{js}"),
    }
    i32::from(!sum.found.is_empty())
}
