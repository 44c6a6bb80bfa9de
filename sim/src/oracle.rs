//! Checks during the run (at process exits) and over the recorded history.
use crate::kern::*;
use crate::run::Outcome;
use crate::scen::*;

pub fn violate(m: String) {
    let s = sim();
    s.tr(|_| format!("VIOLATION {m}"));
    if s.violations.len() < 20 {
        s.violations.push(m);
    }
}

pub fn read(path: &str) -> Option<Vec<u8>> {
    rawly(|| std::fs::read(path).ok())
}

pub fn diff(want: &[u8], got: &[u8]) -> String {
    let n = want.iter().zip(got.iter()).take_while(|(a, b)| a == b).count();
    if want.len() == got.len() {
        let bad = want.iter().zip(got.iter()).filter(|(a, b)| a != b).count();
        format!("{} of {} bytes differ, first at {}", bad, want.len(), n)
    } else {
        format!("length {} instead of {}, equal up to {}", got.len(), want.len(), n)
    }
}

pub fn same(want: &[u8], path: &str) -> Result<(), String> {
    match read(path) {
        None => Err(format!("{path} does not exist")),
        Some(g) if g == want => Ok(()),
        Some(g) => Err(format!("{path}: {}", diff(want, &g))),
    }
}

pub fn ok(p: usize) -> bool {
    sim().procs[p].state == PState::Exited(Ok(()))
}
fn failed(p: usize) -> bool {
    match &sim().procs[p].state {
        PState::Exited(Err(_)) | PState::Panicked(_) => true,
        PState::ExitCode(c) => *c != 0,
        _ => false,
    }
}
fn ended(p: usize) -> bool {
    !matches!(sim().procs[p].state, PState::Running | PState::NotStarted)
}

pub fn at_exit(sc: &Scenario, p: usize) {
    let name = &sc.procs[p].name;
    for e in &sc.expects {
        match e {
            Expect::OkExact { p: q, src, dst, .. } if *q == p && ok(p) => {
                let want = sc.bytes_of(src).unwrap_or_default();
                if let Err(m) = same(&want, dst) {
                    violate(format!("{name} reported success but {m}"));
                }
            }
            Expect::OkCount { p: q, src } if *q == p && ok(p) => {
                let want = sc.bytes_of(src).map(|b| b.len()).unwrap_or(0);
                let c = reported(p);
                if let Some(c) = c {
                    if c != want as u64 {
                        violate(format!("{name} reported {c} bytes of {want}"));
                    }
                }
            }
            _ => {}
        }
    }
}

/// byte count the client logged
fn reported(p: usize) -> Option<u64> {
    let s = sim();
    for l in s.logs.iter().rev() {
        if l.proc == p && l.t >= s.procs[p].started - Sim::t0() {
            for k in ["Client total sent ", "Client total received "] {
                if let Some(r) = l.msg.strip_prefix(k) {
                    return r.trim().parse().ok();
                }
            }
        }
    }
    None
}

pub fn at_end(sc: &Scenario, _out: &mut Outcome) {
    let s = sim();
    // cut off by the step limit: nothing can be said about what was still to come
    let cut = s.why_done == "steps";
    for e in &sc.expects {
        if cut && matches!(e, Expect::MustOk(_) | Expect::MustFail(_) | Expect::OkBy { .. } | Expect::EndsWithin { .. } | Expect::Released { .. } | Expect::SuccessCount { .. } | Expect::Quiet { .. }) {
            continue;
        }
        match e {
            Expect::OkExact { p, src, dst, at_end: true } if ok(*p) => {
                let want = sc.bytes_of(src).unwrap_or_default();
                if let Err(m) = same(&want, dst) {
                    violate(format!("{} reported success but at the end {m}", sc.procs[*p].name));
                }
            }
            Expect::MustOk(p) => {
                if !ok(*p) {
                    violate(format!("{} should have succeeded: {:?}", sc.procs[*p].name, s.procs[*p].state));
                }
            }
            Expect::MustFail(p) => {
                if !failed(*p) {
                    violate(format!("{} should have failed: {:?}", sc.procs[*p].name, s.procs[*p].state));
                }
            }
            Expect::EndsWithin { p, us } => {
                let q = &s.procs[*p];
                if q.state == PState::NotStarted {
                    continue;
                }
                if !ended(*p) {
                    if s.now - q.started > us * US {
                        violate(format!("{} still runs {:.3}s after its start, limit {:.3}s", q.name, (s.now - q.started) as f64 / 1e9, *us as f64 / 1e6));
                    }
                } else if q.ended - q.started > us * US {
                    violate(format!("{} ended {:.3}s after its start, limit {:.3}s: {:?}", q.name, (q.ended - q.started) as f64 / 1e9, *us as f64 / 1e6, q.state));
                }
            }
            Expect::Alive(p) => {
                if s.procs[*p].state != PState::Running {
                    violate(format!("{} is not running any more: {:?}", sc.procs[*p].name, s.procs[*p].state));
                }
            }
            Expect::OkBy { p, us, after_fault_us, excuse } => {
                let q = &s.procs[*p];
                let excused = excuse.as_ref().is_some_and(|(src, dst)| same(&sc.bytes_of(src).unwrap_or_default(), dst).is_ok());
                let limit = (Sim::t0() + us * US).max(s.last_fault + after_fault_us * US);
                if !ok(*p) {
                    if ended(*p) && excused {
                        continue;
                    }
                    if ended(*p) || s.now > limit {
                        violate(format!("{} should have succeeded after the faults stopped at {:.3}s: {:?} at {:.3}s", q.name, (s.last_fault.max(Sim::t0()) - Sim::t0()) as f64 / 1e9, q.state, (q.ended.max(Sim::t0()) - Sim::t0()) as f64 / 1e9));
                    }
                } else if q.ended > limit {
                    violate(format!("{} succeeded only at {:.3}s, faults stopped at {:.3}s, limit {:.3}s", q.name, (q.ended - Sim::t0()) as f64 / 1e9, (s.last_fault.max(Sim::t0()) - Sim::t0()) as f64 / 1e9, (limit - Sim::t0()) as f64 / 1e9));
                }
            }
            Expect::Released { p } => {
                if s.procs[*p].state != PState::Running {
                    continue;
                }
                let base = s.idle.get(p).copied().unwrap_or((0, 0, 0));
                let now = (s.procs[*p].vfds, s.live_tasks_of(*p), s.real_fds_of(*p));
                if now.0 > base.0 || now.1 > base.1 || now.2 > base.2 {
                    violate(format!("{} holds {} sockets and pollers, {} threads, {} files, idle it held {:?}", sc.procs[*p].name, now.0, now.1, now.2, base));
                }
            }
            Expect::Quiet { us } => {
                if let Some(w) = s.wire.iter().rev().find(|w| w.k == WK::Sent) {
                    if s.t() < w.t + us * US {
                        violate(format!("still sending at the end: {} to {} {}", w.src.s(), w.dst.s(), crate::util::pkt(&w.data)));
                    }
                }
            }
            Expect::MaxSessions { p, n } => {
                if s.procs[*p].max_conns as usize > *n {
                    violate(format!("{} served {} clients at once, limit {n}", sc.procs[*p].name, s.procs[*p].max_conns));
                }
            }
            Expect::NoPanic(p) => {
                if let Some(r) = s.panics.iter().find(|r| r.proc == *p) {
                    violate(format!("{} panicked: {}", sc.procs[*p].name, r.msg));
                }
            }
            Expect::Unchanged(path) => {
                let want = sc.bytes_of(path).unwrap_or_default();
                if let Err(m) = same(&want, path) {
                    violate(format!("changed: {m}"));
                }
            }
            Expect::FileIs { path, src } => {
                let want = sc.bytes_of(src).unwrap_or_default();
                if let Err(m) = same(&want, path) {
                    violate(m);
                }
            }
            Expect::SuccessCount { ps, min, max } => {
                let n = ps.iter().filter(|p| ok(**p)).count();
                if n < *min || n > *max {
                    violate(format!("{n} of {} clients succeeded, not {min} to {max}: {:?}", ps.len(), ps.iter().map(|p| &s.procs[*p].state).collect::<Vec<_>>()));
                }
            }
            Expect::Absent(path) => {
                if std::fs::symlink_metadata(path).is_ok() {
                    violate(format!("{path} exists"));
                }
            }
            e => crate::oracle2::at_end(sc, e),
        }
    }
}
