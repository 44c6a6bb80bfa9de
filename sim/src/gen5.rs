//! Generators for resources: memory.
use crate::gen::*;
use crate::gen2::{MSEC, SEC};
use crate::gen4::sv;
use crate::kern::IoNth;
use crate::peers::{Fuzz, Peer, RfcClient, RfcServer};
use crate::scen::*;

// ---------------------------------------------------------------- C27
pub fn memory(c: &mut Cx) {
    c.calm();
    c.preempt();
    match c.r.below(8) {
        0..=2 => one_transfer(c),
        3 => crowd(c),
        4 if c.mt() => sync_rounds(c),
        _ => rounds(c),
    }
}

/// what one transfer needs does not depend on the length of the file
fn one_transfer(c: &mut Cx) {
    let mut so = c.srv();
    so.overwrite = c.r.chance(1, 2);
    let pc = Cx::wants_port_change(&so);
    so.request_timeout = Some(15_000);
    let s = c.server(&so);
    let mut o = c.cli();
    o.port_change = pc;
    o.window = Some(*c.r.pick(&[1u64, 1, 2, 4, 8, 16]));
    o.retry = None;
    let up = c.r.chance(1, 2);
    c.note(if up { "one upload" } else { "one download" });
    let max = if c.deep { 3_000_000 } else { 700_000 };
    let size = c.r.range(max / 3, max);
    match c.r.below(4) {
        0 => {
            c.sc.net.drop_ppm = *c.r.pick(&[2_000, 20_000]);
            c.note("losses");
        }
        1 => {
            c.sc.net.dup_ppm = *c.r.pick(&[20_000, 300_000]);
            c.note("duplicates");
        }
        2 => {
            c.sc.net.delay_ppm = 20_000;
            c.sc.net.delay_max_us = 20_000;
            c.note("delays");
        }
        _ => {}
    }
    if c.enc() && c.r.chance(1, 4) {
        o.file_key = Some(key(7).private);
        c.note("file key");
    }
    c.desc(&o.clone(), size);
    c.sc.timeline.push(Timed { at_us: 10 * MSEC, act: Act::Sample(s) });
    let p = if o.file_key.is_none() {
        c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(20 * MSEC))
    } else {
        // stored, then received
        let fseed = c.r.next();
        c.sc.data("c2/in", fseed, size);
        let a = c.send("client", 2, &o, "c2/in", "f.bin", StartAt::At(20 * MSEC));
        let b = c.receive("back", 2, &o, "f.bin", "c2/out", StartAt::After(a, SEC));
        c.expect(Expect::OkExact { p: b, src: "c2/in".into(), dst: "c2/out".into(), at_end: true });
        let ws = o.window.unwrap() * o.block.unwrap();
        let m = 200_000 + per_session(c, ws);
        c.expect(Expect::HeapPeak { p: b, max: m });
        a
    };
    let ws = o.window.unwrap() * o.block.unwrap();
    c.expect(Expect::HeapPeak { p: s, max: per_session(c, ws) });
    c.expect(Expect::HeapPeak { p, max: 200_000 + per_session(c, ws) });
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.sc.max_steps = 8_000_000;
    c.sc.grace_us = 2 * SEC;
    c.sc.end_us = 300 * SEC;
}

fn per_session(c: &Cx, window_bytes: u64) -> i64 {
    let _ = c;
    60_000 + 2 * window_bytes as i64
}

/// the connection limit bounds the memory
fn crowd(c: &mut Cx) {
    let mut so = c.srv();
    so.overwrite = false;
    let pc = Cx::wants_port_change(&so);
    so.request_timeout = Some(3_000);
    let limit = c.r.range(2, 6);
    so.extra.push(format!("--max-connections={limit}"));
    let s = c.server(&so);
    c.note(format!("crowd limit={limit}"));
    c.sc.timeline.push(Timed { at_us: 10 * MSEC, act: Act::Sample(s) });
    let mut most = 0;
    for i in 0..c.r.range(limit, 24) {
        let mut o = c.cli();
        o.port_change = pc;
        o.window = Some(*c.r.pick(&[1u64, 4, 8, 16]));
        o.retry = None;
        o.request_timeout = Some(3_000);
        most = most.max(o.window.unwrap() * o.block.unwrap());
        let size = c.r.below(200_000);
        let up = c.r.chance(1, 2);
        let at = StartAt::At(20 * MSEC + c.r.below(50 * MSEC));
        c.xfer(up, &format!("client{i}"), 2 + i as u32, &o, size, &format!("f{i}.bin"), at);
    }
    // a session that just ended may still be there
    let m = (limit as i64 + 2) * per_session(c, most) + 20_000;
    c.expect(Expect::HeapPeak { p: s, max: m });
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.sc.max_steps = 8_000_000;
    c.sc.end_us = 200 * SEC;
}

/// the same for what has been synchronised
fn sync_rounds(c: &mut Cx) {
    let mut so = c.srv();
    so.overwrite = false;
    let pc = Cx::wants_port_change(&so);
    so.request_timeout = Some(3_000);
    let s = c.server(&so);
    c.note("sync rounds");
    let mut o = c.cli();
    o.port_change = pc;
    o.prefer_seek = false;
    o.retry = None;
    o.request_timeout = Some(3_000);
    let mut v = sv(&["sync", "10.0.0.1:69", "c2/watch"]);
    if c.r.chance(1, 2) {
        v.extend(sv(&["--start-on-create", "--block-duration=20"]));
    }
    v.extend(c.cli_args(&o));
    c.sc.dir("c2/watch/sub");
    let y = c.sc.proc("sync", 2, Prog::Bin(v), StartAt::At(20_000), false);
    let per = c.r.range(1, 3);
    let round = 10 * SEC;
    let rounds = 5;
    let sub = if c.r.chance(1, 2) { "sub/" } else { "" };
    // a file that the server refuses
    let refused = c.r.chance(1, 3);
    for k in 0..rounds {
        let mut files = vec![];
        for i in 0..per {
            let src = format!("ref/{k}-{i}");
            let size = c.r.below(20_000);
            c.sc.data(&src, k * 10 + i, size);
            let name = format!("{sub}r{k}f{i}.bin");
            if i == 0 && refused {
                c.on_server(&name, 10);
            } else {
                c.expect(Expect::FileIs { path: format!("srv/{name}"), src: src.clone() });
            }
            files.push((format!("c2/watch/{name}"), src, vec![(size / 2, 30_000)]));
        }
        let w = crate::peers::Writer { files, gap_us: 1_000, close_us: 1_000 };
        c.sc.proc(&format!("writer{k}"), 2, Prog::Peer(Peer::Writer(w)), StartAt::At(SEC + k * round), true);
        for p in [s, y] {
            c.sc.timeline.push(Timed { at_us: (k + 1) * round, act: Act::Sample(p) });
        }
    }
    let at = rounds * round + 20 * SEC;
    for p in [s, y] {
        c.sc.timeline.push(Timed { at_us: at, act: Act::Sample(p) });
        c.expect(Expect::HeapFlat { p, slack: 600 });
        c.expect(Expect::NoPanic(p));
        c.expect(Expect::Alive(p));
    }
    c.sc.grace_us = 30 * SEC;
    c.sc.max_steps = 8_000_000;
    c.sc.end_us = at + SEC;
}

#[derive(Clone)]
enum Job {
    Good { up: bool, o: CliOpts, size: u64, at: u64 },
    /// no such file, or one that exists
    Refused { up: bool, o: CliOpts, at: u64 },
    Gone { up: bool, opts: Vec<(String, String)>, vanish: u64, hang: bool, abort: Option<u64>, size: u64, at: u64 },
    Junk { f: Fuzz, at: u64 },
    List { at: u64 },
    /// one after the other
    Series { up: bool, opts: Vec<(String, String)>, times: u32, size: u64, at: u64, abort: Option<u64> },
}

/// what has been served leaves nothing behind
fn rounds(c: &mut Cx) {
    let mut so = c.srv();
    so.overwrite = false;
    let pc = Cx::wants_port_change(&so);
    so.request_timeout = Some(2_000);
    so.extra.push("--directory-list=dir.txt".into());
    let s = c.server(&so);
    c.note("rounds");
    if c.r.chance(1, 3) {
        c.sc.net.drop_ppm = *c.r.pick(&[10_000, 50_000]);
        c.sc.net.dup_ppm = 20_000;
    }
    c.sc.dir("srv/sub");
    c.on_server("exists.bin", 100);
    let mut jobs = vec![];
    for _ in 0..c.r.range(2, 5) {
        let at = c.r.below(3 * SEC);
        jobs.push(match c.r.below(8) {
            0 | 1 => {
                let mut o = c.cli();
                o.port_change = pc;
                o.retry = None;
                let payload = c.payload(o.block.unwrap(), &o.level);
                Job::Good { up: c.r.chance(1, 2), size: c.size(payload, o.window.unwrap(), 20), o, at }
            }
            2 => {
                let mut o = c.cli();
                o.port_change = pc;
                o.retry = None;
                Job::Refused { up: c.r.chance(1, 2), o, at }
            }
            3 | 4 => Job::Gone {
                up: c.r.chance(1, 2),
                opts: c.rfc_opts(),
                vanish: c.r.below(6),
                hang: c.r.chance(1, 2),
                abort: c.r.chance(1, 3).then(|| c.r.below(5)),
                size: c.r.below(20_000),
                at,
            },
            5 | 6 => {
                let all = ["junk", "session", "crypt"];
                let kinds = vec![c.r.pick(&all).to_string()];
                let names = vec!["dir.txt".into(), "exists.bin".into()];
                Job::Junk { f: Fuzz { target: SRV, port: PORT, n: c.r.range(5, 25), gap_us: 3 * MSEC, seed: c.r.next(), watch: vec![2, 3, 4], kinds, names, server_key: Some(1) }, at }
            }
            _ => Job::List { at },
        });
    }
    jobs.push(Job::Series { up: c.r.chance(1, 2), opts: c.rfc_opts(), times: c.r.range(30, 50) as u32, size: c.r.below(3_000), at: c.r.below(SEC), abort: c.r.chance(1, 6).then(|| c.r.below(2)) });
    let round = 12 * SEC;
    let first = 100 * MSEC;
    let rounds = 5;
    for k in 0..rounds {
        // a long pause after the first
        let first = first + if k > 0 { 20 * SEC } else { 0 };
        for (i, j) in jobs.clone().into_iter().enumerate() {
            let host = 2 + i as u32;
            let t = |at: u64| StartAt::At(first + k * round + at);
            let n = format!("r{k}j{i}");
            match j {
                Job::Good { up, o, size, at } => {
                    c.xfer(up, &n, host, &o, size, &format!("{n}.bin"), t(at));
                }
                Job::Refused { up, o, at } => {
                    if up {
                        c.up(&n, host, &o, 10, "exists.bin", t(at), false);
                        // refused: the file keeps what it had
                        c.sc.expects.truncate(c.sc.expects.len() - 2);
                    } else {
                        c.receive(&n, host, &o, "none.bin", &format!("c{host}/{n}.out"), t(at));
                        c.sc.dir(&format!("c{host}"));
                    }
                }
                Job::Gone { up, opts, vanish, hang, abort, size, at } => {
                    let mut r = RfcClient { up, opts, vanish: Some(vanish), hang_us: if hang { 20 * SEC } else { 0 }, abort, ..Default::default() };
                    r.remote = format!("{n}.bin");
                    if up {
                        r.file = format!("ref/{n}");
                        c.sc.data(&r.file.clone(), k, size);
                    } else {
                        r.file = format!("c{host}/{n}.out");
                        c.on_server(&r.remote.clone(), size);
                    }
                    c.rfc(&n, host, r, t(at), false);
                }
                Job::Junk { mut f, at } => {
                    f.seed ^= k;
                    c.sc.proc(&n, host, Prog::Peer(Peer::Fuzz(f)), t(at), false);
                }
                Job::Series { up, opts, times, size, at, abort } => {
                    let mut r = RfcClient { up, opts, times, abort, ..Default::default() };
                    if up {
                        r.remote = format!("{n}-#.bin");
                        r.file = format!("ref/{n}");
                        c.sc.data(&r.file.clone(), k, size);
                    } else {
                        r.remote = format!("{n}.bin");
                        r.file = format!("c{host}/{n}.out");
                        c.on_server(&r.remote.clone(), size);
                    }
                    let q = c.rfc(&n, host, r, t(at), false);
                    // enough sessions by then
                    c.sc.timeline.push(Timed { at_us: first + k * round + 7 * SEC, act: Act::Kill(q) });
                }
                Job::List { at } => {
                    c.sc.dir(&format!("c{host}"));
                    let r = RfcClient { remote: "sub/dir.txt".into(), file: format!("c{host}/{n}.out"), ..Default::default() };
                    c.rfc(&n, host, r, t(at), false);
                }
            }
        }
        let pause = if k == 0 { 20 * SEC } else { 0 };
        c.sc.timeline.push(Timed { at_us: first + (k + 1) * round + pause - 500 * MSEC, act: Act::Sample(s) });
    }
    let at = first + rounds * round + 40 * SEC;
    c.sc.timeline.push(Timed { at_us: at - SEC, act: Act::Sample(s) });
    let o = CliOpts { port_change: pc, level: c.enc().then(|| "none".into()), ..Default::default() };
    let q = c.down("later", 40, &o, 2000, "later.bin", StartAt::At(at));
    c.sc.net.until_us = at - SEC;
    c.must(q);
    // a list of threads may have had to grow
    let slack = 3_000;
    c.expect(Expect::HeapFlat { p: s, slack });
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.sc.max_steps = 8_000_000;
    c.sc.end_us = at + 60 * SEC;
}

// ---------------------------------------------------------------- C28
/// whoever refuses or gives up says so
pub fn told(c: &mut Cx) {
    c.calm();
    // what overflows the queue of the other end it has not been told
    c.sc.net.jitter_us = 0;
    c.preempt();
    let mut so = c.srv();
    so.overwrite = false;
    so.request_timeout = Some(15_000);
    let pc = Cx::wants_port_change(&so);
    let mut o = c.cli();
    o.window = o.window.map(|w| w.min(16));
    o.port_change = pc;
    o.retry = None;
    o.request_timeout = Some(15_000);
    let start = StartAt::At(20 * MSEC);
    let up = c.r.chance(1, 2);
    let soon = 2 * SEC;
    let payload = c.payload(o.block.unwrap(), &o.level);
    let size = c.size(payload, o.window.unwrap(), 60);
    let est = 2 * c.estimate(&o, size) + soon;
    c.sc.grace_us = 5 * SEC;
    c.sc.end_us = 60 * SEC;
    match c.r.below(8) {
        k @ (0 | 1 | 7) => {
            let mut out = false;
            if c.enc() && k == 7 {
                // those who may be served are told, whoever else is not
                c.sc.file("keys", FileKind::Text(format!("{}\n{}\n", key(200).public, key(201).public)));
                so.extra.push("--authorized-keys=keys".into());
                if !so.extra.iter().any(|x| x.starts_with("--private-key")) {
                    so.extra.push(format!("--private-key={}", key(1).private));
                }
                if c.r.chance(1, 2) {
                    so.extra.push("--require-full-encryption=false".into());
                    if c.r.chance(1, 2) {
                        so.extra.push("--error-to-authorized-only".into());
                    } else {
                        out = c.r.chance(1, 2);
                    }
                    o.level = Some((*c.r.pick(&["protocol", "data", "optional-protocol"])).into());
                } else {
                    o.level = Some("protocol".into());
                    o.server_public = Some(key(1).public);
                }
                o.private = Some(key(if out { 300 } else { 200 }).private);
            }
            let limit = if c.r.chance(1, 2) { None } else { Some(c.r.range(1, 5_000)) };
            if let Some(l) = limit {
                so.extra.push(format!("--max-file-size={l}"));
            }
            let s = c.server(&so);
            c.on_server("exists.bin", 100);
            c.sc.dir("srv/sub");
            let over = limit.map(|l| l + *c.r.pick(&[1, 2, 1000, 100_000]));
            let (what, p) = match (over, up) {
                _ if out => {
                    let p = c.up("client", 2, &o, 1, "new.bin", start, false);
                    c.sc.expects.truncate(c.sc.expects.len() - 2);
                    ("unlisted", p)
                }
                (Some(n), _) => {
                    let p = c.up("client", 2, &o, n, "new.bin", start, false);
                    c.sc.expects.truncate(c.sc.expects.len() - 2);
                    ("too large", p)
                }
                (_, true) => {
                    let f = *c.r.pick(&["exists.bin", "sub", "exists.bin/x", "exists.bin"]);
                    let p = c.up("client", 2, &o, 10, f, start, false);
                    c.sc.expects.truncate(c.sc.expects.len() - 2);
                    ("not to be written", p)
                }
                (_, false) => {
                    let f = *c.r.pick(&["none.bin", "sub/none.bin", "none/none.bin", "sub", "exists.bin/x"]);
                    c.sc.dir("c2");
                    ("not to be read", c.receive("client", 2, &o, f, "c2/out", start))
                }
            };
            c.note(if k == 7 { format!("authorized {what}") } else { what.into() });
            c.expect(Expect::MustFail(p));
            c.expect(Expect::EndsWithin { p, us: soon });
            c.expect(Expect::Alive(s));
            c.expect(Expect::Released { p: s });
        }
        k @ (2 | 3) => {
            c.note(if up { "cannot write" } else { "cannot read" });
            let s = c.server(&so);
            let p = c.xfer(up, "client", 2, &o, size, "f.bin", start);
            // only success has content
            c.sc.io.procs = vec![s];
            c.sc.io.path = "f.bin".into();
            if up && k == 2 {
                c.sc.io.disk_quota = Some(c.r.below(size + 1));
            } else {
                let op = if c.r.chance(1, 6) { "open" } else if up { "write" } else { "read" };
                let n = if op == "open" { 1 } else { 1 + c.r.below(size / payload + 1) };
                c.sc.io.nth = vec![IoNth { op: op.into(), n, errno: *c.r.pick(&[5, 28, 13]), sticky: c.r.chance(1, 2) }];
            }
            c.expect(Expect::EndsWithin { p, us: est });
            c.expect(Expect::Alive(s));
            c.expect(Expect::Released { p: s });
        }
        4 => {
            c.note("unannounced");
            let limit = c.r.range(1, 20_000);
            so.extra.push(format!("--max-file-size={limit}"));
            let s = c.server(&so);
            let size = limit + *c.r.pick(&[1, 2, 513, 30_000]);
            let fs = c.r.next();
            c.sc.data("ref/up", fs, size);
            let mut r = RfcClient { up: true, opts: c.rfc_opts(), remote: "up.bin".into(), file: "ref/up".into(), ..Default::default() };
            r.opts.retain(|o| o.0 != "tsize" && o.0 != "timeout" && (o.0 != "windowsize" || o.1.len() < 2));
            let block = r.opts.iter().find(|o| o.0 == "blksize").map_or(512, |o| o.1.parse().unwrap_or(512));
            let p = c.rfc("peer", 2, r, start, true);
            c.expect(Expect::MustFail(p));
            let rtt = 2 * (c.sc.net.latency_us + c.sc.net.jitter_us) + 1000;
            c.expect(Expect::EndsWithin { p, us: soon + 2 * (limit / block + 2) * rtt });
            c.expect(Expect::Alive(s));
            c.expect(Expect::Released { p: s });
        }
        5 => {
            c.note(if up { "uploader aborts" } else { "downloader aborts" });
            let s = c.server(&so);
            let err = words(c);
            let mut r = RfcClient { err, up, opts: c.rfc_opts(), remote: "f.bin".into(), abort: Some(c.r.below(8)), ..Default::default() };
            r.opts.retain(|o| o.0 != "timeout" && (o.0 != "windowsize" || o.1.len() < 2));
            if up {
                r.file = "ref/up".into();
                let fs = c.r.next();
                c.sc.data("ref/up", fs, size);
            } else {
                r.file = "c2/out".into();
                c.on_server("f.bin", size);
            }
            c.rfc("peer", 2, r, start, true);
            c.expect(Expect::Alive(s));
            c.expect(Expect::NoPanic(s));
            c.expect(Expect::Released { p: s });
        }
        _ => {
            c.note("server aborts");
            let err = words(c);
            o.level = c.enc().then(|| (*c.r.pick(&["none", "optional-data", "optional-protocol"])).into());
            o.private = None;
            o.port_change = true;
            let abort = Some(c.r.below(20));
            let knows = if c.r.chance(1, 2) { vec![] } else { ["blksize", "windowsize", "timeout", "tsize"].map(String::from).to_vec() };
            let fresh_port = c.r.chance(1, 2);
            c.rfc_server("standard", SRV, RfcServer { knows, abort, err, fresh_port, ..Default::default() });
            let p = c.xfer(up, "client", 2, &o, size, "f.bin", start);
            let rtt = 2 * (c.sc.net.latency_us + c.sc.net.jitter_us) + 1000;
            c.expect(Expect::EndsWithin { p, us: soon + 40 * rtt });
            c.expect(Expect::NoPanic(p));
        }
    }
}

fn words(c: &mut Cx) -> (u16, u16) {
    // a longer one does not fit where there is no heap
    let max = if c.mt() || c.cfg == "alloc" { 400 } else { 140 };
    (c.r.below(9) as u16, if c.r.chance(2, 3) { c.r.below(40) } else { c.r.below(max) } as u16)
}
