//! Generators for files encrypted at rest, standard peers, traffic, third parties, listings, server keys.
use crate::gen::*;
use crate::gen2::{MSEC, SEC};
use crate::peers::{self, Fuzz, Mangle, Peer, RfcClient, RfcServer, Script, Step};
use crate::scen::*;

pub fn sv(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}

// ---------------------------------------------------------------- C17
pub fn at_rest(c: &mut Cx) {
    c.calm();
    c.preempt();
    let kind = c.r.below(6);
    match kind {
        // trouble on the way
        0 | 1 => {
            c.net();
            c.sc.net.icmp = true;
        }
        _ => {
            if c.r.chance(1, 2) {
                c.bumpy();
            }
        }
    }
    let mut so = c.srv();
    // a late duplicate of the request starts over with an empty file
    so.overwrite = false;
    so.request_timeout = Some(8_000);
    let pc = Cx::wants_port_change(&so);
    let s = c.server(&so);
    let fkey = b64(&crate::util::content(4000 + c.r.below(50), 32));
    let mut o = c.cli();
    o.port_change = pc;
    o.retry = None;
    o.request_timeout = Some(8_000);
    o.file_key = Some(fkey.clone());
    o.prefer_seek = false;
    let payload = c.payload(o.block.unwrap(), &o.level);
    let size = {
        // plain bytes of the first block, of the others
        let first = payload - 37;
        let other = payload - 16;
        let e = *c.r.pick(&[0i64, 0, 1, -1, 2, 16, -16]);
        let n = c.r.below(6) as i64;
        match c.r.below(4) {
            0 => c.r.below(4),
            1 | 2 => (first as i64 + other as i64 * n + e).max(0) as u64,
            _ => c.r.below(other * 40),
        }
    };
    let local = "c2/client.in";
    let fs = c.r.next();
    c.sc.data(local, fs, size);
    let p = c.send("client", 2, &o, local, "f.bin", StartAt::At(20_000));
    if !matches!(kind, 3 | 4) {
        c.expect(Expect::AtRest { p, src: local.into(), dst: "srv/f.bin".into() });
    }
    // another client with the same block content size
    let mut o2 = o.clone();
    if c.r.chance(1, 2) {
        let levels = ["none", "data", "protocol", "optional-data"];
        let l = Some(c.r.pick(&levels).to_string());
        let over = 512 - c.payload(512, &l);
        if (512..=1425).contains(&(payload + over)) {
            o2.block = Some(payload + over);
            o2.level = l;
            o2.private = None;
        }
        o2.window = Some(c.window());
    }
    let mut when = StartAt::After(p, 5_000);
    match kind {
        2 => {
            c.note("other-key");
            o2.file_key = Some(b64(&crate::util::content(5000 + c.r.below(50), 32)));
        }
        3 | 4 => {
            let stored = payload * 40;
            let n = size / (payload - 16) + 2;
            // block of the stored file
            let at = payload * c.r.below(n);
            let op = c.r.below(6);
            let (k, a, b): (&str, u64, u64) = match op {
                0 => ("cut", at, 0),
                1 => ("cut", c.r.below(stored.min(size + 60) + 1), 0),
                2 => ("flip", c.r.below(size + 60), 1 + c.r.below(255)),
                // header: block size and nonce
                3 => ("flip", c.r.below(22), 1 << c.r.below(8)),
                4 => ("append", *c.r.pick(&[1, 16, payload, payload * 2, 100]), c.r.below(3)),
                _ => ("remove", at, payload),
            };
            c.note(format!("altered {k}"));
            let m = Mangle { path: "srv/f.bin".into(), op: k.into(), a, b };
            let q = c.sc.proc("altering", 40, Prog::Peer(Peer::Mangle(m)), StartAt::After(p, 4 * SEC), true);
            when = StartAt::After(q, 5_000);
        }
        5 => {
            c.note("other-block");
            o2.block = Some(c.block());
            o2.level = o.level.clone();
        }
        _ => {
            c.note("round-trip");
            if c.r.chance(1, 2) {
                c.note("storage");
                c.sc.io.procs = vec![p, s, p + 1];
                c.sc.io.path = if c.r.chance(1, 2) { "f.bin".into() } else { "client.in".into() };
                c.sc.io.short_read_ppm = *c.r.pick(&[0, 50_000, 500_000]);
                c.sc.io.short_write_ppm = *c.r.pick(&[0, 50_000, 500_000]);
                c.sc.io.eintr_ppm = *c.r.pick(&[0, 100_000]);
                c.sc.io.err_ppm = *c.r.pick(&[0, 10_000]);
            }
        }
    }
    c.sc.dir("c3");
    let q = c.receive("back", 3, &o2, "f.bin", "c3/back.out", when);
    c.expect(Expect::OkExact { p: q, src: local.into(), dst: "c3/back.out".into(), at_end: true });
    if kind == 2 && size > 0 {
        c.expect(Expect::MustFail(q));
    }
    let quiet = c.sc.net.drop_ppm == 0 && c.sc.net.rxq_bytes >= 100_000;
    let trouble = c.sc.io.err_ppm > 0 || c.sc.io.short_read_ppm > 0 || c.sc.io.short_write_ppm > 0 || c.sc.io.eintr_ppm > 0;
    if kind <= 1 && quiet && !trouble && c.sc.net.delay_max_us < 100_000 {
        c.must(p);
        c.must(q);
    }
    c.expect(Expect::NoPanic(s));
    c.expect(Expect::NoPanic(p));
    c.expect(Expect::NoPanic(q));
    if kind <= 2 && c.r.chance(1, 3) {
        // the same content with the same key is never stored as the same bytes
        c.note("twice");
        let again = c.send("again", 4, &o, local, "g.bin", StartAt::At(30_000));
        c.expect(Expect::Differ { ps: vec![p, again], a: "srv/f.bin".into(), b: "srv/g.bin".into(), n: 21 });
    }
    // neither the transfer nor the server sees the content
    c.expect(Expect::NoLeak { srcs: vec![local.into()], texts: vec![], hosts: vec![] });
    c.sc.end_us = 200 * SEC;
}

// ---------------------------------------------------------------- C18
pub fn interop(c: &mut Cx) {
    c.calm();
    c.bumpy();
    c.preempt();
    // a standard client repeats its request and may then be served twice
    let dups = c.sc.net.drop_ppm + c.sc.net.dup_ppm + c.sc.net.delay_ppm > 0;
    let up = c.r.chance(1, 2);
    let size = {
        let b = *c.r.pick(&[512, 512, 1024, 1425, 700]);
        c.size(b, 8, 60)
    };
    let mut all = vec![];
    if c.r.chance(1, 2) {
        c.note("standard-client");
        let mut so = c.srv();
        so.overwrite = c.r.chance(1, 2);
        let s = c.server(&so);
        for i in 0..c.r.range(1, 3) {
            let name = format!("f{i}.bin");
            let mut opts = match c.r.below(4) {
                0 => vec![],
                _ => c.rfc_opts(),
            };
            if c.r.chance(1, 3) {
                opts.push(("tsize".into(), if up { size.to_string() } else { "0".into() }));
            }
            if c.r.chance(1, 5) {
                opts.push(((*c.r.pick(&["multicast", "rollover", "utimeout", "x-vendor"])).into(), "0".into()));
            }
            match c.r.below(4) {
                // options are not case sensitive
                0 => opts.iter_mut().for_each(|o| o.0 = o.0.to_ascii_uppercase()),
                1 => opts.iter_mut().for_each(|o| {
                    let mut k = o.0[..1].to_ascii_uppercase();
                    k.push_str(&o.0[1..]);
                    o.0 = k;
                }),
                _ => {}
            }
            // neither are modes
            let mode = (*c.r.pick(&["octet", "octet", "OCTET", "Octet", "oCtEt"])).to_string();
            let path = if up { format!("ref/{i}") } else { format!("srv/{name}") };
            let fs = c.r.next();
            c.sc.data(&path, fs, size);
            let file = if up { path.clone() } else { format!("c{}/out.bin", 2 + i) };
            let r = RfcClient {
                up,
                remote: name.clone(),
                file: file.clone(),
                mode,
                opts,
                strict: true,
                size: Some(size),
                retry_us: *c.r.pick(&[200 * MSEC, SEC, 3 * SEC]),
                give_up_us: 30 * SEC,
                copies: *c.r.pick(&[1, 1, 1, 2]),
                slow_us: *c.r.pick(&[0, 0, 0, 300, 5_000]),
                ..Default::default()
            };
            let slow = r.retry_us >= SEC && c.sc.net.drop_ppm > 0;
            let copies = r.copies;
            let p = c.rfc(&format!("std{i}"), 2 + i as u32, r, StartAt::At(20_000 + i * 3_000), true);
            let dst = if up { format!("srv/{name}") } else { file };
            c.expect(Expect::OkExact { p, src: path, dst, at_end: !up || !so.overwrite });
            // two copies of every datagram, each answered, grow the load; a slow peer's repeats take their time
            if !slow && copies == 1 {
                all.push(p);
            }
        }
        c.expect(Expect::NoPanic(s));
        c.expect(Expect::Alive(s));
    } else {
        c.note("standard-server");
        let mut o = c.cli();
        o.level = c.enc().then(|| (*c.r.pick(&["none", "optional-data", "optional-protocol", "optional-protocol"])).into());
        o.private = (o.level.as_deref().is_some_and(|l| l != "none") && c.r.chance(1, 3)).then(|| key(100).private);
        let knows = match c.r.below(5) {
            0 => vec![],
            1 => sv(&["blksize"]),
            2 => sv(&["tsize", "timeout"]),
            3 => sv(&["windowsize"]),
            _ => sv(&["blksize", "windowsize", "tsize", "timeout"]),
        };
        let none = o.level.as_deref().is_none_or(|l| l == "none");
        // old servers refuse what they do not know
        let reject = (none && c.r.chance(1, 5)).then(|| *c.r.pick(&[0u16, 4, 8]));
        if reject.is_some() {
            // a second refusal would meet the second request
            c.sc.net.drop_ppm = 0;
            c.sc.net.dup_ppm = 0;
            c.sc.net.delay_ppm = 0;
        }
        let fresh_port = c.r.chance(3, 4);
        o.port_change = fresh_port || c.r.chance(1, 2);
        // the standard leaves smaller values to the server
        let max_block = *c.r.pick(&[65464, 65464, 512, 1024]);
        let max_window = *c.r.pick(&[65535, 1, 4]);
        let r = RfcServer { knows, reject, fresh_port, max_block, max_window, strict: true, retry_us: *c.r.pick(&[200 * MSEC, SEC]), ..Default::default() };
        c.rfc_server("standard", SRV, r);
        let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(20_000));
        all.push(p);
    }
    let _ = dups;
    if c.sc.net.drop_ppm <= 10_000 {
        for p in all {
            c.must(p);
        }
    }
    c.sc.end_us = 300 * SEC;
}

// ---------------------------------------------------------------- C21
pub fn traffic(c: &mut Cx) {
    c.calm();
    // in order
    c.sc.net.jitter_us = 0;
    c.sc.net.rxq_bytes = 64 << 20;
    c.preempt();
    let mut so = c.srv();
    so.overwrite = false;
    let pc = Cx::wants_port_change(&so);
    let kind = c.r.below(3);
    {
        let r = &mut c.r;
        let n = &mut c.sc.net;
        match kind {
            0 => {
                n.dup_ppm = *r.pick(&[50_000, 300_000, 900_000]);
                n.delay_max_us = *r.pick(&[200, 1_000]);
            }
            1 => {
                // late, yet before any retry
                n.delay_ppm = *r.pick(&[20_000, 200_000]);
                n.delay_max_us = *r.pick(&[300, 3_000, 20_000]);
                n.dup_ppm = *r.pick(&[0, 100_000]);
                n.max_faults = r.range(1, 3);
            }
            _ => {
                n.drop_ppm = *r.pick(&[1_000_000, 100_000, 20_000]);
                n.max_faults = r.range(1, 3);
            }
        }
    }
    c.note(["duplicates", "delays", "losses"][kind as usize]);
    let s = c.server(&so);
    let mut o = c.cli();
    o.port_change = pc;
    o.retry = c.r.chance(1, 2).then_some(1000);
    // the block numbers have to be visible on the wire
    if c.enc() && c.r.chance(3, 4) {
        o.level = Some((*c.r.pick(&["none", "data"])).into());
        o.private = None;
    }
    let payload = c.payload(o.block.unwrap(), &o.level);
    let size = c.size(payload, o.window.unwrap(), 200);
    let up = c.r.chance(1, 2);
    let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(20_000));
    // with losses the retry timeout of a client may exceed the time the server repeats its last answer
    if kind != 2 {
        c.must(p);
    }
    let blocks = size / payload + 1;
    let window = o.window.unwrap();
    let faults = if kind == 0 { 0 } else { c.sc.net.max_faults };
    // one window for each fault (and once more when its repetition meets another)
    let again = window * 2 * faults;
    c.expect(Expect::Traffic(TrafficSpec {
        server: SRV,
        max_copies: 3 + 2 * faults as u32,
        max_data: blocks + again + 4,
        last: window,
        // the last window is repeated until the peer answers or gives up
        max_total: 30 + 3 * blocks + 2 * again + if kind == 2 { 30 * window } else { 0 },
    }));
    c.expect(Expect::Quiet { us: 3 * SEC });
    c.expect(Expect::NoPanic(s));
    c.sc.grace_us = 22 * SEC;
    c.sc.end_us = 200 * SEC;
}

// ---------------------------------------------------------------- C22
pub fn third_party(c: &mut Cx) {
    c.calm();
    c.preempt();
    let mut so = c.srv();
    so.overwrite = false;
    let kind = c.r.below(5);
    so.extra.retain(|x| x != "--require-server-port-change");
    let fresh = c.r.chance(1, 2);
    if fresh {
        so.extra.push("--require-server-port-change".into());
    }
    let mut o = c.cli();
    o.retry = None;
    o.port_change = fresh || c.r.chance(1, 3);
    let up = c.r.chance(1, 2);
    if kind == 0 && c.r.chance(1, 3) {
        // somebody else answers first, or alone
        c.note("early-stranger");
        o.request_timeout = Some(3_000);
        o.listen = Some("10.0.0.2:5000".into());
        o.block = Some(512);
        o.window = Some(1);
        if c.enc() && c.r.chance(1, 3) {
            // nothing of the stranger can be decrypted
            c.note("known-key");
            so.extra.retain(|x| !x.starts_with("--private-key"));
            so.extra.push(format!("--private-key={}", key(1).private));
            o.level = Some("protocol".into());
            o.server_public = Some(key(1).public);
        } else if c.r.chance(1, 2) {
            o.level = c.enc().then(|| "none".into());
            o.private = None;
        }
        let size = c.r.range(3_000, 20_000);
        let alone = c.r.chance(1, 3);
        c.sc.dir("srv");
        if !alone {
            let s = c.server(&so);
            c.expect(Expect::NoPanic(s));
        }
        c.sc.net.latency_us = 3_000;
        c.sc.net.jitter_us = 0;
        let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(20_000));
        let mut steps = vec![Step::Sleep(c.r.range(20_500, 24_000))];
        for _ in 0..c.r.range(1, 3) {
            let d = match c.r.below(4) {
                0 => peers::oack(&[]),
                1 => peers::oack(&[("blksize".into(), "512".into())]),
                2 => peers::error(1, "no such file"),
                _ if up => peers::ack(0),
                _ => peers::data(1, &[7; 512]),
            };
            steps.push(Step::Send(2, 5000, d));
            steps.push(Step::Recv(3_000));
        }
        if !up {
            steps.push(Step::Send(2, 5000, peers::data(1, &[7; 100])));
        } else {
            steps.push(Step::Send(2, 5000, peers::ack(1)));
        }
        steps.push(Step::Sleep(100_000));
        let port = if c.r.chance(1, 2) { PORT } else { 6000 };
        c.sc.proc("stranger", 50, Prog::Peer(Peer::Script(Script { port, steps })), StartAt::At(0), false);
        if alone {
            c.expect(Expect::MustFail(p));
        } else {
            c.must(p);
        }
        if !o.port_change {
            c.expect(Expect::SamePort { client: 2, server: SRV, port: PORT });
        }
        c.sc.end_us = 60 * SEC;
        return;
    }
    if kind == 0 {
        c.note("unexpected-port");
        o.port_change = false;
        o.request_timeout = Some(3_000);
        let size = c.r.range(0, 20_000);
        if c.r.chance(1, 2) {
            if !fresh {
                so.extra.push("--require-server-port-change".into());
            }
            c.server(&so);
        } else {
            let knows = if c.r.chance(1, 2) { sv(&["blksize", "windowsize", "timeout", "tsize"]) } else { vec![] };
            o.level = c.enc().then(|| "none".into());
            o.private = None;
            c.rfc_server("standard", SRV, RfcServer { knows, fresh_port: true, ..Default::default() });
        }
        let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(20_000));
        c.expect(Expect::MustFail(p));
        c.expect(Expect::SamePort { client: 2, server: SRV, port: PORT });
        c.sc.end_us = 60 * SEC;
        return;
    }
    let s = c.server(&so);
    // long enough to be disturbed
    o.window = Some(*c.r.pick(&[1, 1, 2, 4, 8]));
    let payload = c.payload(o.block.unwrap(), &o.level);
    let size = payload * c.r.range(20, 150) + c.r.below(payload);
    let hand = 20_000 + 6 * (c.sc.net.latency_us + c.sc.net.jitter_us) + 3_000;
    let n = c.r.range(2, 3);
    let mut ps = vec![];
    for i in 0..n.min(2) {
        let up = if i == 0 { up } else { c.r.chance(1, 2) };
        let host = 2 + i as u32;
        let p = c.xfer(up, &format!("client{i}"), host, &o, size, &format!("f{i}.bin"), StartAt::At(20_000));
        c.must(p);
        ps.push(p);
        if !o.port_change {
            c.expect(Expect::SamePort { client: host, server: SRV, port: PORT });
        }
    }
    let gap = *c.r.pick(&[50, 300, 1_000]);
    let m = if c.stack() { c.r.range(20, 200) } else { c.r.range(20, 400) };
    c.note("strangers");
    for k in 0..c.r.range(1, 2) {
        let kinds = if kind == 4 { sv(&["third", "third", "junk"]) } else { sv(&["third"]) };
        let names = sv(&["nothing.bin", "no/thing"]);
        let f = Fuzz { target: SRV, port: PORT, n: m, gap_us: gap, seed: c.r.next(), watch: vec![SRV, 2, 3], kinds, names, server_key: None };
        let q = c.sc.proc(&format!("stranger{k}"), 50 + k as u32, Prog::Peer(Peer::Fuzz(f)), StartAt::At(hand), true);
        let _ = q;
    }
    if fresh {
        c.expect(Expect::FreshPort { p: s, server: SRV, port: PORT });
    }
    c.expect(Expect::NoPanic(s));
    c.expect(Expect::Alive(s));
    c.sc.end_us = 200 * SEC;
}

// ---------------------------------------------------------------- C23
pub fn listings(c: &mut Cx) {
    c.calm();
    c.preempt();
    let mut so = c.srv();
    so.overwrite = c.r.chance(1, 2);
    let pc = Cx::wants_port_change(&so);
    let enabled = c.r.chance(4, 5);
    let lname = (*c.r.pick(&["dir.txt", "dir.txt", ".listing", "ls"])).to_string();
    if enabled {
        so.extra.push(format!("--directory-list={lname}"));
    }
    let root = (*c.r.pick(&["srv", "srv", "./srv", "srv/", "top/../srv"])).to_string();
    so.dir = Some(root);
    c.sc.dir("srv");
    c.sc.dir("top");
    let s = c.server(&so);
    c.sc.dir("outside");
    c.sc.data("outside/hidden-from-lists", 1, 100);
    c.sc.dir("outside/none");
    let links = c.r.chance(1, 2);
    if links {
        c.sc.file("srv/away", FileKind::Link("../outside".into()));
        c.sc.file("srv/away0", FileKind::Link("../outside/none".into()));
    }
    c.expect(Expect::NoOpenOk { p: s, under: "outside".into() });
    let dirs = ["", "sub", "sub/deep", "empty"];
    let mut lines: Vec<Vec<String>> = vec![vec![]; 4];
    if links {
        lines[0].extend(sv(&["away", "away0"]));
    }
    c.sc.dir("srv/empty");
    lines[0].push("sub/".into());
    lines[0].push("empty/".into());
    lines[1].push("sub/deep/".into());
    c.sc.dir("srv/sub/deep");
    let many = if c.r.chance(1, 3) { 200 } else { 12 };
    let mut n = 0;
    if c.r.chance(1, 60) {
        // more than 16 bits count
        c.note("huge");
        for i in 0..600 {
            let rel = format!("sub/{}{i:05}", "a-long-name-".repeat(10));
            c.sc.data(&format!("srv/{rel}"), i, 0);
            lines[1].push(rel);
        }
    }
    for (k, d) in dirs.iter().enumerate().take(3) {
        for _ in 0..c.r.below(many) {
            n += 1;
            let long = c.r.below(40) as usize;
            let base = match c.r.below(6) {
                0 => format!("file {n} with spaces"),
                1 => format!("{}-{n}", "long".repeat(long / 4 + 1)),
                2 => format!("\u{e9}\u{4e2d}-{n}"),
                3 => format!(".hidden{n}"),
                _ => format!("f{n}.bin"),
            };
            let rel = if d.is_empty() { base } else { format!("{d}/{base}") };
            if c.r.chance(1, 8) {
                c.sc.dir(&format!("srv/{rel}"));
                lines[k].push(format!("{rel}/"));
            } else if c.r.chance(1, 10) {
                c.sc.file(&format!("srv/{rel}"), FileKind::Link("/nonexistent".into()));
                lines[k].push(rel);
            } else {
                c.sc.data(&format!("srv/{rel}"), n, n % 700);
                lines[k].push(rel);
            }
        }
    }
    if c.r.chance(1, 2) {
        c.bumpy();
        c.note("bumpy");
    } else if c.r.chance(1, 2) {
        c.net();
    }
    let calm = c.sc.net.drop_ppm == 0 && c.sc.net.delay_max_us <= 20_000 && c.sc.net.rxq_bytes >= 100_000;
    let storage = c.r.chance(1, 10);
    if storage {
        c.note("storage");
        c.sc.io.procs = vec![s];
        c.sc.io.err_ppm = *c.r.pick(&[20_000, 200_000]);
    }
    let calm = calm && !storage;
    c.note(if enabled { "enabled" } else { "disabled" });
    for i in 0..c.r.range(1, 3) {
        let host = 2 + i as u32;
        let mut o = c.cli();
        o.port_change = pc;
        o.retry = None;
        let k = c.r.below(4) as usize;
        let d = dirs[k];
        let out = format!("c{host}/list.out");
        c.sc.dir(&format!("c{host}"));
        let outside = c.r.chance(1, 6);
        let mut through = false;
        let name = if outside {
            let away = ["away", "away0", "away/none", "sub/../away0"];
            let w = if links && c.r.chance(1, 2) { *c.r.pick(&away) } else { *c.r.pick(&["..", "../outside", "sub/../../outside", "nothing", "/outside"]) };
            through = w.starts_with("away");
            format!("{w}/{lname}")
        } else if d.is_empty() {
            match c.r.below(3) {
                0 => format!("./{lname}"),
                _ => lname.clone(),
            }
        } else {
            match c.r.below(4) {
                0 => format!("{d}/./{lname}"),
                1 => format!("/{d}//{lname}"),
                _ => format!("{d}/{lname}"),
            }
        };
        let p = if c.r.chance(1, 4) && !outside {
            // anybody's client
            let r = RfcClient { up: false, remote: format!("{d}/{lname}").trim_start_matches('/').into(), file: out.clone(), opts: c.rfc_opts(), strict: true, ..Default::default() };
            c.rfc(&format!("list{i}"), host, r, StartAt::At(20_000), true)
        } else {
            c.receive(&format!("list{i}"), host, &o, &name, &out, StartAt::At(20_000 + i * 1_000))
        };
        if !enabled || outside {
            // names with steps up are reduced, so they may mean something inside
            if !enabled || through {
                c.expect(Expect::MustFail(p));
            }
        } else {
            c.expect(Expect::Listing { p, dst: out, lines: lines[k].clone() });
            if calm {
                c.must(p);
            }
        }
    }
    c.expect(Expect::NoLeak { srcs: vec![], texts: sv(&["hidden-from-lists"]), hosts: vec![] });
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.sc.end_us = 200 * SEC;
}

// ---------------------------------------------------------------- C25
pub fn server_keys(c: &mut Cx) {
    c.calm();
    c.bumpy();
    c.preempt();
    let mut so = c.srv();
    so.overwrite = c.r.chance(1, 3);
    so.extra.retain(|x| !x.starts_with("--private-key"));
    so.request_timeout = Some(4_000);
    let pc = Cx::wants_port_change(&so);
    let up = c.r.chance(1, 2);
    let mut o = c.cli();
    o.port_change = pc;
    o.retry = None;
    o.request_timeout = Some(4_000);
    o.level = Some((*c.r.pick(&["protocol", "protocol", "data", "optional-data", "optional-protocol"])).into());
    let own = o.level.as_deref() != Some("protocol") || c.r.chance(1, 2);
    o.private = own.then(|| key(100).private);
    let ep = format!("10.0.0.{SRV}:{PORT}");
    let hosts = "c2/hosts";
    let line = |k: u64| format!("{ep} {}", key(k).public);
    // hosts whose names begin, end or differ a little
    let elsewhere = *c.r.pick(&["10.0.0.77:69", "10.0.0.1:6", "10.0.0.1:690", "10.0.0.11:69", "0.0.0.1:69", "10.0.0.1", "10.0.0.1:"]);
    let other = format!("{elsewhere} {}", key(50).public);
    let size = c.r.below(8_000);
    let kind = c.r.below(7);
    let calm = c.sc.net.drop_ppm == 0;
    match kind {
        // no record yet: the key is remembered
        0 | 1 => {
            c.note("first-contact");
            let keyed = c.r.chance(3, 4);
            if keyed {
                so.extra.push(format!("--private-key={}", key(1).private));
            }
            let s = c.server(&so);
            let start = match c.r.below(6) {
                // a last line without its end
                4 => other.clone(),
                5 => "# x".into(),
                0 => String::new(),
                1 => "# known\n\n".into(),
                2 => format!("{other}\n"),
                _ => format!("# x\n{other}\n#{}\n", line(2)),
            };
            let extra = start.contains(&other);
            c.sc.file(hosts, FileKind::Text(start));
            o.known_hosts = Some(hosts.into());
            let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(20_000));
            // and enforced at the next contact
            let q = if c.r.chance(1, 2) {
                let (mut a, mut b) = (so.clone(), vec![]);
                a.extra.retain(|x| !x.starts_with("--private-key"));
                a.extra.push(format!("--private-key={}", key(2).private));
                std::mem::swap(&mut a.extra, &mut b);
                a.extra = b;
                // the first server goes away
                let s2 = c.server(&a);
                c.sc.procs[s2].name = "impostor".into();
                c.sc.procs[s2].start = StartAt::After(p, 6 * SEC + 100_000);
                let k = c.sc.proc("ending", 60, Prog::Peer(Peer::Kill { proc: s, after_us: 0 }), StartAt::After(p, 6 * SEC), true);
                c.sc.procs[k].fg = false;
                let q = c.xfer(up, "again", 2, &o, size, "g.bin", StartAt::After(p, 7 * SEC));
                if keyed && own && calm {
                    c.expect(Expect::MustFail(q));
                }
                Some(q)
            } else {
                c.expect(Expect::NoPanic(s));
                None
            };
            if calm {
                c.must(p);
            }
            let known = keyed && own;
            if calm && (q.is_none() || known) {
                c.expect(Expect::KnownHosts { path: hosts.into(), must: known.then(|| line(1)), only: !extra });
            }
        }
        // recorded or given: the holder of the key is served
        2 => {
            c.note("holder");
            so.extra.push(format!("--private-key={}", key(1).private));
            let s = c.server(&so);
            pin(c, &mut o, hosts, &line(1), &other);
            let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(20_000));
            if calm {
                c.must(p);
            }
            if o.known_hosts.is_some() {
                c.expect(Expect::KnownHosts { path: hosts.into(), must: Some(line(1)), only: false });
            }
            c.expect(Expect::NoPanic(s));
        }
        // somebody else
        3 | 4 => {
            c.note("impostor");
            if c.r.chance(2, 3) {
                so.extra.push(format!("--private-key={}", key(2).private));
            }
            let s = c.server(&so);
            pin(c, &mut o, hosts, &line(1), &other);
            let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(20_000));
            c.expect(Expect::MustFail(p));
            if o.known_hosts.is_some() {
                c.expect(Expect::Unchanged(hosts.into()));
            }
            c.expect(Expect::NoPanic(s));
        }
        // on the way to the holder or to somebody else
        _ => {
            c.note("on-path");
            let holder = c.r.chance(1, 2);
            so.extra.push(format!("--private-key={}", key(if holder { 1 } else { 2 }).private));
            let s = c.server(&so);
            pin(c, &mut o, hosts, &line(1), &other);
            let sess = b64(&crate::util::content(0x7777, 32));
            let (k, n, w): (&str, u64, String) = match c.r.below(7) {
                0 => ("drop-opt", 1, "apubk,sig".into()),
                1 => ("drop-opt", 2, "apubk,sig".into()),
                2 => ("drop-opt", 2, "sig".into()),
                3 => ("set-opt", 2, format!("apubk={}", key(1).public)),
                4 => ("set-opt", 2, format!("spubk={sess}")),
                5 => ("drop-opt", 2, "apubk".into()),
                _ => ("set-opt", 1, format!("apubk={}", key(100).public)),
            };
            c.note(format!("{k} {} holder={holder}", w.split('=').next().unwrap()));
            c.sc.mitm = Some(MitmSpec { kind: k.into(), a: 2, b: SRV, n, m: 0, s: w.clone(), ppm: 0 });
            let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(20_000));
            // an encrypted handshake hides the options
            let full = o.level.as_deref() == Some("protocol");
            if !holder {
                c.expect(Expect::MustFail(p));
            } else if !full && !(w.starts_with("apubk=") && k == "set-opt") {
                c.expect(Expect::MustFail(p));
            }
            if o.known_hosts.is_some() {
                c.expect(Expect::Unchanged(hosts.into()));
            }
            c.expect(Expect::NoPanic(s));
        }
    }
    c.sc.end_us = 100 * SEC;
}

fn pin(c: &mut Cx, o: &mut CliOpts, hosts: &str, line: &str, other: &str) {
    if c.r.chance(1, 2) {
        o.server_public = Some(line.split(' ').nth(1).unwrap().to_string());
    } else {
        let t = match c.r.below(3) {
            0 => format!("{line}\n"),
            1 => format!("# known\n{other}\n\n{line}\n"),
            _ => format!("{line}\n{other}\n"),
        };
        c.sc.file(hosts, FileKind::Text(t));
        o.known_hosts = Some(hosts.into());
    }
}

// ---------------------------------------------------------------- C16
pub fn sync_dir(c: &mut Cx) {
    c.calm();
    c.sc.net.jitter_us = 0;
    c.preempt();
    let on_create = c.r.chance(2, 3);
    c.note(if on_create { "create" } else { "close" });
    let mut so = c.srv();
    so.request_timeout = Some(15_000);
    so.overwrite = false;
    let pc = Cx::wants_port_change(&so);
    let s = c.server(&so);
    let mut o = c.cli();
    o.port_change = pc;
    o.listen = None;
    o.prefer_seek = false;
    o.file_key = None;
    o.request_timeout = Some(15_000);
    o.retry = c.r.chance(1, 3).then(|| *c.r.pick(&[80, 100, 250]));
    let payload = c.payload(o.block.unwrap(), &o.level);
    match c.r.below(4) {
        0 => {
            let n = &mut c.sc.net;
            n.max_faults = c.r.range(1, 3);
            n.drop_ppm = *c.r.pick(&[1_000_000, 200_000, 30_000]);
            // one chosen kind of packet of the transfers
            n.only_ops = c.r.pick(&[vec![3u16], vec![3, 4]]).iter().map(|x| *x as _).collect();
            c.note("losses");
        }
        1 => {
            let n = &mut c.sc.net;
            n.dup_ppm = *c.r.pick(&[20_000, 300_000]);
            c.note("duplicates");
        }
        _ => {}
    }
    // a thread that does not get on while the others do
    let stalls = c.r.chance(1, 2);
    if stalls {
        let (ppm, max) = *c.r.pick(&[(100_000, 500), (50_000, 3_000), (20_000, 20_000), (3_000, 300_000), (500, 1_500_000)]);
        c.sc.sched.tstall_ppm = ppm;
        c.sc.sched.tstall_max_us = max;
        c.note("stalls");
    }
    let sub = c.r.chance(1, 3);
    let mut v = sv(&["sync", "10.0.0.1:69", "c2/watch"]);
    let hold = *c.r.pick(&[0u64, 0, 1, 20, 300, 1000, 3000]);
    if on_create {
        v.push("--start-on-create".into());
        if c.r.chance(3, 4) {
            v.push(format!("--block-duration={hold}"));
        }
    }
    v.extend(c.cli_args(&o));
    c.sc.dir("c2/watch");
    c.sc.dir("c2/watch/sub/deep");
    let y = c.sc.proc("sync", 2, Prog::Bin(v), StartAt::At(20_000), false);
    let writers = if c.r.chance(1, 3) { 2 } else { 1 };
    let mut k = 0;
    let mut taken = std::collections::BTreeSet::new();
    for w in 0..writers {
        let mut files = vec![];
        for _ in 0..c.r.range(1, 3) {
            let size = {
                let e = *c.r.pick(&[0i64, 0, 1, -1, 7]);
                let n = c.r.below(30) as i64;
                match c.r.below(5) {
                    0 => c.r.below(4),
                    1 | 2 => (payload as i64 * n + e).max(0) as u64,
                    _ => c.r.below(payload * 40),
                }
            };
            let dir = if sub { *c.r.pick(&["", "sub/", "sub/deep/"]) } else { "" };
            // the same name in different folders names different files
            let mut name = format!("{dir}same.bin");
            if !sub || c.r.chance(1, 2) || !taken.insert(name.clone()) {
                name = format!("{dir}f{k}.bin");
            }
            let src = format!("ref/f{k}");
            k += 1;
            let fs = c.r.next();
            c.sc.data(&src, fs, size);
            c.expect(Expect::FileIs { path: format!("srv/{name}"), src: src.clone() });
            let mut chunks = vec![];
            let mut left = 12 * SEC;
            for _ in 0..c.r.below(8) {
                let n = match c.r.below(4) {
                    0 => c.r.below(3),
                    1 => payload,
                    2 => c.r.below(payload * 2),
                    _ => c.r.below(size + 1),
                };
                let p = match c.r.below(5) {
                    0 => 0,
                    1 => c.r.below(100),
                    2 => c.r.below(20 * MSEC),
                    3 => c.r.below(2 * SEC),
                    _ => hold * MSEC + c.r.below(3 * MSEC),
                }
                .min(left);
                left -= p;
                chunks.push((n, p));
            }
            files.push((format!("c2/watch/{name}"), src, chunks));
        }
        let gap_us = *c.r.pick(&[0u64, 0, 50, 5 * MSEC, 500 * MSEC]);
        let close_us = match c.r.below(4) {
            0 => c.r.below(3 * MSEC),
            1 => hold * MSEC + c.r.below(5 * MSEC),
            2 => c.r.below(1500 * MSEC),
            _ => 0,
        };
        // what is written before the watch began is nobody's promise
        let at = if stalls { 12 * SEC } else { 500 * MSEC } + c.r.below(200 * MSEC);
        c.sc.proc(&format!("writer{w}"), 2, Prog::Peer(Peer::Writer(crate::peers::Writer { files, gap_us, close_us })), StartAt::At(at), true);
    }
    if c.r.chance(1, 2) {
        c.sc.dir("srv/sub/deep");
    }
    c.expect(Expect::NoPanic(s));
    c.expect(Expect::NoPanic(y));
    c.expect(Expect::Alive(y));
    c.expect(Expect::Alive(s));
    c.sc.grace_us = 25 * SEC;
    c.sc.end_us = 170 * SEC;
}
