//! Generators for hostile input, negotiation, limits, keys, encryption, storage, names and races.
use crate::gen::*;
use crate::gen2::{MSEC, SEC};
use crate::kern::IoNth;
use crate::peers::{Fuzz, Peer, RfcClient, RfcServer};
use crate::scen::*;

fn sv(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}

impl Cx {
    pub fn wants_port_change(so: &SrvOpts) -> bool {
        so.extra.iter().any(|x| x == "--require-server-port-change")
    }
    pub fn rfc_server(&mut self, n: &str, host: u32, s: RfcServer) -> usize {
        let mut s = s;
        s.port = if s.port == 0 { PORT } else { s.port };
        s.retry_us = if s.retry_us == 0 { 200 * MSEC } else { s.retry_us };
        s.give_up_us = if s.give_up_us == 0 { 20 * SEC } else { s.give_up_us };
        s.max_block = if s.max_block == 0 { 65464 } else { s.max_block };
        s.max_window = if s.max_window == 0 { 65535 } else { s.max_window };
        if s.dir.is_empty() {
            s.dir = "srv".into();
        }
        self.sc.dir(&s.dir.clone());
        self.sc.proc(n, host, Prog::Peer(Peer::Server(s)), StartAt::At(0), false)
    }
    /// light trouble that a transfer survives
    pub fn bumpy(&mut self) {
        let r = &mut self.r;
        let n = &mut self.sc.net;
        match r.below(4) {
            0 => {}
            1 => n.drop_ppm = *r.pick(&[5_000, 30_000]),
            2 => {
                n.dup_ppm = *r.pick(&[20_000, 150_000]);
                n.delay_ppm = *r.pick(&[0, 50_000]);
                n.delay_max_us = *r.pick(&[500, 20_000]);
            }
            _ => {
                n.drop_ppm = 10_000;
                n.dup_ppm = 30_000;
                n.delay_ppm = 30_000;
                n.delay_max_us = 10_000;
            }
        }
    }
    pub fn fuzz(&mut self, n: &str, host: u32, f: Fuzz, start: StartAt) -> usize {
        self.sc.proc(n, host, Prog::Peer(Peer::Fuzz(f)), start, true)
    }
}

// ---------------------------------------------------------------- C06
pub fn hostile(c: &mut Cx) {
    let mut so = c.srv();
    so.overwrite = c.r.chance(1, 3);
    let rs = 3_000;
    so.request_timeout = Some(rs);
    if c.r.chance(1, 3) {
        so.extra.push("--directory-list=dir.txt".into());
    }
    if c.enc() && c.r.chance(1, 6) {
        so.extra.push("--require-full-encryption".into());
    }
    let full = so.extra.iter().any(|x| x == "--require-full-encryption");
    c.calm();
    c.preempt();
    if full {
        so.extra.retain(|x| !x.starts_with("--private-key"));
        so.extra.push(format!("--private-key={}", key(1).private));
    }
    let s = c.server(&so);
    let pc = Cx::wants_port_change(&so);
    let kind = c.r.below(if c.enc() { 6 } else { 5 });
    c.note(["listen", "session", "spoof", "mutate", "all", "crypt"][kind as usize]);
    let server_key = so.extra.iter().any(|x| x.starts_with("--private-key")).then_some(1);
    c.on_server("exists.bin", 3000);
    c.sc.file("srv/empty.bin", FileKind::Text(String::new()));
    let kinds: Vec<String> = match kind {
        0 => sv(&["junk"]),
        1 => sv(&["session", "session", "junk"]),
        2 => sv(&["spoof", "third"]),
        3 => sv(&["mutate", "replay"]),
        5 => sv(&["crypt", "crypt", "crypt", "junk"]),
        _ if c.enc() => sv(&["junk", "session", "spoof", "third", "mutate", "replay", "crypt", "crypt"]),
        _ => sv(&["junk", "session", "spoof", "third", "mutate", "replay"]),
    };
    // a build without a heap has few readers for windows
    let n = if c.stack() && kind != 0 { c.r.range(5, 60) } else { c.r.range(5, 250) };
    let gap = *c.r.pick(&[3, 20, 300, 3_000, 20_000]);
    let names = if c.stack() { sv(&["nothing.bin", "fz.bin", "../x", "sub/dir/file"]) } else { sv(&["exists.bin", "empty.bin", "nothing.bin", "fz.bin", "../x", "sub/dir/file", "dir.txt"]) };
    // the datagrams of a victim may be forged, its transfer need not succeed
    let mut end = 20 * MSEC;
    let mut watch = vec![];
    for v in 0..c.r.range(1, 2) {
        let host = 3 + v as u32;
        watch.push(host);
        let mut o = c.cli();
        o.port_change = pc || c.r.chance(1, 3);
        o.retry = None;
        o.request_timeout = Some(4_000);
        let payload = c.payload(o.block.unwrap(), &o.level);
        let size = c.size(payload, o.window.unwrap(), 60);
        let up = c.r.chance(1, 2);
        let at = 20 * MSEC + c.r.below(gap * n / 2 + 1);
        end = end.max(at + 4 * SEC);
        let name = format!("victim{v}.bin");
        let p = if up {
            let local = format!("c{host}/v.in");
            let fs = c.r.next();
            c.sc.data(&local, fs, size);
            c.send(&format!("victim{v}"), host, &o, &local, &name, StartAt::At(at))
        } else {
            c.on_server(&name, size);
            c.sc.dir(&format!("c{host}"));
            c.receive(&format!("victim{v}"), host, &o, &name, &format!("c{host}/v.out"), StartAt::At(at))
        };
        c.expect(Expect::NoPanic(p));
        // forged answers can keep it busy as long as they come
        // and make both ends disagree about the window, so that each block costs a timeout
        let slow = if kind >= 2 { 40 * SEC } else { 0 };
        c.expect(Expect::EndsWithin { p, us: gap * (n + 1) * 2 + 4 * 4 * SEC + 5 * SEC + slow });
    }
    if (2..5).contains(&kind) {
        watch.push(SRV);
    }
    let m = c.r.range(1, 2);
    for k in 0..m {
        let f = Fuzz { target: SRV, port: PORT, n, gap_us: gap, seed: c.r.next(), watch: watch.clone(), kinds: kinds.clone(), names: names.clone(), server_key };
        c.fuzz(&format!("fuzz{k}"), 50 + k as u32, f, StartAt::At(20 * MSEC));
    }
    end = end.max(gap * 2 * (n + 1) + 20 * MSEC);
    // somebody else's transfer meanwhile; forged packets are for the victims only
    if (kind < 2 || kind == 5) && !full {
        let goods = if c.stack() { 1 } else { c.r.range(1, 4) };
        for k in 0..goods {
            let mut o = c.cli();
            o.port_change = pc;
            o.retry = None;
            if c.stack() {
                o.window = Some(1);
            }
            let payload = c.payload(o.block.unwrap(), &o.level);
            let size = c.size(payload, o.window.unwrap(), 60);
            let up = c.r.chance(1, 2);
            let at = 20 * MSEC + c.r.below(gap * n + 1);
            let p = c.xfer(up, &format!("good{k}"), 20 + k as u32, &o, size, &format!("good{k}.bin"), StartAt::At(at));
            c.must(p);
        }
    }
    let mut o = c.cli();
    o.port_change = pc;
    o.retry = None;
    if full {
        o.level = Some("protocol".into());
        o.private = None;
        o.server_public = Some(key(1).public);
    }
    let up = c.r.chance(1, 2);
    let at = end + (2 * rs + 6_000) * MSEC;
    let q = c.xfer(up, "later", 30, &o, 3000, "later.bin", StartAt::At(at));
    c.must(q);
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.expect(Expect::Released { p: s });
    c.sc.grace_us = 2 * rs * MSEC + 8 * SEC;
    c.sc.end_us = at + 100 * SEC;
    c.sc.max_steps = 8_000_000;
}

// ---------------------------------------------------------------- C08
pub fn negotiation(c: &mut Cx) {
    let mut so = c.srv();
    so.overwrite = false;
    if c.r.chance(1, 2) {
        let m = *c.r.pick(&[512, 600, 1024, 1425, 1300]);
        so.extra.push(format!("--max-block-size={m}"));
    }
    if c.r.chance(1, 2) {
        let m = *c.r.pick(&[1, 2, 4, 7, 16]);
        so.extra.push(format!("--max-window-size={m}"));
    }
    c.calm();
    c.bumpy();
    c.preempt();
    let pc = Cx::wants_port_change(&so);
    let kind = c.r.below(4);
    if kind == 3 {
        return bad_answer(c);
    }
    let s = c.server(&so);
    let mut files = vec![];
    for i in 0..c.r.range(1, 3) {
        let host = 2 + i as u32;
        let up = c.r.chance(1, 2);
        let name = format!("f{i}.bin");
        if kind == 0 || (kind == 1 && i == 0) {
            c.note("shipped");
            let mut o = c.cli();
            o.level = c.enc().then(|| "none".into());
            o.private = None;
            o.port_change = pc;
            o.retry = c.r.chance(1, 4).then(|| *c.r.pick(&[1000, 2000, 5000]));
            if c.r.chance(1, 4) {
                o.window = Some(*c.r.pick(&[5, 11, 13]));
            }
            let size = {
                let b = o.block.unwrap();
                c.size(b, o.window.unwrap(), 60)
            };
            c.xfer(up, &format!("client{i}"), host, &o, size, &name, StartAt::At(20_000 + c.i % 7 * 1000));
            let src = c.paths(up, &format!("client{i}"), host, &name).0;
            files.push((name, src));
        } else {
            c.note("rfc");
            let mut opts: Vec<(String, String)> = vec![];
            if c.r.chance(2, 3) {
                let b = match c.r.below(4) {
                    0 => *c.r.pick(&["0", "7", "-1", "8", "100", "511", "65464", "65465", "65536", "99999999999999999999", "x", ""]),
                    1 => "1428",
                    2 => "4096",
                    _ => *c.r.pick(&["512", "600", "1000", "1425", "1426", "1024"]),
                };
                opts.push(("blksize".into(), b.into()));
            }
            if c.r.chance(2, 3) {
                opts.push(("windowsize".into(), (*c.r.pick(&["0", "1", "2", "3", "8", "16", "64", "65535", "65536", "-3", "y"])).into()));
            }
            if c.r.chance(1, 3) {
                opts.push(("timeout".into(), (*c.r.pick(&["0", "1", "2", "5", "255", "256", "z"])).into()));
            }
            let b = c.r.below(40_000);
            if c.r.chance(1, 2) {
                let t = if up { b.to_string() } else { "0".into() };
                opts.push(("tsize".into(), t));
            }
            if c.r.chance(1, 4) {
                opts.push(((*c.r.pick(&["multicast", "rollover", "utimeout"])).into(), "1".into()));
            }
            if c.r.chance(1, 4) {
                for o in opts.iter_mut() {
                    o.0 = o.0.to_ascii_uppercase();
                }
            }
            let k = c.r.below(opts.len() as u64 + 1) as usize;
            let l = opts.len().max(1);
            opts.rotate_left(k % l);
            let path = if up { format!("ref/{i}") } else { format!("srv/{name}") };
            let fs = c.r.next();
            c.sc.data(&path, fs, b);
            let file = if up { path.clone() } else { format!("c{host}/out.bin") };
            let r = RfcClient { up, remote: name.clone(), file: file.clone(), opts, strict: true, size: Some(b), ..Default::default() };
            let p = c.rfc(&format!("rfc{i}"), host, r, StartAt::At(20_000), true);
            let dst = if up { format!("srv/{name}") } else { file };
            c.expect(Expect::OkExact { p, src: path.clone(), dst, at_end: true });
            files.push((name, path));
        }
    }
    c.expect(Expect::WireConform { server: SRV, files });
    c.expect(Expect::NoPanic(s));
    c.expect(Expect::Alive(s));
    c.sc.end_us = 200 * SEC;
}

/// the server acknowledges what it must not
fn bad_answer(c: &mut Cx) {
    c.note("bad-answer");
    let mut o = c.cli();
    o.level = c.enc().then(|| "none".into());
    o.private = None;
    o.block = Some(c.r.range(513, 1400));
    o.window = Some(c.r.range(2, if c.stack() { 15 } else { 60 }));
    o.retry = c.r.chance(1, 2).then_some(2000);
    let up = c.r.chance(1, 2);
    let b = o.block.unwrap();
    let w = o.window.unwrap();
    let good = c.r.chance(1, 3);
    let size = c.r.range(1, if good { 60_000 } else { 20_000 });
    let k = c.r.below(5);
    let (name, v): (&str, String) = match (k, good) {
        (0, true) => ("blksize", c.r.range(512, b).to_string()),
        (0, _) => ("blksize", c.r.pick(&[b + 1, 0, 7, 65464, 65536]).to_string()),
        (1, true) => ("windowsize", c.r.range(1, w).to_string()),
        (1, _) => ("windowsize", c.r.pick(&[w + 1, 0, 65535, 65536]).to_string()),
        (2, false) if c.r.chance(1, 2) => {
            o.block = Some(512);
            ("+blksize", (*c.r.pick(&["512", "511", "1024"])).into())
        }
        (2, false) => {
            o.window = Some(1);
            ("+windowsize", (*c.r.pick(&["1", "2"])).into())
        }
        (3, false) if o.retry.is_none() => ("+timeout", "3".into()),
        (3, false) => ("timeout", (*c.r.pick(&["0", "256", "-1"])).into()),
        (_, false) if up => ("tsize", (size + 1).to_string()),
        _ => ("windowsize", "1".into()),
    };
    let bad = !good && !(name == "windowsize" && v == "1");
    // lower block sizes than the client ever uses are still legal
    let mut knows = if c.r.chance(1, 2) { sv(&["blksize", "windowsize", "timeout", "tsize"]) } else { sv(&["blksize", "windowsize"]) };
    let mut force = vec![(name.to_string(), v)];
    if good {
        // fewer options than asked for: the rest stays at the defaults of the protocol
        if c.r.chance(1, 2) {
            force.clear();
        }
        let r = &mut c.r;
        knows.retain(|_| r.chance(1, 2));
        let k = &knows;
        force.retain(|f| k.contains(&f.0));
        c.note("subset");
    }
    c.rfc_server("server", SRV, RfcServer { knows, force, fresh_port: true, strict: true, ..Default::default() });
    o.port_change = true;
    o.request_timeout = Some(4_000);
    let p = if up {
        c.up("client", 2, &o, size, "f.bin", StartAt::At(20_000), false)
    } else {
        c.down("client", 2, &o, size, "f.bin", StartAt::At(20_000))
    };
    if bad {
        c.expect(Expect::MustFail(p));
    }
    c.sc.net.drop_ppm = 0;
    c.sc.end_us = 60 * SEC;
}

// ---------------------------------------------------------------- C09
pub fn sizes(c: &mut Cx) {
    c.calm();
    c.preempt();
    let limit = *c.r.pick(&[1u64, 511, 512, 513, 1000, 1024, 5000, 20_000, 60_000]);
    let limit = if c.r.chance(1, 2) { limit } else { c.r.range(1, 50_000) };
    let over = c.r.chance(2, 3);
    let size = if over { limit + *c.r.pick(&[1, 1, 2, 100, 511, 512, 513, 5000, 100_000]) } else { limit - (*c.r.pick(&[0, 0, 1, 100])).min(limit) };
    let mut so = c.srv();
    let kind = c.r.below(5);
    let pc = Cx::wants_port_change(&so);
    match kind {
        0..=2 => {
            so.extra.push(format!("--max-file-size={limit}"));
            let s = c.server(&so);
            let path = "srv/up.bin".to_string();
            let p;
            if kind == 0 {
                c.note("announced");
                let mut o = c.cli();
                o.port_change = pc;
                o.retry = None;
                p = c.up("client", 2, &o, size, "up.bin", StartAt::At(20_000), !so.overwrite);
            } else {
                c.note(if kind == 1 { "unannounced" } else { "lying" });
                let fs = c.r.next();
                c.sc.data("ref/up", fs, size);
                let mut opts = c.rfc_opts();
                opts.retain(|o| o.0 != "timeout");
                if kind == 2 {
                    opts.push(("tsize".into(), c.r.below(limit + 1).to_string()));
                }
                let r = RfcClient { up: true, remote: "up.bin".into(), file: "ref/up".into(), opts, ..Default::default() };
                p = c.rfc("client", 2, r, StartAt::At(20_000), true);
                c.expect(Expect::OkExact { p, src: "ref/up".into(), dst: path.clone(), at_end: false });
            }
            if over {
                c.expect(Expect::MustFail(p));
            } else if kind != 2 {
                c.must(p);
            }
            c.expect(Expect::MaxLen { path, max: limit });
            // others are not affected
            let o = CliOpts { port_change: pc, level: c.enc().then(|| "none".into()), ..Default::default() };
            let q = c.up("small", 3, &o, limit, "small.bin", StartAt::After(p, 200_000), !so.overwrite);
            c.must(q);
            let q = c.down("other", 4, &o, 70_000, "big.bin", StartAt::After(p, 200_000));
            c.must(q);
            c.expect(Expect::Alive(s));
            c.expect(Expect::NoPanic(s));
        }
        _ => {
            let mut o = c.cli();
            o.retry = None;
            o.max_file_size = Some(limit);
            o.port_change = true;
            let p = if kind == 3 {
                c.note("download");
                let s = c.server(&so);
                c.expect(Expect::Alive(s));
                c.down("client", 2, &o, size, "f.bin", StartAt::At(20_000))
            } else {
                c.note("download-unannounced");
                o.level = c.enc().then(|| "optional-protocol".into());
                let knows = if c.r.chance(1, 2) { sv(&["blksize", "windowsize"]) } else { vec![] };
                let force = if c.r.chance(1, 3) { vec![("tsize".to_string(), c.r.below(limit + 1).to_string())] } else { vec![] };
                let fresh_port = c.r.chance(1, 2);
                let lies = !force.is_empty();
                c.rfc_server("server", SRV, RfcServer { knows, force, fresh_port, ..Default::default() });
                let p = c.down("client", 2, &o, size, "f.bin", StartAt::At(20_000));
                if lies && !over {
                    c.sc.expects.retain(|e| !matches!(e, Expect::MustOk(_)));
                }
                p
            };
            if over {
                c.expect(Expect::MustFail(p));
            } else if c.sc.procs[0].name == "server" && matches!(c.sc.procs[0].prog, Prog::Bin(_)) {
                c.must(p);
            }
            c.expect(Expect::MaxLen { path: "c2/client.out".into(), max: limit });
        }
    }
    c.sc.end_us = 100 * SEC;
}

// ---------------------------------------------------------------- C10
pub fn authorized(c: &mut Cx) {
    c.calm();
    c.bumpy();
    c.sc.net.drop_ppm = 0;
    c.preempt();
    let mut so = c.srv();
    so.overwrite = c.r.chance(1, 2);
    let pc = Cx::wants_port_change(&so);
    let ks = c.r.range(1, 4);
    let mut text = String::from("# keys\n\n");
    for k in 0..ks {
        text += &format!("{}\n", key(200 + k).public);
    }
    c.sc.file("keys", FileKind::Text(text));
    so.extra.push("--authorized-keys=keys".into());
    let mut silent = c.r.chance(1, 3);
    if silent {
        so.extra.push("--error-to-authorized-only".into());
    }
    if c.r.chance(1, 4) {
        so.extra.push("--directory-list=dir.txt".into());
    }
    if !so.extra.iter().any(|x| x.starts_with("--private-key")) {
        so.extra.push(format!("--private-key={}", key(1).private));
    }
    // required by default when there are authorized keys
    let full = c.r.chance(1, 4);
    if !full {
        so.extra.push("--require-full-encryption=false".into());
    } else {
        // the default when full encryption is required
        silent = true;
        if c.r.chance(1, 2) {
            so.extra.push("--require-full-encryption".into());
        }
    }
    so.request_timeout = Some(3_000);
    let s = c.server(&so);
    let fs = c.r.next();
    c.sc.data("srv/secret.bin", fs, 3000);
    let mut legit = 0;
    let member = key(200 + c.r.below(ks));
    let kind = c.r.below(7);
    let up = c.r.chance(1, 2);
    let remote = if up { "atk.bin" } else { "secret.bin" };
    let mut attacker = true;
    let ext = |o: &mut Vec<(String, String)>, k: &str, v: &str| o.push((k.to_string(), v.to_string()));
    let sess = |n: u64| b64(&crate::util::content(0x7777 ^ n, 32));
    match kind {
        // the shipped client without or with another key
        0 | 1 => {
            c.note(if kind == 0 { "no-key" } else { "unlisted-key" });
            let mut o = c.cli();
            o.private = (kind == 1).then(|| key(300).private);
            if kind == 1 && c.r.chance(1, 2) {
                o.level = Some((*c.r.pick(&["protocol", "data", "optional-protocol"])).into());
            }
            if c.r.chance(1, if full { 1 } else { 3 }) {
                o.server_public = Some(key(1).public);
                if full && c.r.chance(2, 3) {
                    o.level = Some("protocol".into());
                }
            }
            o.port_change = pc;
            o.retry = None;
            o.request_timeout = Some(3_000);
            let p = if up {
                c.up("attacker", 9, &o, 2000, remote, StartAt::At(20_000), false)
            } else {
                c.down("attacker", 9, &o, 3000, remote, StartAt::At(20_000))
            };
            c.expect(Expect::MustFail(p));
        }
        // handmade requests
        2 | 3 => {
            c.note("handmade");
            let mut o = vec![];
            if c.r.chance(3, 4) {
                let l = *c.r.pick(&["none", "data", "protocol", "full", "optional-data", "optional-protocol", "x", ""]);
                ext(&mut o, "enclevel", l);
            }
            let k1 = sess(c.r.below(3));
            if c.r.chance(3, 4) {
                ext(&mut o, "spubk", &k1);
            }
            let apub = match c.r.below(4) {
                0 => member.public.clone(),
                1 => key(300).public,
                2 => b64(&crate::util::content(c.r.next(), 32)),
                _ => String::new(),
            };
            if !apub.is_empty() {
                ext(&mut o, "apubk", &apub);
            }
            if c.r.chance(2, 3) {
                use ed25519_dalek::Signer;
                let by = |n: u64, d: &[u8]| {
                    let seed: [u8; 32] = crate::util::content(0x6b65_7900 ^ n, 32).try_into().unwrap();
                    b64(&ed25519_dalek::SigningKey::from_bytes(&seed).sign(d).to_bytes())
                };
                let raw = crate::util::content(0x7777, 32);
                let sig = match c.r.below(5) {
                    0 => b64(&crate::util::content(c.r.next(), 64)),
                    1 => b64(&[0u8; 64]),
                    // own key signs, a listed key is claimed
                    2 => by(300, &crate::util::content(0x7777 ^ 1, 32)),
                    3 => by(300, &raw),
                    // a genuine signature of the listed key over something else
                    _ => by(200, b"something else that was signed!!"),
                };
                ext(&mut o, "sig", &sig);
            }
            if c.r.chance(1, 3) {
                let b = c.block();
                ext(&mut o, "blksize", &b.to_string());
            }
            if c.r.chance(1, 4) {
                // the same option twice
                let d = o.first().cloned();
                o.extend(d);
            }
            let k = c.r.below(o.len() as u64 + 1) as usize;
            if !o.is_empty() {
                let l = o.len();
                o.rotate_left(k % l);
            }
            let fs = c.r.next();
            c.sc.data("ref/atk", fs, 1500);
            let r = RfcClient { up, remote: remote.into(), file: if up { "ref/atk".into() } else { "c9/out".into() }, opts: o, give_up_us: 2 * SEC, ..Default::default() };
            let p = c.rfc("attacker", 9, r, StartAt::At(20_000), true);
            c.expect(Expect::MustFail(p));
        }
        // the request of a holder is changed on the way
        4 | 5 => {
            c.note("on-path");
            let mut o = c.cli();
            o.private = Some(if kind == 4 { member.private.clone() } else { key(300).private });
            o.level = Some((*c.r.pick(&["protocol", "data", "optional-protocol", "optional-data"])).into());
            o.port_change = pc;
            o.retry = None;
            o.request_timeout = Some(3_000);
            let (k, w): (&str, String) = match c.r.below(if kind == 4 { 6 } else { 4 }) {
                0 => ("drop-opt", "sig".into()),
                1 => ("set-opt", format!("apubk={}", key(200 + c.r.below(ks)).public)),
                2 => ("drop-opt", "apubk".into()),
                3 => ("set-opt", "enclevel=none".into()),
                4 => ("drop-opt", "enclevel,spubk".into()),
                _ => ("set-opt", format!("spubk={}", sess(1))),
            };
            // a listed key that already is the client's changes nothing
            let same = w == format!("apubk={}", member.public) && kind == 4;
            c.sc.mitm = Some(MitmSpec { kind: k.into(), a: 9, b: SRV, n: 1, m: 0, s: w, ppm: 0 });
            let p = if up {
                c.up("attacker", 9, &o, 2000, remote, StartAt::At(20_000), false)
            } else {
                c.down("attacker", 9, &o, 3000, remote, StartAt::At(20_000))
            };
            if same && !full {
                attacker = false;
                legit += 1;
            } else {
                c.expect(Expect::MustFail(p));
            }
        }
        // junk
        _ => {
            c.note("junk");
            let f = Fuzz { target: SRV, port: PORT, n: 60, gap_us: 2_000, seed: c.r.next(), watch: vec![], kinds: sv(&["junk", "session", "crypt", "crypt"]), names: sv(&["secret.bin", "atk.bin", "dir.txt"]), server_key: Some(1) };
            c.fuzz("attacker", 9, f, StartAt::At(20_000));
        }
    }
    if attacker {
        c.expect(Expect::NoOpenOk { p: s, under: remote.into() });
        if kind == 6 {
            c.expect(Expect::NoOpenOk { p: s, under: "secret.bin".into() });
        }
        if silent {
            c.note("silent");
            c.expect(Expect::Silent { from: SRV, to: 9 });
        }
    }
    c.expect(Expect::Absent("srv/atk.bin".into()));
    if !attacker {
        c.sc.expects.retain(|e| !matches!(e, Expect::Absent(_)));
    }
    c.expect(Expect::NoLeak { srcs: vec!["srv/secret.bin".into()], texts: vec![], hosts: vec![SRV] });
    // a holder is served, at the same time or afterwards
    if c.r.chance(2, 3) {
        let mut o = c.cli();
        o.private = Some(member.private.clone());
        if o.level.as_deref() == Some("none") || full {
            o.level = Some("protocol".into());
        }
        if full || c.r.chance(1, 3) {
            o.server_public = Some(key(1).public);
        }
        o.port_change = pc;
        o.retry = None;
        let at = *c.r.pick(&[20_000, 500_000, 5_000_000]);
        let up2 = c.r.chance(1, 2);
        let p = c.xfer(up2, "holder", 3, &o, 4000, "mine.bin", StartAt::At(at));
        c.must(p);
        legit += 1;
    }
    c.expect(Expect::MaxSessions { p: s, n: legit });
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.sc.end_us = 60 * SEC;
}

// ---------------------------------------------------------------- C11
pub fn secrecy(c: &mut Cx) {
    c.calm();
    c.bumpy();
    c.preempt();
    let kind = c.r.below(6);
    let up = c.r.chance(1, 2);
    let mut so = c.srv();
    so.overwrite = c.r.chance(1, 2);
    so.extra.retain(|x| !x.starts_with("--private-key"));
    if c.r.chance(1, 2) || kind >= 3 {
        so.extra.push(format!("--private-key={}", key(1).private));
    }
    let has_key = so.extra.iter().any(|x| x.starts_with("--private-key"));
    let pc = Cx::wants_port_change(&so);
    let mut o = c.cli();
    o.level = Some((*c.r.pick(&["protocol", "data"])).into());
    o.port_change = pc;
    o.retry = None;
    o.request_timeout = Some(5_000);
    let name = "confidential-name.bin";
    let payload = c.payload(o.block.unwrap(), &o.level);
    let size = c.size(payload, o.window.unwrap(), 40).max(16);
    let both = vec![SRV, 2];
    let level = o.level.clone().unwrap();
    let src = c.paths(up, "client", 2, name).0;
    match kind {
        0 => {
            c.note("plain");
            if has_key && c.r.chance(1, 2) {
                o.server_public = Some(key(1).public);
                if level == "data" && o.private.is_none() {
                    // the key is not used by this level alone
                }
            }
            let s = c.server(&so);
            c.xfer(up, "client", 2, &o, size, name, StartAt::At(20_000));
            c.expect(Expect::NoPanic(s));
            if level == "protocol" {
                c.expect(Expect::NoPlain { hosts: vec![2] });
            }
            c.expect(Expect::NonceOnce { hosts: both.clone(), all: level == "protocol" });
        }
        1 => {
            c.note("ignorant-server");
            let knows = match c.r.below(3) {
                0 => vec![],
                1 => sv(&["blksize", "windowsize", "tsize", "timeout"]),
                // echoes what it does not understand
                _ => sv(&["blksize", "windowsize", "tsize", "timeout", "enclevel", "apubk", "sig"]),
            };
            let reject = c.r.chance(1, 3).then(|| *c.r.pick(&[0u16, 4, 8]));
            let force = if c.r.chance(1, 3) { vec![("enclevel".to_string(), "none".to_string())] } else { vec![] };
            let fresh_port = c.r.chance(1, 2);
            c.rfc_server("server", SRV, RfcServer { knows, reject, force, fresh_port, ..Default::default() });
            o.port_change = true;
            if c.r.chance(1, 3) {
                o.server_public = Some(key(1).public);
            }
            let p = c.xfer(up, "client", 2, &o, size, name, StartAt::At(20_000));
            c.expect(Expect::MustFail(p));
            // this server does not encrypt what it sends
            c.expect(Expect::NoLeak { srcs: vec![src], texts: vec![], hosts: vec![2] });
            c.sc.end_us = 60 * SEC;
            return;
        }
        2 => {
            c.note("on-path");
            let s = c.server(&so);
            let dir = c.r.below(3);
            let (k, w): (&str, &str) = match c.r.below(7) {
                0 => ("drop-opt", "enclevel"),
                1 => ("drop-opt", "enclevel,spubk"),
                2 => ("drop-opt", "enclevel,spubk,apubk,sig"),
                3 => ("set-opt", "enclevel=none"),
                4 => ("drop-opt", "*"),
                5 => ("set-opt", "enclevel=data"),
                _ => ("set-opt", "enclevel=optional-data"),
            };
            c.note(format!("{k} {w} {dir}"));
            c.sc.mitm = Some(MitmSpec { kind: k.into(), a: 2, b: SRV, n: dir, m: 0, s: w.into(), ppm: 0 });
            c.xfer(up, "client", 2, &o, size, name, StartAt::At(20_000));
            if level == "protocol" {
                // never less than what was required
                c.expect(Expect::NoPlain { hosts: vec![2] });
            }
            c.expect(Expect::NoPanic(s));
            // who changes the request may ask this server for the file in clear anyway
            c.expect(Expect::NoLeak { srcs: vec![src], texts: vec![], hosts: vec![2] });
            c.sc.end_us = 60 * SEC;
            return;
        }
        3 => {
            c.note("known-key");
            // the reason of a refusal is no less confidential
            let refused = c.r.chance(1, 4);
            if refused {
                c.note("refused");
                so.overwrite = false;
            }
            let s = c.server(&so);
            o.level = Some("protocol".into());
            o.server_public = Some(key(1).public);
            if c.r.chance(1, 3) {
                o.server_public = None;
                c.sc.file("c2/hosts", FileKind::Text(format!("10.0.0.{SRV}:{PORT} {}\n", key(1).public)));
                o.known_hosts = Some("c2/hosts".into());
            }
            if refused {
                let p = if up {
                    c.on_server(name, 100);
                    let x = c.r.next();
                    c.sc.data(&src, x, size);
                    c.send("client", 2, &o, &src, name, StartAt::At(20_000))
                } else {
                    c.sc.dir("c2");
                    c.receive("client", 2, &o, name, "c2/client.out", StartAt::At(20_000))
                };
                c.expect(Expect::MustFail(p));
            } else {
                let p = c.xfer(up, "client", 2, &o, size, name, StartAt::At(20_000));
                if c.sc.net.drop_ppm == 0 {
                    c.must(p);
                }
            }
            c.expect(Expect::NoLeak { srcs: vec![], texts: vec![name.into()], hosts: vec![] });
            c.expect(Expect::NoPlain { hosts: both.clone() });
            c.expect(Expect::NonceOnce { hosts: both.clone(), all: true });
            if refused {
                c.expect(Expect::NoPanic(s));
                c.sc.end_us = 60 * SEC;
                return;
            }
            c.expect(Expect::NoPanic(s));
        }
        _ => {
            c.note("full-required");
            so.extra.push("--require-full-encryption".into());
            let s = c.server(&so);
            let lv = *c.r.pick(&["none", "data", "protocol", "optional-protocol", "optional-data"]);
            o.level = Some(lv.into());
            o.server_public = c.r.chance(1, 2).then(|| key(1).public);
            // the client that knows the key encrypts everything at this level
            let full = lv == "protocol" && o.server_public.is_some();
            let p = c.xfer(up, "client", 2, &o, size, name, StartAt::At(20_000));
            if full {
                if c.sc.net.drop_ppm == 0 {
                    c.must(p);
                }
                c.expect(Expect::NoLeak { srcs: vec![], texts: vec![name.into()], hosts: vec![] });
            } else if !(lv == "optional-protocol" && o.server_public.is_some()) {
                c.expect(Expect::MustFail(p));
                c.expect(Expect::NoOpenOk { p: s, under: name.into() });
            }
            // a standard client gets nothing either
            let r = RfcClient { up: false, remote: "other-secret.bin".into(), file: "c4/out".into(), opts: c.rfc_opts(), give_up_us: 2 * SEC, ..Default::default() };
            c.on_server("other-secret.bin", 2000);
            let q = c.rfc("plain", 4, r, StartAt::At(20_000), true);
            c.expect(Expect::MustFail(q));
            c.expect(Expect::NoOpenOk { p: s, under: "other-secret.bin".into() });
            c.expect(Expect::NoPanic(s));
            c.expect(Expect::NoLeak { srcs: vec!["srv/other-secret.bin".into()], texts: vec![], hosts: vec![] });
            if lv.starts_with("optional") || lv == "none" {
                return;
            }
        }
    }
    c.expect(Expect::NoLeak { srcs: vec![src], texts: vec![], hosts: vec![] });
    c.sc.end_us = 60 * SEC;
}

// ---------------------------------------------------------------- C12
pub fn tampering(c: &mut Cx) {
    c.calm();
    c.preempt();
    let mut so = c.srv();
    // a request can be repeated by anybody who has seen it, which would empty the file again
    so.overwrite = false;
    so.request_timeout = Some(8_000);
    so.extra.retain(|x| !x.starts_with("--private-key"));
    so.extra.push(format!("--private-key={}", key(1).private));
    let pc = Cx::wants_port_change(&so);
    let s = c.server(&so);
    let up = c.r.chance(1, 2);
    let mut o = c.cli();
    let level = *c.r.pick(&["protocol", "protocol", "protocol", "data"]);
    o.level = Some(level.into());
    if level == "protocol" && c.r.chance(1, 3) {
        o.server_public = Some(key(1).public);
    }
    o.port_change = pc;
    o.retry = None;
    o.request_timeout = Some(8_000);
    let payload = c.payload(o.block.unwrap(), &o.level);
    let size = c.size(payload, o.window.unwrap(), 60);
    let kind = c.r.below(5);
    let ppm = *c.r.pick(&[20_000, 100_000, 300_000]);
    let mut m = MitmSpec { kind: "tamper".into(), a: 2, b: SRV, n: 0, m: 0, s: String::new(), ppm };
    let mut heals = ppm <= 100_000;
    if level == "data" {
        // the content of data packets is what this level protects
        m.n = 4;
        m.m = 3;
        c.note("data-tamper");
    } else {
        match kind {
            0 | 1 => c.note("tamper"),
            2 => {
                m.kind = "replay".into();
                m.n = c.r.below(3);
                c.note("replay");
                heals = false;
            }
            3 => {
                m.kind = "reflect".into();
                c.note("reflect");
            }
            _ => {
                c.note("spoof");
                m.ppm = 0;
                let f = Fuzz { target: SRV, port: PORT, n: 60, gap_us: c.sc.net.latency_us + 100, seed: c.r.next(), watch: vec![SRV, 2], kinds: sv(&["spoof", "mutate", "replay"]), names: vec![], server_key: None };
                // an unauthenticated handshake is over by then
                let at = 20_000 + 6 * (c.sc.net.latency_us + c.sc.net.jitter_us) + 5_000;
                let p = c.fuzz("forger", 50, f, StartAt::At(at));
                c.sc.procs[p].fg = false;
                heals = false;
            }
        }
    }
    // a handshake that is encrypted may be damaged until the client gives up repeating it
    if o.server_public.is_some() {
        heals = false;
    }
    c.sc.mitm = Some(m);
    let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(20_000));
    if !up {
        c.expect(Expect::Unchanged("srv/f.bin".into()));
    }
    if heals {
        let (src, dst) = c.paths(up, "client", 2, "f.bin");
        c.expect(Expect::OkBy { p, us: 150 * SEC, after_fault_us: 150 * SEC, excuse: Some((src, dst)) });
    }
    // another session to take packets from
    if c.r.chance(1, 2) {
        let mut o2 = c.cli();
        o2.level = Some(level.into());
        o2.port_change = pc;
        o2.retry = None;
        let up2 = c.r.chance(1, 2);
        let at = 20_000 + c.r.below(200_000);
        c.xfer(up2, "second", 2, &o2, size + 1000, "g.bin", StartAt::At(at));
    }
    c.expect(Expect::NoPanic(s));
    c.expect(Expect::NoPanic(p));
    c.expect(Expect::Alive(s));
    let mut q = CliOpts { level: Some("protocol".into()), port_change: pc, ..Default::default() };
    q.request_timeout = Some(10_000);
    let l = c.xfer(true, "later", 30, &q, 2000, "later.bin", StartAt::After(p, 10 * SEC));
    c.must(l);
    c.sc.end_us = 300 * SEC;
    c.sc.max_steps = 5_000_000;
}

// ---------------------------------------------------------------- C13
pub fn storage(c: &mut Cx) {
    c.calm();
    if c.r.chance(1, 3) {
        c.bumpy();
    }
    c.preempt();
    let up = c.r.chance(1, 2);
    let mut so = c.srv();
    so.request_timeout = Some(5_000);
    let pc = Cx::wants_port_change(&so);
    let mut o = c.cli();
    o.port_change = pc;
    o.retry = None;
    o.request_timeout = Some(5_000);
    if c.enc() && c.r.chance(1, 6) {
        o.file_key = Some(b64(&crate::util::content(99, 32)));
        // a late duplicate of the request starts over with an empty file
        so.overwrite = false;
    }
    let s = c.server(&so);
    let payload = c.payload(o.block.unwrap(), &o.level);
    let size = c.size(payload, o.window.unwrap(), 60);
    let remote = if up { *c.r.pick(&["f.bin", "f.bin", "new/f.bin", "new/deep/er/f.bin"]) } else { "f.bin" };
    let at_rest = o.file_key.is_some();
    let p = if at_rest {
        // only the round trip can be compared
        let local = "c2/client.in".to_string();
        let fs = c.r.next();
        c.sc.data(&local, fs, size);
        c.send("client", 2, &o, &local, remote, StartAt::At(20_000))
    } else {
        c.xfer(up, "client", 2, &o, size, remote, StartAt::At(20_000))
    };
    let side = c.r.chance(2, 3);
    c.sc.io.procs = vec![if side { s } else { p }];
    let where_ = if side { "server" } else { "client" };
    // the data file only, not keys and the like
    c.sc.io.path = if (side && up) || (!side && !up) || side { remote.rsplit('/').next().unwrap_or("f.bin").to_string() } else { "client.".into() };
    if !side {
        c.sc.io.path = "client.".into();
    }
    let blocks = size / payload + 2;
    let kind = c.r.below(6);
    let mut fails = false;
    match kind {
        0 | 1 => {
            c.note(format!("short {where_}"));
            let v = *c.r.pick(&[20_000, 200_000, 900_000]);
            c.sc.io.short_read_ppm = v;
            c.sc.io.short_write_ppm = v;
            c.sc.io.eintr_ppm = *c.r.pick(&[0, 50_000, 300_000]);
            if c.sc.net.drop_ppm == 0 && !at_rest {
                c.must(p);
            }
        }
        2 | 3 => {
            c.note(format!("nth {where_}"));
            let op = *c.r.pick(&["read", "write", "write", "open", "mkdir", "seek"]);
            let n = 1 + c.r.below(match op {
                "open" | "mkdir" => 3,
                _ => blocks.min(40),
            });
            let errno = *c.r.pick(&[5, 28, 13, 122, 4, 30]);
            let sticky = errno != 4 && c.r.chance(1, 2);
            c.sc.io.nth.push(IoNth { op: op.into(), n, errno, sticky });
            if op == "mkdir" {
                c.sc.io.path = String::new();
            }
            if c.r.chance(1, 3) {
                c.sc.io.short_write_ppm = 200_000;
                c.sc.io.short_read_ppm = 200_000;
            }
        }
        4 => {
            c.note(format!("quota {where_}"));
            let q = match c.r.below(4) {
                0 => 0,
                1 => size.saturating_sub(1),
                2 => size.saturating_sub(payload),
                _ => c.r.below(size + 1),
            };
            c.sc.io.disk_quota = Some(q);
            // nowhere to put it
            fails = q < size && (side == up) && !at_rest;
        }
        _ => {
            c.note(format!("errors {where_}"));
            c.sc.io.err_ppm = *c.r.pick(&[5_000, 50_000, 300_000]);
            c.sc.io.short_write_ppm = *c.r.pick(&[0, 100_000]);
            c.sc.io.short_read_ppm = *c.r.pick(&[0, 100_000]);
        }
    }
    if fails {
        c.expect(Expect::MustFail(p));
    }
    if at_rest {
        let mut o2 = o.clone();
        o2.prefer_seek = false;
        c.sc.dir("c3");
        let q = c.receive("back", 3, &o2, remote, "c3/back.out", StartAt::After(p, 5_000));
        c.expect(Expect::AtRest { p, src: "c2/client.in".into(), dst: format!("srv/{remote}") });
        // what comes back is what was sent, whenever both said so
        c.sc.expects.push(Expect::OkBoth { p, q, src: "c2/client.in".into(), dst: "c3/back.out".into() });
    } else if !up {
        c.expect(Expect::Unchanged("srv/f.bin".into()));
    }
    let n2 = CliOpts { port_change: pc, level: c.enc().then(|| "none".into()), ..Default::default() };
    let q = c.up("later", 30, &n2, 2000, "later-data", StartAt::After(p, 8 * SEC), !so.overwrite);
    if kind != 4 && c.sc.net.drop_ppm == 0 && !c.sc.io.path.is_empty() {
        c.must(q);
    }
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.expect(Expect::NoPanic(p));
    c.expect(Expect::Released { p: s });
    c.sc.grace_us = 12 * SEC;
    c.sc.end_us = 100 * SEC;
}

// ---------------------------------------------------------------- C14
pub fn names(c: &mut Cx) {
    c.calm();
    c.preempt();
    let mut so = c.srv();
    so.overwrite = c.r.chance(1, 2);
    let pc = Cx::wants_port_change(&so);
    if c.r.chance(1, 2) {
        so.extra.push("--directory-list=dir.txt".into());
    }
    let mut depth = 10;
    if c.r.chance(1, 3) {
        depth = c.r.below(4);
        so.extra.push(format!("--max-directory-depth={depth}"));
    }
    so.dir = Some((*c.r.pick(&["srv", "srv/", "./srv", "top/../srv", "srv/sub/.."])).into());
    so.request_timeout = Some(3_000);
    c.sc.dir("srv/sub/deep");
    c.sc.dir("top");
    c.sc.dir("outside/inner");
    c.sc.dir("srv-private");
    let s = c.server(&so);
    for (p, n) in [("outside/secret.bin", 900), ("outside/inner/secret.bin", 700), ("srv-private/secret.bin", 800), ("secret.bin", 600)] {
        let x = c.r.next();
        c.sc.data(p, x, n);
    }
    let x = c.r.next();
    c.sc.data("srv/good.bin", x, 2000);
    c.sc.data("srv/plain.bin", x ^ 2, 2000);
    c.sc.data("srv/sub/good.bin", x ^ 1, 2000);
    for (l, t) in [
        ("srv/link", "../outside"),
        ("srv/flink", "../outside/secret.bin"),
        ("srv/dangling", "../outside/new.bin"),
        ("srv/dangledir", "../outside/newdir"),
        ("srv/loop", "loop"),
        ("srv/self", "."),
        ("srv/up", ".."),
        ("srv/inlink", "sub"),
        ("srv/infile", "sub/good.bin"),
        ("srv/etc", "/etc"),
        ("srv/sub/link2", "../link"),
        ("srv/sub/new2", "../../outside/inner/n2.bin"),
        ("srv/chain", "flink"),
        ("srv/lostchain", "dangling"),
        ("srv/side", "../srv-private"),
        ("srv/sub/sidefile", "../../srv-private/secret.bin"),
        ("srv/newside", "../srv-private/new.bin"),
    ] {
        if c.r.chance(2, 3) {
            c.sc.file(l, FileKind::Link(t.into()));
        }
    }
    let part = ["..", ".", "", "sub", "link", "flink", "dangling", "dangledir", "loop", "self", "up", "inlink", "infile", "etc", "link2", "new2", "chain", "lostchain", "deep", "outside", "srv", "srv-private",
        "secret.bin", "good.bin", "new.bin", "x", " ", "...", "..;", "%2e%2e", "..\\", "\\..\\outside", "inner", "passwd", "dir.txt", "c:", "~", "newdir", "hostname", ".. ", " ..", "\t..", "\u{2024}\u{2024}", "-rf"];
    let n = c.r.range(3, 14);
    let mut prev: Option<usize> = None;
    for i in 0..n {
        let k = c.r.range(1, 6);
        let mut name = String::new();
        if c.r.chance(1, 4) {
            name.push('/');
        }
        for j in 0..k {
            if j > 0 {
                name.push('/');
            }
            name += *c.r.pick(&part);
        }
        // what would be there
        if c.r.chance(1, 2) {
            let w = [
                "link/secret.bin", "link/inner/secret.bin", "link/dir.txt", "link/inner/dir.txt", "link/new.bin", "link/newdir/x", "flink", "chain", "dangling", "lostchain", "dangledir/x",
                "side/secret.bin", "side/dir.txt", "side/new.bin", "sub/sidefile", "newside", "up/secret.bin", "up/dir.txt", "up/outside/secret.bin", "up/srv-private/secret.bin", "up/new.bin",
                "up/srv/good.bin", "sub/link2/secret.bin", "sub/link2/new.bin", "sub/new2", "self/link/secret.bin", "self/self/up/secret.bin", "etc/hostname", "etc/passwd", "../secret.bin",
                "../outside/secret.bin", "../srv-private/secret.bin", "../srv-private/new.bin", "../new.bin", "../dir.txt", "../srv-private/dir.txt", "../outside/dir.txt", "sub/../../secret.bin",
                "sub/../../new.bin", "inlink/../../secret.bin", "link/../secret.bin", "/etc/hostname", "/etc/passwd", "sub/deep/../../../outside/new.bin", "x/../../outside/new.bin", "loop/x",
            ];
            name = (*c.r.pick(&w)).into();
        }
        match c.r.below(8) {
            0 => name.push('/'),
            1 => name = format!("/{name}"),
            2 => name = format!("{name}/secret.bin"),
            3 if c.r.chance(1, 3) => name = "a/".repeat(c.r.range(1, 80) as usize) + "x",
            4 if c.r.chance(1, 3) => name = "n".repeat(c.r.range(100, 600) as usize),
            _ => {}
        }
        // deeper than allowed, and just not
        let deep = c.r.chance(1, 12).then(|| {
            let over = c.r.chance(1, 2);
            let k = if over { depth + c.r.range(1, 3) } else { c.r.below(depth + 1) };
            name = format!("{}deep{i}.bin", format!("d{i}/").repeat(k as usize));
            over
        });
        let up = deep.is_some() || c.r.chance(1, 2);
        let start = match prev {
            Some(p) if c.r.chance(3, 4) => StartAt::After(p, 1_000),
            _ => StartAt::At(20_000 + i * 1000),
        };
        let host = 2 + i as u32;
        let p = if c.r.chance(1, 4) && !name.is_empty() {
            let o = CliOpts { port_change: pc, request_timeout: Some(3_000), level: c.enc().then(|| "optional-protocol".into()), ..Default::default() };
            c.sc.dir(&format!("c{host}"));
            if up {
                let local = format!("c{host}/in");
                let x = c.r.next();
                c.sc.data(&local, x, 300);
                c.send(&format!("client{i}"), host, &o, &local, &name, start)
            } else {
                c.receive(&format!("client{i}"), host, &o, &name, &format!("c{host}/out"), start)
            }
        } else {
            let x = c.r.next();
            c.sc.data(&format!("ref/{i}"), x, 300);
            let r = RfcClient { up, remote: name, file: if up { format!("ref/{i}") } else { format!("c{host}/out") }, give_up_us: 3 * SEC, ..Default::default() };
            c.rfc(&format!("client{i}"), host, r, start, true)
        };
        match deep {
            Some(true) => {
                c.expect(Expect::MustFail(p));
                c.expect(Expect::Absent(format!("srv/d{i}")));
            }
            Some(false) => c.must(p),
            _ => {}
        }
        prev = Some(p);
    }
    // plain names keep working
    let o = CliOpts { port_change: pc, level: c.enc().then(|| "none".into()), ..Default::default() };
    let q = c.down("good", 40, &o, 2000, "plain.bin", StartAt::At(15_000));
    c.must(q);
    let q = c.up("later", 41, &o, 1000, "later.bin", StartAt::After(prev.unwrap(), SEC), true);
    c.must(q);
    c.expect(Expect::Confined { p: s, dir: "srv".into(), allow: vec![] });
    c.expect(Expect::TreeIntact { dirs: { let mut v = vec!["srv".to_string()]; v.extend((2..60).map(|h| format!("c{h}"))); v } });
    c.expect(Expect::NoLeak { srcs: sv(&["outside/secret.bin", "outside/inner/secret.bin", "srv-private/secret.bin", "secret.bin"]), texts: vec![], hosts: vec![SRV] });
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.sc.end_us = 200 * SEC;
}

// ---------------------------------------------------------------- C15
pub fn races(c: &mut Cx) {
    c.calm();
    c.bumpy();
    c.preempt();
    let mut so = c.srv();
    so.overwrite = false;
    so.request_timeout = Some(3_000);
    let pc = Cx::wants_port_change(&so);
    let s = c.server(&so);
    let kind = c.r.below(4);
    c.note(["existing", "race", "crash", "two-servers"][kind as usize]);
    let name = *c.r.pick(&["f.bin", "f.bin", "sub/f.bin", "new/dir/f.bin"]);
    let path = format!("srv/{name}");
    let existing = kind == 0 || (kind == 3 && c.r.chance(1, 4));
    let esize = *c.r.pick(&[0, 1, 700, 5000]);
    if existing {
        c.on_server(name, esize);
    } else if name.starts_with("sub") {
        c.sc.dir("srv/sub");
    }
    let two = kind == 3;
    let mut second = None;
    if two {
        let mut a = vec!["server".to_string(), "10.0.0.8:69".into(), "srv".into(), "--request-timeout".into(), "3000".into()];
        a.extend(so.extra.iter().filter(|x| !x.starts_with("--private")).cloned());
        second = Some(c.sc.proc("server2", 8, Prog::Bin(a), StartAt::At(0), false));
    }
    let n = c.r.range(2, 4);
    let base = 20_000;
    let spread = *c.r.pick(&[0, 50, 1_000, 30_000]);
    let mut pairs = vec![];
    for i in 0..n {
        let host = 2 + i as u32;
        let at = StartAt::At(base + c.r.below(spread + 1));
        let mut o = c.cli();
        o.port_change = pc;
        o.retry = None;
        o.request_timeout = Some(4_000);
        if two && i % 2 == 1 {
            o.endpoint = Some("10.0.0.8:69".into());
            o.server_public = None;
        }
        let payload = c.payload(o.block.unwrap(), &o.level);
        let size = c.size(payload, o.window.unwrap(), 20);
        let src;
        let p = if c.r.chance(1, 3) {
            src = format!("ref/{i}");
            let x = c.r.next();
            c.sc.data(&src, x, size);
            let opts = c.rfc_opts();
            let copies = c.r.range(1, 2) as u32;
            let r = RfcClient { up: true, server: if two && i % 2 == 1 { 8 } else { SRV }, remote: name.into(), file: src.clone(), opts, copies, give_up_us: 4 * SEC, ..Default::default() };
            c.rfc(&format!("client{i}"), host, r, at, true)
        } else {
            src = format!("c{host}/client{i}.in");
            c.up(&format!("client{i}"), host, &o, size, name, at, true)
        };
        if existing {
            c.expect(Expect::MustFail(p));
        }
        pairs.push((p, src));
    }
    if kind == 2 {
        let at = base + c.r.below(60_000);
        c.sc.timeline.push(Timed { at_us: at, act: Act::Kill(s) });
        c.sc.timeline.push(Timed { at_us: at + c.r.range(10_000, 2_000_000), act: Act::Start(s) });
        // one more after the restart
        let o = CliOpts { port_change: pc, request_timeout: Some(4_000), level: c.enc().then(|| "none".into()), ..Default::default() };
        let at = base + 3 * SEC;
        let p = c.up("late", 20, &o, 3000, name, StartAt::At(at), true);
        pairs.push((p, "c20/late.in".into()));
    }
    let initial = existing.then(|| path.clone());
    if existing {
        c.expect(Expect::Unchanged(path.clone()));
    }
    c.expect(Expect::WinnerIs { path, pairs, initial });
    c.expect(Expect::NoPanic(s));
    if let Some(q) = second {
        c.expect(Expect::NoPanic(q));
    }
    c.expect(Expect::Alive(s));
    c.sc.end_us = 60 * SEC;
}
