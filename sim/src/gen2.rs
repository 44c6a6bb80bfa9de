//! Generators for transfers over time: wrap, liveness, isolation, limits, crashes, clocks, port reuse.
use crate::gen::*;
use crate::peers::{Fuzz, Peer, RfcClient};
use crate::scen::*;

pub const SEC: u64 = 1_000_000;
pub const MSEC: u64 = 1_000;

impl Cx {
    /// upload by the shipped client with the integrity expectations
    pub fn up(&mut self, n: &str, host: u32, o: &CliOpts, size: u64, remote: &str, start: StartAt, at_end: bool) -> usize {
        let local = format!("c{host}/{n}.in");
        let fseed = self.r.next();
        self.sc.data(&local, fseed, size);
        let p = self.send(n, host, o, &local, remote, start);
        self.sc.expects.push(Expect::OkExact { p, src: local.clone(), dst: format!("srv/{remote}"), at_end });
        self.sc.expects.push(Expect::OkCount { p, src: local });
        p
    }
    /// make a file on the server unless it is there
    pub fn on_server(&mut self, remote: &str, size: u64) -> String {
        let path = format!("srv/{remote}");
        if !self.sc.files.iter().any(|f| f.path == path) {
            let fseed = self.r.next();
            self.sc.data(&path, fseed, size);
        }
        path
    }
    pub fn down(&mut self, n: &str, host: u32, o: &CliOpts, size: u64, remote: &str, start: StartAt) -> usize {
        let path = self.on_server(remote, size);
        let local = format!("c{host}/{n}.out");
        self.sc.dir(&format!("c{host}"));
        let p = self.receive(n, host, o, remote, &local, start);
        self.sc.expects.push(Expect::OkExact { p, src: path.clone(), dst: local, at_end: true });
        self.sc.expects.push(Expect::OkCount { p, src: path });
        p
    }
    pub fn xfer(&mut self, up: bool, n: &str, host: u32, o: &CliOpts, size: u64, remote: &str, start: StartAt) -> usize {
        if up {
            // a late copy of the request may replace the file once the session is over (and only a server that allows it)
            let fixed = !self.sc.procs.iter().any(|p| matches!(&p.prog, Prog::Bin(a) if a.iter().any(|x| x == "--allow-overwrite")));
            self.up(n, host, o, size, remote, start, fixed)
        } else {
            self.down(n, host, o, size, remote, start)
        }
    }
    pub fn paths(&self, up: bool, n: &str, host: u32, remote: &str) -> (String, String) {
        if up {
            (format!("c{host}/{n}.in"), format!("srv/{remote}"))
        } else {
            (format!("srv/{remote}"), format!("c{host}/{n}.out"))
        }
    }
    pub fn must(&mut self, p: usize) {
        self.sc.expects.push(Expect::MustOk(p));
    }
    pub fn expect(&mut self, e: Expect) {
        self.sc.expects.push(e);
    }
    /// a client of the standard
    pub fn rfc(&mut self, n: &str, host: u32, c: RfcClient, start: StartAt, fg: bool) -> usize {
        let mut c = c;
        if c.server == 0 {
            c.server = SRV;
        }
        if c.port == 0 {
            c.port = PORT;
        }
        if c.retry_us == 0 {
            c.retry_us = 200 * MSEC;
        }
        if c.give_up_us == 0 {
            c.give_up_us = 15 * SEC;
        }
        self.sc.dir(&format!("c{host}"));
        self.sc.proc(n, host, Prog::Peer(Peer::Client(c)), start, fg)
    }
    pub fn rfc_opts(&mut self) -> Vec<(String, String)> {
        let mut v = vec![];
        if self.r.chance(1, 2) {
            v.push(("blksize".to_string(), self.block().to_string()));
        }
        if self.r.chance(1, 2) {
            let w = self.window().min(self.max_window());
            v.push(("windowsize".to_string(), w.to_string()));
        }
        if self.r.chance(1, 3) {
            v.push(("timeout".to_string(), self.r.range(1, 3).to_string()));
        }
        v
    }
    /// a calm network
    pub fn calm(&mut self) {
        let r = &mut self.r;
        self.sc.net.latency_us = *r.pick(&[20, 100, 100, 500, 2000, 10_000]);
        if r.chance(1, 2) {
            self.sc.net.jitter_us = r.below(self.sc.net.latency_us / 2 + 1);
        }
    }
    /// pre-emption without stalls
    pub fn preempt(&mut self) {
        let r = &mut self.r;
        self.sc.sched.preempt_ppm = *r.pick(&[0, 2_000, 30_000, 200_000]);
        self.sc.sched.quantum_us = *r.pick(&[10, 40, 200]);
    }
    /// rough duration of a transfer without faults
    pub fn estimate(&self, o: &CliOpts, size: u64) -> u64 {
        let payload = self.payload(o.block.unwrap_or(1425), &o.level);
        let blocks = size / payload + 1;
        let w = o.window.unwrap_or(if self.stack() { 4 } else { 8 }).max(1);
        let rtt = 2 * (self.sc.net.latency_us + self.sc.net.jitter_us) + 1000;
        (blocks / w + 3) * rtt + blocks * 300
    }
}

pub fn wrap(c: &mut Cx) {
    let up = c.r.chance(1, 2);
    c.note(if up { "upload" } else { "download" });
    let mut so = c.srv();
    so.overwrite = true;
    let mut o = CliOpts { block: Some(512), level: c.enc().then(|| "none".to_string()), max_file_size: Some(200_000_000), prefer_seek: c.r.chance(1, 2), ..Default::default() };
    o.window = Some(if c.stack() { *c.r.pick(&[8, 16, 15]) } else { *c.r.pick(&[8, 16, 31, 64, 200, 777, 1000]) });
    if so.extra.iter().any(|x| x == "--require-server-port-change") {
        o.port_change = true;
    }
    so.extra.push("--max-file-size=400000000".into());
    let wraps = if c.deep { c.r.range(1, 3) } else { 1 };
    let blocks = match c.r.below(4) {
        // the last block lies around the wrap
        0 => 65536 * wraps + c.r.below(5) - 2,
        1 => 65536 * wraps + c.r.below(2 * o.window.unwrap() + 2),
        _ => 65536 * wraps + c.r.range(100, 1500),
    };
    let size = blocks * 512 - *c.r.pick(&[0, 1, 100, 511, 512]);
    c.sc.net.latency_us = *c.r.pick(&[20, 50, 100]);
    {
        let n = &mut c.sc.net;
        n.near_wrap = 400;
        n.drop_ppm = *c.r.pick(&[0, 5_000, 30_000]);
        n.dup_ppm = *c.r.pick(&[0, 50_000, 300_000]);
        n.delay_ppm = *c.r.pick(&[0, 20_000, 100_000]);
        n.delay_max_us = *c.r.pick(&[200, 2_000, 20_000]);
        n.rxq_bytes = 4_000_000;
    }
    c.sc.sched.cost_ns = 400;
    c.desc(&o, size);
    let s = c.server(&so);
    let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(20_000));
    // around the wrap nothing may be lost for good
    c.must(p);
    c.expect(Expect::NoPanic(s));
    c.sc.max_steps = 40_000_000;
    c.sc.end_us = 400 * SEC;
}

pub fn liveness(c: &mut Cx) {
    let up = c.r.chance(1, 2);
    let mut so = c.srv();
    so.overwrite = c.r.chance(1, 2);
    let mut o = c.cli();
    if so.extra.iter().any(|x| x == "--require-server-port-change") {
        o.port_change = true;
    }
    let kind = c.r.below(7);
    let (mut rs, mut rc) = *c.r.pick(&[(15_000, 15_000), (15_000, 15_000), (4_000, 4_000), (4_000, 15_000), (15_000, 5_000), (30_000, 30_000)]);
    if kind == 6 {
        (rs, rc) = *c.r.pick(&[(2_000, 2_000), (2_000, 15_000), (15_000, 2_000)]);
        o.window = Some(*c.r.pick(&[1, 1, 2, 4]));
    }
    so.request_timeout = Some(rs);
    o.request_timeout = Some(rc);
    let rmin = rs.min(rc);
    o.retry = c.r.chance(1, 3).then(|| *c.r.pick(&[80, 100, 250, 1000])).map(|x: u64| x.min(rmin / 15).max(80));
    c.calm();
    // a packet that overtakes another is a fault that would never stop
    c.sc.net.jitter_us = 0;
    if c.r.chance(1, 4) {
        c.sc.net.latency_us = 30_000;
    }
    c.preempt();
    let payload = c.payload(o.block.unwrap(), &o.level);
    let w = o.window.unwrap();
    let size = if kind == 6 { payload * c.r.range(250, 500) } else { c.size(payload, w, 60) };
    let est = c.estimate(&o, size);
    let start = 20_000;
    // what is repeated is repeated after twice the time
    let budget = rmin * MSEC * 42 / 100;
    let s = c.server(&so);
    let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(start));
    let mut excuse = up;
    let mut slack = rmin * MSEC * 6 / 10 + 3 * SEC + 3 * est;
    let mid = |c: &mut Cx| start + c.r.below(est + est / 4 + 10_000);
    match kind {
        0 | 1 => {
            // a few packets only
            c.note("few");
            let n = &mut c.sc.net;
            n.max_faults = c.r.range(1, 3);
            n.drop_ppm = *c.r.pick(&[1_000_000, 300_000, 50_000]);
            let dup = c.r.chance(1, 4);
            if dup {
                // nothing is lost
                n.drop_ppm = 0;
                n.dup_ppm = *c.r.pick(&[1_000_000, 300_000]);
                n.delay_max_us = c.r.range(100, est + 10_000);
            }
            match if dup && c.r.chance(1, 2) { 0 } else { c.r.below(6) } {
                0 => n.only_ops = vec![1, 2],
                1 => n.only_ops = vec![6],
                2 => n.only_ops = vec![4],
                3 => n.only_ops = vec![3],
                _ => {}
            }
            n.from_us = if c.r.chance(1, 3) { 0 } else { start + c.r.below(est + 1) };
            // one lost packet never costs the last acknowledgement
            excuse = up && (n.max_faults > 1 || o.retry.unwrap_or(80) > 250);
            slack = 6 * SEC + 3 * est + 4 * o.retry.unwrap_or(80) * MSEC;
            if dup {
                c.note("dup");
            }
        }
        2 => {
            c.note("outage");
            let at = mid(c);
            let d = c.r.range(1, budget);
            let (a, b) = if c.r.chance(1, 2) { (1, 2) } else { (2, 1) };
            c.sc.timeline.push(Timed { at_us: at, act: Act::Cut(a, b) });
            if c.r.chance(2, 3) {
                c.sc.timeline.push(Timed { at_us: at, act: Act::Cut(b, a) });
            }
            c.sc.timeline.push(Timed { at_us: at + d, act: Act::HealAll });
        }
        3 => {
            c.note("stall");
            let at = mid(c);
            let d = c.r.range(1, budget);
            let q = if c.r.chance(1, 2) { s } else { p };
            c.sc.timeline.push(Timed { at_us: at, act: Act::Stall(q, d) });
        }
        6 => {
            // loss without end, but never twice in a row
            c.note("sparse");
            let n = &mut c.sc.net;
            n.drop_ppm = 1_000_000;
            n.gap = 8 + 6 * w;
            n.from_us = start;
            slack = 6 * SEC + 3 * est + 60 * SEC;
            excuse = up;
        }
        4 => {
            c.note("lossy");
            let n = &mut c.sc.net;
            n.drop_ppm = *c.r.pick(&[100_000, 300_000, 600_000]);
            n.dup_ppm = *c.r.pick(&[0, 200_000]);
            n.delay_ppm = *c.r.pick(&[0, 200_000]);
            n.delay_max_us = *c.r.pick(&[1_000, 50_000, 200_000]);
            n.until_us = start + budget.min(c.r.range(100_000, 6 * SEC));
        }
        _ => {
            c.note("outages");
            let mut at = mid(c);
            let k = c.r.range(2, 5);
            for _ in 0..k {
                let d = c.r.range(1, budget / k);
                if at + d > start + budget {
                    break;
                }
                c.sc.timeline.push(Timed { at_us: at, act: Act::Cut(1, 2) });
                c.sc.timeline.push(Timed { at_us: at, act: Act::Cut(2, 1) });
                c.sc.timeline.push(Timed { at_us: at + d, act: Act::HealAll });
                at += d + c.r.below(est + 100_000);
            }
        }
    }
    c.desc(&o, size);
    let (src, dst) = c.paths(up, "client", 2, "f.bin");
    c.expect(Expect::OkBy { p, us: start + est * 3 + 3 * SEC, after_fault_us: slack, excuse: excuse.then_some((src, dst)) });
    c.expect(Expect::NoPanic(s));
    c.sc.end_us = 300 * SEC;
}

pub fn vanish(c: &mut Cx) {
    let kind = c.r.below(8);
    let mut so = c.srv();
    let mut o = c.cli();
    if so.extra.iter().any(|x| x == "--require-server-port-change") {
        o.port_change = true;
    }
    let rs = *c.r.pick(&[1_500u64, 3_000, 15_000]);
    let rc = *c.r.pick(&[1_500u64, 3_000, 15_000]);
    so.request_timeout = Some(rs);
    o.request_timeout = Some(rc);
    if o.retry.is_some_and(|x| x > rc / 3) {
        o.retry = None;
    }
    c.calm();
    c.preempt();
    let payload = c.payload(o.block.unwrap(), &o.level);
    let size = c.size(payload, o.window.unwrap(), 120);
    let est = c.estimate(&o, size);
    let start = 300 * MSEC;
    let up = c.r.chance(1, 2);
    // whatever happens, a client ends within its timeout of the last moment anything could reach it
    let slack = 4 * SEC;
    match kind {
        0 => {
            c.note("no-server");
            // nobody listens; with and without the notice of that
            let s = c.sc.proc("nobody", SRV, Prog::Peer(Peer::Nop), StartAt::Never, false);
            c.sc.dir("srv");
            c.sc.net.icmp = c.r.chance(1, 2);
            if c.r.chance(1, 2) {
                c.sc.timeline.push(Timed { at_us: 0, act: Act::Cut(2, 1) });
            }
            let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(start));
            c.expect(Expect::MustFail(p));
            c.expect(Expect::EndsWithin { p, us: rc * MSEC + slack });
            c.expect(Expect::NoPanic(p));
            c.expect(Expect::NoPanic(s));
        }
        7 => {
            // stops, or goes on with what it already sent
            c.note("server-repeats");
            let knows = if c.r.chance(1, 2) { vec![] } else { ["blksize", "windowsize", "timeout", "tsize"].map(String::from).to_vec() };
            o.level = c.enc().then(|| "none".into());
            o.private = None;
            o.port_change = true;
            let blocks = size / o.block.unwrap().min(512) + 1;
            let vanish = Some(c.r.below(20).min(blocks.saturating_sub(1)));
            let repeat_us = if up || c.r.chance(1, 4) { 0 } else { c.r.range(20_000, 900_000) };
            let fresh_port = c.r.chance(1, 2);
            c.rfc_server("standard", SRV, crate::peers::RfcServer { knows, vanish, repeat_us, fresh_port, ..Default::default() });
            let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(start));
            c.expect(Expect::EndsWithin { p, us: 2 * est + rc * MSEC + slack });
            c.expect(Expect::NoPanic(p));
        }
        1 | 2 => {
            c.note("server-vanishes");
            let s = c.server(&so);
            let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(start));
            let at = start + c.r.below(est + est / 4 + 1);
            if c.r.chance(1, 2) {
                c.sc.timeline.push(Timed { at_us: at, act: Act::Kill(s) });
                c.sc.net.icmp = c.r.chance(1, 2);
            } else {
                c.sc.timeline.push(Timed { at_us: at, act: Act::Cut(1, 2) });
                if c.r.chance(1, 2) {
                    c.sc.timeline.push(Timed { at_us: at, act: Act::Cut(2, 1) });
                }
                c.expect(Expect::Released { p: s });
            }
            c.expect(Expect::EndsWithin { p, us: at - start + rc * MSEC + slack });
            c.expect(Expect::NoPanic(p));
        }
        _ => {
            let s = c.server(&so);
            let n = c.r.range(1, 3);
            let mut last = start;
            let mut repeats = false;
            for k in 0..n {
                let host = 2 + k as u32;
                let at0 = start + c.r.below(100_000);
                let at = at0 + c.r.below(est + 1);
                last = last.max(at);
                match c.r.below(4) {
                    0 | 1 => {
                        let up = c.r.chance(1, 2);
                        let p = c.xfer(up, &format!("client{k}"), host, &o, size, &format!("f{k}.bin"), StartAt::At(at0));
                        let cut = c.r.chance(1, 2);
                        if cut {
                            c.note("client-cut");
                            c.sc.timeline.push(Timed { at_us: at, act: Act::Cut(1, host) });
                            c.sc.timeline.push(Timed { at_us: at, act: Act::Cut(host, 1) });
                            c.expect(Expect::EndsWithin { p, us: at - at0 + rc * MSEC + slack });
                        } else {
                            c.note("client-killed");
                            c.sc.timeline.push(Timed { at_us: at, act: Act::Kill(p) });
                            c.sc.net.icmp = c.r.chance(1, 3);
                        }
                    }
                    _ => {
                        // keeps its socket but does not answer any more, or only repeats itself
                        let repeat_us = if c.r.chance(1, 2) { c.r.range(20_000, 900_000) } else { 0 };
                        c.note(if repeat_us > 0 { "client-repeats" } else { "client-hangs" });
                        repeats |= repeat_us > 0;
                        let up = c.r.chance(1, 2);
                        let opts = c.rfc_opts();
                        let mut r = RfcClient { up, opts, vanish: Some(c.r.below(20)), hang_us: 600 * SEC, repeat_us, ..Default::default() };
                        if up {
                            r.file = format!("ref/{k}");
                            let fseed = c.r.next();
                            c.sc.data(&r.file.clone(), fseed, size);
                            r.remote = format!("h{k}.bin");
                        } else {
                            r.remote = format!("g{k}.bin");
                            r.file = format!("c{host}/g{k}.out");
                            c.on_server(&r.remote.clone(), size);
                        }
                        c.rfc(&format!("hanging{k}"), host, r, StartAt::At(at0), false);
                    }
                }
            }
            let gone = last + est + rs * MSEC + slack;
            // a new client afterwards is served normally
            let mut o2 = c.cli();
            o2.port_change = o.port_change;
            let up2 = c.r.chance(1, 2);
            let q = c.xfer(up2, "later", 20, &o2, 3000, "later.bin", StartAt::At(gone));
            c.must(q);
            c.expect(Expect::Released { p: s });
            c.expect(Expect::Alive(s));
            if !repeats {
                c.expect(Expect::Quiet { us: 500_000 });
            }
        }
    }
    c.desc(&o, size);
    // longer than the server needs to notice that a client is gone
    c.sc.grace_us = rs * MSEC + 7 * SEC;
    c.sc.end_us = 200 * SEC;
}

/// several clients at once, some of them faulty; the good ones must not notice
pub fn crowd(c: &mut Cx) {
    let mut so = c.srv();
    so.extra.retain(|x| x != "--require-server-port-change");
    so.overwrite = c.r.chance(1, 2);
    so.request_timeout = Some(*c.r.pick(&[3_000, 15_000]));
    c.calm();
    c.sched();
    c.sc.sched.tstall_ppm = c.sc.sched.tstall_ppm.min(100);
    c.sc.sched.tstall_max_us = c.sc.sched.tstall_max_us.min(20_000);
    let s = c.server(&so);
    let good = c.r.range(2, if c.deep { 8 } else { 5 });
    let bad = c.r.below(4);
    c.note(format!("good={good} bad={bad}"));
    let shared = c.r.chance(1, 2);
    let maxb = if c.deep { 150 } else { 50 };
    // an established client that sends without end
    let flood = c.r.chance(1, 30);
    // clients that come and go while another is served
    let tide = !flood && c.r.chance(1, 3);
    let good = if tide { good + c.r.below(5) } else { good };
    let mut all = 0;
    // several on one host, told apart by their ports only
    let together = c.r.chance(1, 3);
    if together {
        c.note("together");
    }
    for k in 0..good {
        let host = if together { 2 + c.r.below(2) as u32 } else { 2 + k as u32 };
        let mut o = c.cli();
        o.retry = None;
        if together && c.r.chance(2, 3) {
            o.listen = Some(format!("10.0.0.{host}:{}", 5000 + 2 * k));
        }
        if !c.stack() {
            o.window = Some(o.window.unwrap().min(32));
        }
        let payload = c.payload(o.block.unwrap(), &o.level);
        let size = c.size(payload, o.window.unwrap(), maxb);
        all += c.estimate(&o, size);
        let at = StartAt::At(20_000 + c.r.below(if tide { 12 * SEC } else { 60_000 }));
        if flood {
            o.request_timeout = Some(1_000);
        }
        let p = if c.r.chance(1, 2) {
            c.up(&format!("good{k}"), host, &o, size, &format!("up{k}.bin"), at, true)
        } else {
            let name = if shared { "shared.bin".to_string() } else { format!("down{k}.bin") };
            c.down(&format!("good{k}"), host, &o, size, &name, at)
        };
        c.must(p);
        c.expect(Expect::EndsWithin { p, us: 0 });
    }
    if tide {
        c.note("tide");
        // slow ones that stay the whole time
        for k in 0..c.r.range(1, 3) {
            let host = if together { 2 } else { 50 + k as u32 };
            let mut opts = vec![("timeout".to_string(), "2".to_string())];
            if c.r.chance(1, 2) {
                opts.push(("windowsize".into(), c.r.range(1, 4).to_string()));
            }
            let slow_us = c.r.range(100_000, 500_000);
            let name = format!("long{k}");
            let size = c.r.range(5_000, 20_000);
            let src = c.on_server(&format!("{name}.bin"), size);
            let dst = format!("c{host}/{name}.out");
            let local_port = if together { 5001 + 2 * c.r.below(good) as u16 + 100 * (k as u16 % 2) } else { 0 };
            let r = RfcClient { up: false, local_port, opts, slow_us, retry_us: 3 * SEC, remote: format!("{name}.bin"), file: dst.clone(), ..Default::default() };
            let at = StartAt::At(20_000 + c.r.below(3 * SEC));
            let p = c.rfc(&name, host, r, at, true);
            c.expect(Expect::IfOkFile { p, src, path: dst });
        }
    }
    if flood {
        c.note("flood");
        let up = c.r.chance(1, 2);
        let mut r = RfcClient { up, opts: c.rfc_opts(), vanish: Some(c.r.range(1, 3)), hang_us: 1_600 * MSEC, repeat_us: c.r.range(200, 500), burst: c.r.range(10, 60) as u32, ..Default::default() };
        let fseed = c.r.next();
        r.remote = "flood.bin".into();
        r.file = if up { "ref/flood".into() } else { "c49/out".into() };
        c.sc.data(if up { "ref/flood" } else { "srv/flood.bin" }, fseed, 100_000);
        let at = StartAt::At(c.r.below(40_000));
        c.rfc("flood", 49, r, at, false);
    }
    for k in 0..bad {
        let host = 30 + k as u32;
        let at = 20_000 + c.r.below(60_000);
        let mut o = c.cli();
        o.request_timeout = Some(3_000);
        let size = c.r.below(60_000);
        let name = format!("bad{k}");
        match c.r.below(6) {
            0 => {
                // suffers from loss on its own link only
                c.sc.net.only_hosts.push(host);
                c.sc.net.drop_ppm = 300_000;
                c.sc.net.dup_ppm = 200_000;
                c.sc.net.delay_ppm = 100_000;
                c.sc.net.delay_max_us = 50_000;
                let up = c.r.chance(1, 2);
                c.xfer(up, &name, host, &o, size, &format!("{name}.bin"), StartAt::At(at));
                c.note("lossy");
            }
            1 => {
                let up = c.r.chance(1, 2);
                let p = c.xfer(up, &name, host, &o, size, &format!("{name}.bin"), StartAt::At(at));
                let t = at + c.r.below(100_000);
                c.sc.timeline.push(Timed { at_us: t, act: Act::Kill(p) });
                c.note("killed");
            }
            2 => {
                // fights for the file of a good client
                let t = *c.r.pick(&["up0.bin", "up1.bin", "shared.bin"]);
                if so.overwrite || c.sc.files.iter().all(|f| f.path != format!("srv/{t}")) {
                    // would race for the same name: not this property
                    let src = c.on_server("other.bin", size);
                    let _ = src;
                    c.down(&name, host, &o, size, "other.bin", StartAt::At(at));
                } else {
                    c.up(&name, host, &o, size, t, StartAt::At(at), true);
                }
                c.note("rival");
            }
            3 => {
                let opts = c.rfc_opts();
                let r = RfcClient { up: false, opts, vanish: Some(c.r.below(10)), hang_us: 60 * SEC, remote: "slow.bin".into(), file: format!("c{host}/x"), ..Default::default() };
                c.on_server("slow.bin", size);
                c.rfc(&name, host, r, StartAt::At(at), false);
                c.note("hangs");
            }
            4 => {
                let opts = c.rfc_opts();
                let f = format!("ref/{name}");
                let fseed = c.r.next();
                c.sc.data(&f, fseed, size);
                let r = RfcClient { up: true, opts, slow_us: c.r.below(100_000), abort: c.r.chance(1, 2).then_some(c.r.below(30)), remote: format!("{name}.bin"), file: f, ..Default::default() };
                c.rfc(&name, host, r, StartAt::At(at), false);
                c.note("slow");
            }
            _ => {
                let f = Fuzz { target: SRV, port: PORT, n: c.r.range(20, 200), gap_us: c.r.range(200, 5_000), seed: c.r.next(), watch: vec![], kinds: vec!["junk".into(), "session".into()], names: vec!["junk.bin".into()], server_key: None };
                c.sc.proc(&name, host, Prog::Peer(Peer::Fuzz(f)), StartAt::At(at), false);
                c.note("fuzz");
            }
        }
    }
    if c.sc.net.only_hosts.is_empty() {
        c.sc.net.drop_ppm = 0;
    }
    // everybody shares one server: in turn at worst
    let limit = all * 6 + 12 * SEC;
    for e in &mut c.sc.expects {
        if let Expect::EndsWithin { us, .. } = e {
            *us = limit;
        }
    }
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.sc.max_steps = 12_000_000;
    c.sc.end_us = 200 * SEC;
}

pub fn limit(c: &mut Cx) {
    let mut so = c.srv();
    so.extra.retain(|x| x != "--require-server-port-change");
    let rs = *c.r.pick(&[10_000u64, 15_000]);
    so.request_timeout = Some(rs);
    c.calm();
    c.preempt();
    let kind = c.r.below(4);
    if kind == 3 {
        // far more transfers than there are places, one after the other
        let k = *c.r.pick(&[1u64, 2, 3, if c.cfg == "stack" || c.cfg == "stackenc" { 128 } else { 200 }]);
        c.note(format!("series k={k}"));
        so.extra.push(format!("--max-connections={k}"));
        so.overwrite = true;
        let s = c.server(&so);
        let n = if c.stack() { 140 } else { 40 };
        let lanes = k.min(c.r.range(1, 3));
        for l in 0..lanes {
            let up = c.r.chance(1, 3);
            let mut opts = c.rfc_opts();
            // a place is kept while the last acknowledgement may have to be repeated
            opts.retain(|x| x.0 != "timeout");
            let host = 2 + l as u32;
            let mut r = RfcClient { up, opts, times: if up { n / 4 } else { n }, give_up_us: 100 * SEC, retry_us: 100_000, ..Default::default() };
            if up {
                r.remote = format!("u{l}-#.bin");
                r.file = format!("ref/{l}");
                let (a, b) = (c.r.next(), c.r.below(3000));
                c.sc.data(&r.file.clone(), a, b);
            } else {
                r.remote = "d.bin".into();
                r.file = format!("c{host}/d.out");
                let b = c.r.below(3000);
                c.on_server("d.bin", b);
            }
            let src = if up { r.file.clone() } else { "srv/d.bin".into() };
            let dst = if up { format!("srv/u{l}-0.bin") } else { r.file.clone() };
            let p = c.rfc(&format!("series{l}"), host, r, StartAt::At(20_000), true);
            c.must(p);
            c.expect(Expect::OkExact { p, src, dst, at_end: true });
        }
        c.expect(Expect::MaxSessions { p: s, n: k as usize });
        c.expect(Expect::Alive(s));
        c.expect(Expect::Released { p: s });
        c.sc.max_steps = 12_000_000;
        c.sc.grace_us = 10 * SEC;
        c.sc.end_us = 2000 * SEC;
        return;
    }
    let k = c.r.range(1, 3);
    let n = k + c.r.range(1, 4);
    c.note(format!("crowd k={k} n={n}"));
    so.extra.push(format!("--max-connections={k}"));
    let s = c.server(&so);
    // some occupy places and never let go by themselves
    let hogs = if kind == 1 { c.r.range(1, k) } else { 0 };
    for h in 0..hogs {
        let host = 40 + h as u32;
        let opts = c.rfc_opts();
        let r = RfcClient { up: false, opts, vanish: Some(c.r.below(3)), hang_us: 100 * SEC, remote: "hog.bin".into(), file: format!("c{host}/x"), ..Default::default() };
        c.on_server("hog.bin", 50_000);
        c.rfc(&format!("hog{h}"), host, r, StartAt::At(20_000), false);
    }
    // a place is free again after a transfer, a timeout, and the pause in which answers are repeated
    let mut all = 0;
    let mut ps = vec![];
    for i in 0..n {
        let host = 2 + i as u32;
        let mut o = c.cli();
        o.retry = None;
        // waits as long as it takes
        o.request_timeout = Some(rs * 7);
        let payload = c.payload(o.block.unwrap(), &o.level);
        let size = c.size(payload, o.window.unwrap(), 30);
        all += c.estimate(&o, size) + 3 * SEC;
        let up = c.r.chance(1, 2);
        let at = 30_000 + c.r.below(if kind == 0 { 5_000 } else { 500_000 });
        let p = c.xfer(up, &format!("client{i}"), host, &o, size, &format!("f{i}.bin"), StartAt::At(at));
        ps.push(p);
    }
    // who is unlucky each time a place gets free may not get one in time, but the places are used again and again
    c.expect(Expect::SuccessCount { ps: ps.clone(), min: 1, max: ps.len() });
    let mut o = c.cli();
    o.retry = None;
    let q = c.xfer(true, "later", 30, &o, 2000, "later.bin", StartAt::At(all + (rs * 8 + 20_000) * MSEC));
    c.must(q);
    c.expect(Expect::MaxSessions { p: s, n: k as usize });
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.expect(Expect::Released { p: s });
    c.sc.max_steps = 15_000_000;
    c.sc.grace_us = rs * MSEC + 7 * SEC;
    c.sc.end_us = 400 * SEC;
}

pub fn crash(c: &mut Cx) {
    let mut so = c.srv();
    so.overwrite = c.r.chance(1, 3);
    let rs = *c.r.pick(&[2_000u64, 15_000]);
    so.request_timeout = Some(rs);
    if so.overwrite {
        // a late copy of an upload request reaches a server that has forgotten the first: it may empty the file
        c.calm();
    } else {
        c.net();
    }
    if c.r.chance(1, 2) {
        let n = &mut c.sc.net;
        n.drop_ppm /= 4;
        n.dup_ppm /= 2;
    }
    c.preempt();
    let pc = so.extra.iter().any(|x| x == "--require-server-port-change");
    let s = c.server(&so);
    let n = c.r.range(1, 3);
    let mut longest = 0;
    for k in 0..n {
        let mut o = c.cli();
        o.port_change = pc;
        o.request_timeout = Some(*c.r.pick(&[2_000, 5_000, 15_000]));
        // a stale packet of an earlier life of a port cannot be told from a new one: only where none can come late
        let fixed = c.sc.net.drop_ppm == 0 && c.sc.net.dup_ppm == 0 && c.r.chance(1, 2);
        if fixed {
            o.listen = Some("0.0.0.0:4000".into());
        }
        let gap = if fixed { 2 * c.sc.net.delay_max_us + 10 * (c.sc.net.latency_us + c.sc.net.jitter_us) } else { 0 };
        let payload = c.payload(o.block.unwrap(), &o.level);
        let size = c.size(payload, o.window.unwrap(), 60);
        longest = longest.max(c.estimate(&o, size));
        let up = c.r.chance(2, 3);
        let host = 2 + k as u32;
        let at = StartAt::At(20_000 + c.r.below(50_000));
        let name = format!("f{k}.bin");
        let p = if up { c.up(&format!("client{k}"), host, &o, size, &name, at, !so.overwrite) } else { c.down(&format!("client{k}"), host, &o, size, &name, at) };
        // the same again with another name after it ended, from the same port if that is fixed
        if c.r.chance(1, 2) {
            let up = c.r.chance(1, 2);
            let name = format!("g{k}.bin");
            let at = StartAt::After(p, gap + c.r.below(300_000));
            if up {
                c.up(&format!("second{k}"), host, &o, size / 2 + 1, &name, at, !so.overwrite);
            } else {
                c.down(&format!("second{k}"), host, &o, size / 2 + 1, &name, at);
            }
        }
    }
    let crashes = c.r.range(1, 3);
    let mut t = 20_000;
    for _ in 0..crashes {
        t += c.r.below(longest + longest / 2 + 50_000);
        c.sc.timeline.push(Timed { at_us: t, act: Act::Kill(s) });
        let d = *c.r.pick(&[0, 1, 1_000, 50_000, 400_000, 3_000_000]);
        t += d;
        c.sc.timeline.push(Timed { at_us: t, act: Act::Start(s) });
        t += 1;
    }
    c.note(format!("crashes={crashes}"));
    // the restarted server serves
    let mut o = c.cli();
    o.port_change = pc;
    let q = t + 40 * SEC;
    o.retry = None;
    c.sc.net.until_us = t + 35 * SEC;
    let up = c.r.chance(1, 2);
    let p = c.xfer(up, "later", 20, &o, 4000, "later.bin", StartAt::At(q));
    c.must(p);
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.sc.max_steps = 8_000_000;
    c.sc.end_us = q + 100 * SEC;
}

pub fn clocks(c: &mut Cx) {
    let mut so = c.srv();
    so.overwrite = c.r.chance(1, 2);
    let pc = so.extra.iter().any(|x| x == "--require-server-port-change");
    let (rs, rc) = *c.r.pick(&[(15_000u64, 15_000u64), (3_000, 3_000), (3_000, 15_000)]);
    so.request_timeout = Some(rs);
    c.calm();
    // a packet that overtakes another is a fault that would never stop
    c.sc.net.jitter_us = 0;
    c.preempt();
    let s = c.server(&so);
    let up = c.r.chance(1, 2);
    let mut o = c.cli();
    o.port_change = pc;
    o.request_timeout = Some(rc);
    o.retry = o.retry.filter(|x| *x <= 250);
    if c.r.chance(1, 3) {
        c.sc.net.latency_us = 20_000;
    }
    let payload = c.payload(o.block.unwrap(), &o.level);
    let size = c.size(payload, o.window.unwrap(), 80);
    let est = c.estimate(&o, size);
    let start = 20_000;
    let p = c.xfer(up, "client", 2, &o, size, "f.bin", StartAt::At(start));
    let mut suspended = false;
    let n = c.r.range(1, 6);
    let mut budget = rs.min(rc) * MSEC * 4 / 10;
    let mut last = start;
    for _ in 0..n {
        let at = c.r.below(start + est + est / 2);
        let q = if c.r.chance(1, 2) { s } else { p };
        if c.r.chance(3, 4) {
            let step = *c.r.pick(&[1i64, 1_000, 100_000, 1_000_000, 5_000_000, 60_000_000, 3_600_000_000, 31_536_000_000_000, 999_999_000_000]);
            let step = if c.r.chance(1, 2) { step } else { -step };
            // not before the epoch
            let step = step.max(-900_000_000_000);
            c.sc.timeline.push(Timed { at_us: at, act: Act::Wall(q, step) });
        } else {
            let long = c.r.chance(1, 3);
            let d = if long { *c.r.pick(&[rs, rs * 2, 600_000, 86_400_000]) * MSEC } else { c.r.below(budget + 1) };
            if long {
                suspended = true;
            } else {
                budget -= d;
            }
            c.sc.timeline.push(Timed { at_us: at, act: Act::Stall(q, d) });
            last = last.max(at + d);
        }
    }
    c.note(if suspended { "suspended" } else { "steps" });
    c.desc(&o, size);
    if !suspended {
        let (src, dst) = c.paths(up, "client", 2, "f.bin");
        c.expect(Expect::OkBy { p, us: start + 3 * est + 3 * SEC, after_fault_us: rs.min(rc) * MSEC * 6 / 10 + 3 * SEC + 3 * est, excuse: up.then_some((src, dst)) });
    }
    let mut o2 = c.cli();
    o2.port_change = pc;
    o2.retry = None;
    let up2 = c.r.chance(1, 2);
    let at = last + est + (rs + rc) * MSEC + 10 * SEC;
    let q = c.xfer(up2, "later", 20, &o2, 3000, "later.bin", StartAt::At(at));
    c.must(q);
    c.expect(Expect::EndsWithin { p, us: at });
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.expect(Expect::NoPanic(p));
    c.sc.max_steps = 8_000_000;
    c.sc.end_us = at + 60 * SEC;
}

pub fn reuse(c: &mut Cx) {
    let mut so = c.srv();
    so.extra.retain(|x| x != "--require-server-port-change");
    so.overwrite = c.r.chance(1, 2);
    so.request_timeout = Some(3_000);
    c.calm();
    c.preempt();
    if c.r.chance(1, 2) {
        // duplicates and delays that stay within a transfer's lifetime
        let n = &mut c.sc.net;
        n.dup_ppm = *c.r.pick(&[0, 50_000, 300_000]);
        n.delay_ppm = *c.r.pick(&[0, 50_000, 200_000]);
        n.delay_max_us = *c.r.pick(&[100, 2_000]);
    }
    let s = c.server(&so);
    let n = c.r.range(2, 5);
    let mut prev: Option<usize> = None;
    let mut killed: Option<(usize, u64)> = None;
    let mut kill_gap = 0;
    for k in 0..n {
        let mut o = c.cli();
        o.retry = None;
        o.listen = Some("0.0.0.0:4000".into());
        o.request_timeout = Some(15_000);
        let payload = c.payload(o.block.unwrap(), &o.level);
        let size = c.size(payload, o.window.unwrap(), 30);
        let gap = *c.r.pick(&[0u64, 10, 1_000, 100_000, 1_100_000]) + if c.sc.net.dup_ppm + c.sc.net.delay_ppm > 0 { 2 * c.sc.net.delay_max_us + 10 * c.sc.net.latency_us } else { 3 * c.sc.net.latency_us };
        let at = match prev {
            None => StartAt::At(20_000),
            Some(p) => StartAt::After(p, gap + std::mem::take(&mut kill_gap)),
        };
        let last = k + 1 == n;
        let name = format!("t{k}");
        let p = match if last { c.r.below(2) } else { c.r.below(7) } {
            6 => {
                // killed on the way; the server notices by itself
                c.note("killed");
                let up = c.r.chance(1, 2);
                let p = if up { c.up(&name, 2, &o, size, &format!("k{k}.bin"), at, false) } else { c.down(&name, 2, &o, size, &format!("k{k}.bin"), at) };
                let est = c.estimate(&o, size);
                killed = Some((p, c.r.below(est + 1)));
                p
            }
            0 => {
                let p = c.up(&name, 2, &o, size, &format!("u{k}.bin"), at, !so.overwrite);
                c.must(p);
                p
            }
            1 => {
                let p = c.down(&name, 2, &o, size, &format!("d{k}.bin"), at);
                c.must(p);
                p
            }
            2 => {
                c.note("absent");
                c.sc.dir("c2");
                let p = c.receive(&name, 2, &o, "no-such.bin", &format!("c2/{name}.out"), at);
                c.expect(Expect::MustFail(p));
                p
            }
            3 => {
                c.note("refused");
                c.on_server("x.bin", 100);
                let f = format!("c2/{name}.in");
                let fseed = c.r.next();
                c.sc.data(&f, fseed, size);
                let p = c.send(&name, 2, &o, &f, if so.overwrite { "no/such/place/../../x" } else { "x.bin" }, at);
                p
            }
            4 => {
                c.note("client-limit");
                o.max_file_size = Some(1000);
                c.down(&name, 2, &o, 5000, "big.bin", at)
            }
            _ => {
                c.note("again");
                c.down(&name, 2, &o, size, "same.bin", at)
            }
        };
        prev = Some(p);
        if let Some((q, d)) = killed.take() {
            let at = c.sc.procs[q].start.clone();
            c.sc.proc(&format!("killer{k}"), 90, Prog::Peer(Peer::Kill { proc: q, after_us: d }), at, false);
            kill_gap = 6 * SEC;
        }
        // a reordered pair of blocks costs a repeat, up to two seconds after a slow handshake
        c.expect(Expect::EndsWithin { p, us: 14 * SEC + (size / payload + 1) * 2_500 * MSEC });
    }
    c.expect(Expect::Alive(s));
    c.expect(Expect::NoPanic(s));
    c.sc.max_steps = 6_000_000;
    c.sc.end_us = 100 * SEC;
}
