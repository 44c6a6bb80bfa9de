//! Scripted peers: independent reference implementations of the protocol and attackers.
//! They share no code with the crate under test.
use serde::{Deserialize, Serialize};

use crate::kern::*;
use crate::oracle::violate;
use crate::shim;
use crate::util::Rng;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Peer {
    Nop,
    Client(RfcClient),
    Server(RfcServer),
    Fuzz(Fuzz),
    Script(Script),
    Writer(Writer),
    Mangle(Mangle),
    /// kills a process a while after its own start
    Kill { proc: usize, after_us: u64 },
}

/// A TFTP client after RFC 1350, 2347, 2348, 2349 and 7440
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RfcClient {
    pub server: u32,
    pub port: u16,
    pub local_port: u16,
    pub up: bool,
    pub remote: String,
    /// upload: content of this path of the scenario; download: file to write
    pub file: String,
    pub mode: String,
    pub opts: Vec<(String, String)>,
    pub retry_us: u64,
    pub give_up_us: u64,
    /// repeat every acknowledgement or block this often
    pub copies: u32,
    /// stop answering after this many blocks
    pub vanish: Option<u64>,
    /// keep the socket when vanishing
    pub hang_us: u64,
    /// repeat the last packet this often meanwhile
    #[serde(default)]
    pub repeat_us: u64,
    /// that many copies at once
    #[serde(default)]
    pub burst: u32,
    /// never send the request again and never react to repeats
    pub strict: bool,
    /// length of the file on the server (for the announced size)
    pub size: Option<u64>,
    /// answers must come from the port contacted / another one
    pub same_port: Option<bool>,
    /// wait this long before every answer
    pub slow_us: u64,
    /// send an error instead of continuing after this many blocks
    pub abort: Option<u64>,
    /// code of that error and length of its message
    #[serde(default)]
    pub err: (u16, u16),
    /// number of transfers one after the other (0: one); `#` in the remote name is replaced by the number
    #[serde(default)]
    pub times: u32,
    #[serde(default)]
    pub gap_us: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RfcServer {
    pub port: u16,
    /// options this server knows
    pub knows: Vec<String>,
    /// values to answer with instead of those asked for ("+name": not asked for)
    pub force: Vec<(String, String)>,
    /// answer requests with options by this error code
    pub reject: Option<u16>,
    pub fresh_port: bool,
    pub max_block: u64,
    pub max_window: u64,
    /// directory whose files are served and stored
    pub dir: String,
    pub retry_us: u64,
    pub give_up_us: u64,
    pub copies: u32,
    pub vanish: Option<u64>,
    /// ignore that many requests first
    pub ignore: u32,
    /// a fresh port for every packet until established (illegal, for third party tests)
    pub strict: bool,
    /// answer from this other host's address
    pub slow_us: u64,
    /// having vanished, repeat the last packet this often
    #[serde(default)]
    pub repeat_us: u64,
    /// send an error instead of continuing after this many blocks
    #[serde(default)]
    pub abort: Option<u64>,
    /// code of that error and length of its message
    #[serde(default)]
    pub err: (u16, u16),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Fuzz {
    pub target: u32,
    pub port: u16,
    pub n: u64,
    pub gap_us: u64,
    pub seed: u64,
    /// hosts whose traffic is copied, mutated and sent again
    pub watch: Vec<u32>,
    /// what to do: "junk" to the listening port, "session" own requests followed by junk,
    /// "third" junk to observed endpoints from other addresses, "spoof" from the observed peers
    pub kinds: Vec<String>,
    pub names: Vec<String>,
    /// number of the server's long-term key, for "crypt"
    #[serde(default)]
    pub server_key: Option<u64>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Script {
    pub port: u16,
    pub steps: Vec<Step>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Sleep(u64),
    /// to host, port (0: where the last packet came from), bytes
    Send(u32, u16, Vec<u8>),
    /// wait for a packet up to this long
    Recv(u64),
    /// wait for a packet of this operation up to this long, fail without one
    Expect(u8, u64),
    /// none of these may arrive within this time
    Never(Vec<u8>, u64),
    /// another local port from here
    NewPort(u16),
    /// repeat the last n steps k times
    Repeat(usize, u32),
}

/// changes a stored file
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Mangle {
    pub path: String,
    /// cut at a, flip the bits b of byte a, append a bytes of kind b, remove b bytes at a
    pub op: String,
    pub a: u64,
    pub b: u64,
}

/// writes files into a directory bit by bit
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Writer {
    /// path, content of this path of the scenario, chunk sizes and pauses
    pub files: Vec<(String, String, Vec<(u64, u64)>)>,
    pub gap_us: u64,
    /// pause between the last write and the close
    pub close_us: u64,
}

pub fn run(p: Peer, me: usize) -> Result<(), String> {
    match p {
        Peer::Nop => Ok(()),
        Peer::Client(c) => {
            for i in 0..c.times.max(1) {
                let mut c = c.clone();
                c.remote = c.remote.replace('#', &i.to_string());
                if let Err(e) = client(&c, me) {
                    return Err(format!("transfer {i}: {e}"));
                }
                if c.gap_us > 0 {
                    sleep_until(sim().now + c.gap_us * US);
                }
            }
            Ok(())
        }
        Peer::Server(s) => server(&s, me),
        Peer::Fuzz(f) => fuzz(&f, me),
        Peer::Script(s) => script(&s, me),
        Peer::Writer(w) => writer(&w),
        Peer::Mangle(m) => {
            let mut d = rawly(|| std::fs::read(&m.path)).map_err(|e| e.to_string())?;
            let l = d.len();
            let a = (m.a as usize).min(l);
            match m.op.as_str() {
                "cut" => d.truncate(a),
                "flip" if l > 0 => d[a.min(l - 1)] ^= m.b as u8,
                "append" => {
                    let x: Vec<u8> = match m.b {
                        0 => vec![0; m.a as usize],
                        1 => d.iter().cycle().take(if l == 0 { 0 } else { m.a as usize }).copied().collect(),
                        _ => crate::util::content(m.a ^ 0x99, m.a),
                    };
                    d.extend(x);
                }
                "remove" => {
                    d.drain(a..(a + m.b as usize).min(l));
                }
                _ => {}
            }
            rawly(|| std::fs::write(&m.path, &d)).map_err(|e| e.to_string())
        }
        Peer::Kill { proc, after_us } => {
            sleep_until(sim().now + after_us * US);
            let s = sim();
            if s.procs[proc].state == PState::Running {
                s.count(K::Kill);
                s.kill_proc(proc);
                crate::run::on_exit(proc);
            }
            Ok(())
        }
    }
}

// ---- sockets of peers ----
pub struct Us(pub i32);
impl Us {
    pub fn new(port: u16) -> Us {
        let fd = unsafe { shim::socket(libc::AF_INET, libc::SOCK_DGRAM, 0) };
        let _ = shim::do_bind(fd, Addr { ip: 0, port });
        Us(fd)
    }
    pub fn port(&self) -> u16 {
        sim().sock(self.0).and_then(|k| k.local).map(|l| l.port).unwrap_or(0)
    }
    pub fn send(&self, to: Addr, d: &[u8]) {
        enter(sim().sched.cost_ns);
        let _ = shim::do_send(self.0, Some(to), d);
    }
    pub fn recv(&self, deadline: u64) -> Option<(Addr, Vec<u8>)> {
        enter(sim().sched.cost_ns);
        loop {
            match shim::do_recv(self.0) {
                Ok(d) => return Some((d.src, d.data.to_vec())),
                Err(libc::EAGAIN) => {
                    if sim().now >= deadline {
                        return None;
                    }
                    block(Wait::Sock(self.0), Some(deadline));
                }
                Err(_) => {}
            }
        }
    }
}
impl Drop for Us {
    fn drop(&mut self) {
        unsafe { shim::close(self.0) };
    }
}

// ---- packets ----
pub fn request(up: bool, name: &str, mode: &str, opts: &[(String, String)]) -> Vec<u8> {
    let mut v = vec![0, if up { 2 } else { 1 }];
    v.extend(name.as_bytes());
    v.push(0);
    v.extend(mode.as_bytes());
    v.push(0);
    for (k, x) in opts {
        v.extend(k.as_bytes());
        v.push(0);
        v.extend(x.as_bytes());
        v.push(0);
    }
    v
}
pub fn data(n: u64, d: &[u8]) -> Vec<u8> {
    let mut v = vec![0, 3, (n >> 8) as u8, n as u8];
    v.extend(d);
    v
}
pub fn ack(n: u64) -> Vec<u8> {
    vec![0, 4, (n >> 8) as u8, n as u8]
}
pub fn last_words((code, n): (u16, u16)) -> Vec<u8> {
    error(code, &"e".repeat(n as usize))
}
pub fn error(c: u16, m: &str) -> Vec<u8> {
    let mut v = vec![0, 5, (c >> 8) as u8, c as u8];
    v.extend(m.as_bytes());
    v.push(0);
    v
}
pub fn oack(opts: &[(String, String)]) -> Vec<u8> {
    let mut v = vec![0, 6];
    for (k, x) in opts {
        v.extend(k.as_bytes());
        v.push(0);
        v.extend(x.as_bytes());
        v.push(0);
    }
    v
}
pub fn op(d: &[u8]) -> u8 {
    if d.len() >= 2 && d[0] == 0 {
        d[1]
    } else {
        0
    }
}
pub fn num(d: &[u8]) -> u16 {
    if d.len() >= 4 {
        (d[2] as u16) << 8 | d[3] as u16
    } else {
        0
    }
}
/// zero terminated strings
pub fn strings(d: &[u8]) -> Vec<String> {
    let mut v: Vec<String> = d.split(|c| *c == 0).map(|s| String::from_utf8_lossy(s).into_owned()).collect();
    if v.last().is_some_and(|s| s.is_empty()) {
        v.pop();
    }
    v
}
pub fn pairs(d: &[u8]) -> Vec<(String, String)> {
    strings(d).chunks(2).map(|c| (c[0].to_ascii_lowercase(), c.get(1).cloned().unwrap_or_default())).collect()
}
/// index closest to `near` that has this block number
pub fn nearest(n: u16, near: u64) -> u64 {
    let base = near & !0xffff;
    let mut best = base + n as u64;
    for c in [(base + n as u64).wrapping_sub(65536), base + n as u64 + 65536] {
        if c < u64::MAX / 2 && c.abs_diff(near) < best.abs_diff(near) {
            best = c;
        }
    }
    best
}

fn name(me: usize) -> String {
    sim().procs[me].name.clone()
}
fn opt(o: &[(String, String)], k: &str) -> Option<u64> {
    o.iter().find(|x| x.0 == k).and_then(|x| x.1.parse().ok())
}
fn scen_bytes(p: &str) -> Vec<u8> {
    crate::run::scen().bytes_of(p).unwrap_or_default()
}

/// are the acknowledged options acceptable for what was asked
fn check_oack(who: &str, asked: &[(String, String)], got: &[(String, String)], size: Option<u64>) -> Result<(), String> {
    for (i, (k, v)) in got.iter().enumerate() {
        if got[..i].iter().any(|x| x.0 == *k) {
            violate(format!("{who}: option {k} acknowledged twice"));
        }
        let Some((_, a)) = asked.iter().find(|x| x.0.eq_ignore_ascii_case(k)) else {
            violate(format!("{who}: option {k}={v} acknowledged but not asked for"));
            continue;
        };
        let (a, n) = (a.parse::<u64>(), v.parse::<u64>());
        let (Ok(a), Ok(n)) = (a, n) else {
            continue;
        };
        let bad = match k.as_str() {
            "blksize" => n > a || n < 8,
            "windowsize" => n > a || n < 1,
            "timeout" => n != a,
            "tsize" => match size {
                Some(s) => n != s,
                None => n != a,
            },
            _ => false,
        };
        if bad {
            violate(format!("{who}: option {k} asked {a} acknowledged {n} (file {size:?})"));
        }
    }
    Ok(())
}

fn client(c: &RfcClient, me: usize) -> Result<(), String> {
    let who = name(me);
    let s = Us::new(c.local_port);
    let to = Addr::new(c.server, c.port);
    let req = request(c.up, &c.remote, if c.mode.is_empty() { "octet" } else { &c.mode }, &c.opts);
    let retry = c.retry_us * US;
    let copies = c.copies.max(1);
    let mut peer: Option<Addr> = None;
    let mut block = 512u64;
    let mut window = 1u64;
    let mut announced = None;
    let src = if c.up { scen_bytes(&c.file) } else { vec![] };
    let mut out: Vec<u8> = vec![];
    // upload: first unacknowledged block, highest sent; download: last block received in order
    let mut base = 1u64;
    let mut sent = 0u64;
    let mut last = 0u64;
    // highest block acknowledged to the other side
    let mut told = 0u64;
    let mut unacked = 0u64;
    let mut started = false;
    let mut heard = sim().now;
    let mut next_retry = sim().now + retry;
    let tx = |d: &[u8], p: Option<Addr>| {
        for _ in 0..copies {
            s.send(p.unwrap_or(to), d);
        }
    };
    tx(&req, None);
    let blocks = |block: u64| src.len() as u64 / block + 1;
    let chunk = |n: u64, block: u64| {
        let a = ((n - 1) * block).min(src.len() as u64) as usize;
        let b = (n * block).min(src.len() as u64) as usize;
        &src[a..b]
    };
    loop {
        let got = s.recv(next_retry);
        let now = sim().now;
        let done = if c.up { base - 1 } else { last };
        if c.vanish.is_some_and(|v| started && done >= v) {
            let end = now + c.hang_us * US;
            while c.repeat_us > 0 && sim().now + c.repeat_us * US < end {
                if c.up && base == 1 {
                    break;
                }
                let d = if c.up { data(base - 1, chunk(base - 1, block)) } else { ack(last) };
                for _ in 0..c.burst.max(1) {
                    s.send(peer.unwrap_or(to), &d);
                }
                sleep_until(sim().now + c.repeat_us * US);
            }
            if c.hang_us > 0 {
                sleep_until(end);
            }
            return Err("vanished".into());
        }
        if let Some(a) = c.abort {
            if started && done >= a {
                tx(&last_words(c.err), peer);
                return Err("aborted".into());
            }
        }
        let Some((from, d)) = got else {
            if now - heard > c.give_up_us * US {
                return Err("timeout".into());
            }
            next_retry = now + retry;
            if !started {
                tx(&req, None);
            } else if c.up {
                let end = (base + window - 1).min(blocks(block));
                for n in base..=end {
                    tx(&data(n, chunk(n, block)), peer);
                }
                sent = sent.max(end);
            } else {
                told = last;
                    tx(&ack(last), peer);
                unacked = 0;
            }
            continue;
        };
        if from.ip != to.ip || peer.is_some_and(|p| p != from) {
            // another transfer identifier
            if from.ip != to.ip {
                s.send(from, &error(5, "unknown transfer"));
            }
            continue;
        }
        if c.slow_us > 0 {
            sleep_until(now + c.slow_us * US);
        }
        if peer.is_none() {
            match c.same_port {
                Some(true) if from.port != c.port => violate(format!("{who}: answered from port {} instead of {}", from.port, c.port)),
                Some(false) if from.port == c.port => violate(format!("{who}: answered from the contacted port")),
                _ => {}
            }
        }
        match op(&d) {
            5 => {
                return Err(format!("error {} {}", num(&d), String::from_utf8_lossy(&d[4.min(d.len())..]).trim_end_matches('\0')));
            }
            6 => {
                if started && (c.up || last > 0) {
                    continue;
                }
                let o = pairs(&d[2..]);
                if !started {
                    check_oack(&who, &c.opts, &o, if c.up { None } else { c.size })?;
                    block = opt(&o, "blksize").unwrap_or(512);
                    window = opt(&o, "windowsize").unwrap_or(1).max(1);
                    announced = opt(&o, "tsize");
                    if c.strict && c.opts.is_empty() {
                        violate(format!("{who}: options acknowledged to a client that asked for none"));
                    }
                }
                started = true;
                peer = Some(from);
                heard = now;
                if c.up {
                    let end = window.min(blocks(block));
                    for n in 1..=end {
                        tx(&data(n, chunk(n, block)), peer);
                    }
                    sent = end;
                } else {
                    tx(&ack(0), peer);
                }
                next_retry = sim().now + retry;
            }
            4 if c.up => {
                let n = nearest(num(&d), base);
                if !started {
                    if num(&d) != 0 {
                        continue;
                    }
                    started = true;
                    peer = Some(from);
                }
                if n > sent {
                    if c.strict {
                        violate(format!("{who}: block {n} acknowledged, sent only {sent}"));
                    }
                    continue;
                }
                if n + 1 < base || (n + 1 == base && sent >= base && window == 1) {
                    // a duplicate acknowledgement must not cause another copy
                    continue;
                }
                heard = now;
                base = n + 1;
                if base > blocks(block) {
                    return Ok(());
                }
                let end = (base + window - 1).min(blocks(block));
                for n in base..=end {
                    tx(&data(n, chunk(n, block)), peer);
                }
                sent = sent.max(end);
                next_retry = sim().now + retry;
            }
            3 if !c.up => {
                let body = &d[4.min(d.len())..];
                if !started {
                    if num(&d) != 1 {
                        continue;
                    }
                    started = true;
                    peer = Some(from);
                }
                let n = nearest(num(&d), last);
                if c.strict && body.len() as u64 > block {
                    violate(format!("{who}: block {n} has {} bytes, agreed {block}", body.len()));
                }
                if c.strict && n > told + window {
                    violate(format!("{who}: block {n} received after acknowledging {told}, window {window}"));
                }
                if n != last + 1 {
                    // the sender may not have heard of what arrived; once per retry otherwise
                    if n <= last && n + window > last && window == 1 {
                        told = last;
                    tx(&ack(last), peer);
                    } else if n > last + 1 && unacked < u64::MAX {
                        told = last;
                    tx(&ack(last), peer);
                        unacked = 0;
                    } else if n == last {
                        told = last;
                    tx(&ack(last), peer);
                    }
                    continue;
                }
                heard = now;
                last = n;
                unacked += 1;
                out.extend_from_slice(body);
                let fin = (body.len() as u64) < block;
                if fin || unacked >= window {
                    told = last;
                    tx(&ack(last), peer);
                    unacked = 0;
                }
                next_retry = sim().now + retry;
                if fin {
                    if let (Some(a), true) = (announced, c.strict) {
                        if a != out.len() as u64 {
                            violate(format!("{who}: announced {a} bytes, transferred {}", out.len()));
                        }
                    }
                    rawly(|| std::fs::write(&c.file, &out)).map_err(|e| e.to_string())?;
                    // linger to repeat the last acknowledgement
                    let end = sim().now + 3 * retry;
                    while let Some((f, d)) = s.recv(end) {
                        if Some(f) == peer && op(&d) == 3 && nearest(num(&d), last) == last {
                            told = last;
                    tx(&ack(last), peer);
                        }
                    }
                    return Ok(());
                }
            }
            0 | 7..=255 if c.strict => {
                violate(format!("{who}: not a packet of the protocol: {}", crate::util::pkt(&d)));
            }
            _ => {}
        }
    }
}

fn server(c: &RfcServer, me: usize) -> Result<(), String> {
    let main = Us::new(c.port);
    let mut seen: Vec<(Addr, Vec<u8>)> = vec![];
    let mut ignore = c.ignore;
    loop {
        let Some((from, d)) = main.recv(u64::MAX / 2) else { continue };
        if !matches!(op(&d), 1 | 2) {
            continue;
        }
        if ignore > 0 {
            ignore -= 1;
            continue;
        }
        if seen.contains(&(from, d.clone())) {
            continue;
        }
        seen.push((from, d.clone()));
        let st = strings(&d[2..]);
        if st.len() < 2 {
            main.send(from, &error(4, "bad request"));
            continue;
        }
        let o: Vec<(String, String)> = st[2..].chunks(2).map(|x| (x[0].to_ascii_lowercase(), x.get(1).cloned().unwrap_or_default())).collect();
        if let (Some(code), false) = (c.reject, o.is_empty()) {
            main.send(from, &error(code, "options not supported"));
            continue;
        }
        let s = if c.fresh_port { Us::new(0) } else { Us(main.0) };
        session(c, me, &s, from, op(&d) == 2, &st[0], &o);
        if !c.fresh_port {
            std::mem::forget(s);
        }
    }
}

fn session(c: &RfcServer, me: usize, s: &Us, to: Addr, up: bool, file: &str, o: &[(String, String)]) {
    let who = name(me);
    let path = format!("{}/{}", c.dir, file.rsplit('/').next().unwrap_or(""));
    let retry = c.retry_us * US;
    let copies = c.copies.max(1);
    let src = if up { vec![] } else { rawly(|| std::fs::read(&path)).unwrap_or_default() };
    if !up && rawly(|| std::fs::metadata(&path).is_err()) {
        s.send(to, &error(1, "not found"));
        return;
    }
    let mut block = 512u64;
    let mut window = 1u64;
    let mut answer: Vec<(String, String)> = vec![];
    let mut size = None;
    for (k, v) in o {
        let forced = c.force.iter().find(|f| f.0 == *k).map(|f| f.1.clone());
        if !c.knows.contains(k) && forced.is_none() {
            continue;
        }
        let n: u64 = forced.as_ref().and_then(|f| f.parse().ok()).filter(|f| *f > 0).unwrap_or(v.parse().unwrap_or(0));
        let a = match k.as_str() {
            "blksize" => {
                block = n.min(c.max_block.max(8));
                block.to_string()
            }
            "windowsize" => {
                window = n.min(c.max_window.max(1)).max(1);
                window.to_string()
            }
            "tsize" => {
                if up {
                    size = Some(n);
                    v.clone()
                } else {
                    src.len().to_string()
                }
            }
            _ => v.clone(),
        };
        answer.push((k.clone(), forced.unwrap_or(a)));
    }
    for (k, v) in &c.force {
        if let Some(k) = k.strip_prefix('+') {
            answer.push((k.into(), v.clone()));
        }
    }
    let tx = |d: &[u8]| {
        for _ in 0..copies {
            s.send(to, d);
        }
    };
    let blocks = src.len() as u64 / block + 1;
    let chunk = |n: u64| {
        let a = ((n - 1) * block).min(src.len() as u64) as usize;
        let b = (n * block).min(src.len() as u64) as usize;
        &src[a..b]
    };
    let mut heard = sim().now;
    let mut out = vec![];
    let mut last = 0u64;
    let mut told = 0u64;
    let mut unacked = 0;
    let mut base = 1u64;
    let mut sent = 0u64;
    let mut established = answer.is_empty();
    let first = if !answer.is_empty() {
        oack(&answer)
    } else if up {
        ack(0)
    } else {
        vec![]
    };
    let burst = |base: u64| -> u64 {
        let end = (base + window - 1).min(blocks);
        for n in base..=end {
            tx(&data(n, chunk(n)));
        }
        end
    };
    if !first.is_empty() {
        tx(&first);
    } else {
        sent = burst(1);
    }
    let mut next_retry = sim().now + retry;
    loop {
        let done = if up { last } else { base - 1 };
        if c.abort.is_some_and(|v| done >= v) {
            s.send(to, &last_words(c.err));
            return;
        }
        if c.vanish.is_some_and(|v| done >= v) {
            // what was sent before, again and again
            while c.repeat_us > 0 && (up || base > 1) {
                s.send(to, &if up { ack(last) } else { data(base - 1, chunk(base - 1)) });
                sleep_until(sim().now + c.repeat_us * US);
            }
            return;
        }
        let got = s.recv(next_retry);
        let now = sim().now;
        let Some((from, d)) = got else {
            if now - heard > c.give_up_us * US {
                return;
            }
            next_retry = now + retry;
            if !established || (up && last == 0) {
                tx(&first);
            } else if up {
                told = last;
                    tx(&ack(last));
                unacked = 0;
            } else {
                sent = sent.max(burst(base));
            }
            continue;
        };
        if from != to {
            continue;
        }
        if c.slow_us > 0 {
            sleep_until(now + c.slow_us * US);
        }
        match op(&d) {
            5 => return,
            4 if !up => {
                let n = nearest(num(&d), base);
                if !established {
                    if n == 0 {
                        established = true;
                        heard = now;
                        sent = burst(1);
                        next_retry = sim().now + retry;
                    }
                    continue;
                }
                if n > sent {
                    if c.strict {
                        violate(format!("{who}: block {n} acknowledged, sent only {sent}"));
                    }
                    continue;
                }
                if n + 1 < base || (n + 1 == base && sent >= base && window == 1) {
                    continue;
                }
                heard = now;
                base = n + 1;
                if base > blocks {
                    return;
                }
                sent = sent.max(burst(base));
                next_retry = sim().now + retry;
            }
            3 if up => {
                established = true;
                let body = &d[4.min(d.len())..];
                let n = nearest(num(&d), last);
                if c.strict && body.len() as u64 > block {
                    violate(format!("{who}: block {n} has {} bytes, agreed {block}", body.len()));
                }
                if c.strict && n > told + window {
                    violate(format!("{who}: block {n} received after acknowledging {told}, window {window}"));
                }
                if n != last + 1 {
                    told = last;
                    tx(&ack(last));
                    unacked = 0;
                    continue;
                }
                heard = now;
                last = n;
                unacked += 1;
                out.extend_from_slice(body);
                let fin = (body.len() as u64) < block;
                if fin {
                    if let (Some(a), true) = (size, c.strict) {
                        if a != out.len() as u64 {
                            violate(format!("{who}: announced {a} bytes, transferred {}", out.len()));
                        }
                    }
                    let _ = rawly(|| std::fs::write(&path, &out));
                }
                if fin || unacked >= window {
                    told = last;
                    tx(&ack(last));
                    unacked = 0;
                }
                next_retry = sim().now + retry;
                if fin {
                    let end = sim().now + (3 * retry).max(8_000_000 * US);
                    while let Some((f, d)) = s.recv(end) {
                        if f == to && op(&d) == 3 {
                            told = last;
                    tx(&ack(last));
                        }
                    }
                    return;
                }
            }
            _ => {}
        }
    }
}

/// the options of a request or answer that the endpoints know, mostly with values that make sense
fn opt_value(r: &mut Rng, k: &str) -> String {
    if r.chance(1, 5) {
        let n = r.below(120) as usize;
        return match r.below(13) {
            0 => "0".into(),
            1 => "18446744073709551616".into(),
            2 => "18446744073709551615".into(),
            3 => "-1".into(),
            4 => "65536".into(),
            5 => "65535".into(),
            6 => "9".repeat(n),
            7 => r.below(70000).to_string(),
            8 => "+8".into(),
            9 => " 8".into(),
            10 => "\u{e9}".repeat(n),
            11 => String::new(),
            _ => "A".repeat(n),
        };
    }
    let b = |r: &mut Rng, n: u64| crate::gen::b64(&(0..n).map(|_| r.next() as u8).collect::<Vec<u8>>());
    match k {
        "blksize" => r.pick(&[1u64, 7, 8, 9, 41, 42, 100, 511, 512, 1024, 1425, 1426, 1432, 1468, 1500, 65464, 65535]).to_string(),
        "windowsize" => r.pick(&[1u64, 1, 2, 4, 16, 64, 1000, 65535]).to_string(),
        "timeout" => r.pick(&[1u64, 1, 2, 3, 4, 15, 254, 255, 256]).to_string(),
        "tsize" => r.pick(&[0u64, 0, 1, 512, 104857600, 104857601, u64::MAX / 2, u64::MAX]).to_string(),
        "enclevel" => r.pick(&["data", "protocol", "full", "optional-data", "optional-protocol", "none", "DATA", "x"]).to_string(),
        "spubk" => {
            let n = *r.pick(&[32u64, 32, 32, 32, 0, 31, 33, 60]);
            if n == 32 && r.chance(1, 6) {
                // points of low order
                return crate::gen::b64(&[0; 32]);
            }
            b(r, n)
        }
        "apubk" => match r.below(3) {
            0 => crate::gen::key(r.below(4)).public,
            _ => {
                let n = *r.pick(&[32u64, 32, 0, 31, 33]);
                b(r, n)
            }
        },
        "sig" => {
            let n = *r.pick(&[64u64, 64, 64, 0, 63, 65, 32]);
            b(r, n)
        }
        _ => "1".into(),
    }
}

const OPTS: [&str; 8] = ["blksize", "windowsize", "timeout", "tsize", "enclevel", "spubk", "apubk", "sig"];

fn some_opts(r: &mut Rng) -> Vec<(String, String)> {
    let mut k: Vec<&str> = OPTS.to_vec();
    for i in (1..k.len()).rev() {
        k.swap(i, r.below(i as u64 + 1) as usize);
    }
    let n = if r.chance(1, 4) { 8 } else { r.below(9) as usize };
    let mut o: Vec<(String, String)> = k[..n].iter().map(|k| (k.to_string(), opt_value(r, k))).collect();
    if r.chance(1, 8) {
        o.push((r.pick(&["x", "", "BLKSIZE", "rollover", "multicast"]).to_string(), r.pick(&["1", "", "x"]).to_string()));
    }
    o
}

pub fn junk(r: &mut Rng, f: &Fuzz) -> Vec<u8> {
    let mut name = if f.names.is_empty() { "x".to_string() } else { r.pick(&f.names).clone() };
    if r.chance(1, 8) {
        name = r.pick(&[".", "..", "/", "//", "a", " ", "\\", "a\\..\\b", "%s%n", "a\nb", "a/", "./a", "a/.", "a/..", "../", "C:\\x", "~", "-", "a\u{7f}", "\u{202e}x", ""]).to_string();
    }
    let mode = *r.pick(&["octet", "octet", "OCTET", "netascii", "mail", "", "octetoctetoctetoctet", "octets"]);
    let ext = ["blksize", "windowsize", "timeout", "tsize", "enclevel", "spubk", "apubk", "sig", "x", ""];
    match r.below(16) {
        0 => vec![],
        1 => (0..r.below(4)).map(|_| r.next() as u8).collect(),
        2 => (0..r.below(1600)).map(|_| r.next() as u8).collect(),
        3 => {
            let mut v = vec![0, r.below(9) as u8];
            v.extend((0..r.below(80)).map(|_| r.next() as u8));
            v
        }
        4 => ack(r.below(65536)),
        5 => {
            let n = *r.pick(&[0u64, 1, 511, 512, 513, 1424, 1425, 1428, 1471, 1472, 1473, 2000, 60000]);
            data(r.below(3), &vec![0x41; n as usize])
        }
        6 => {
            let n = r.below(300);
            error(r.below(12) as u16, &"e".repeat(n as usize))
        }
        7 | 8 => {
            // requests with odd options
            let o = some_opts(r);
            request(r.chance(1, 2), &name, if r.chance(3, 4) { "octet" } else { mode }, &o)
        }
        9 => {
            // very long names
            let n = *r.pick(&[100usize, 149, 150, 151, 255, 256, 512, 1400, 5000]);
            let c = *r.pick(&["a", "a/", "../", "\u{e9}", "/", "\u{1F600}"]);
            request(r.chance(1, 2), &c.repeat(n / c.len() + 1), "octet", &[])
        }
        10 => {
            // unterminated
            let mut v = request(r.chance(1, 2), &name, mode, &[("blksize".into(), "1024".into())]);
            let l = r.below(v.len() as u64) as usize;
            v.truncate(l);
            v
        }
        11 => {
            // many options
            let n = *r.pick(&[8usize, 9, 10, 12, 20, 60, 200]);
            let o: Vec<(String, String)> = (0..n).map(|i| (format!("o{i}"), "1".into())).collect();
            request(r.chance(1, 2), &name, "octet", &o)
        }
        12 => {
            // acknowledgement of options
            if r.chance(1, 2) {
                let o = some_opts(r);
                return oack(&o);
            }
            let n = *r.pick(&[0usize, 1, 3, 9, 12, 40]);
            let o: Vec<(String, String)> = (0..n).map(|i| (if i < ext.len() { ext[i].to_string() } else { format!("option-number-{i}") }, r.below(2000).to_string())).collect();
            oack(&o)
        }
        13 => {
            // duplicated options
            let k = r.pick(&ext).to_string();
            let o = vec![(k.clone(), "1".to_string()), (k, "2000".to_string())];
            request(r.chance(1, 2), &name, "octet", &o)
        }
        14 => {
            let mut v = request(r.chance(1, 2), &name, "octet", &[]);
            // odd bytes inside
            for _ in 0..3 {
                let i = r.below(v.len() as u64) as usize;
                v[i] = r.next() as u8;
            }
            v
        }
        _ => request(r.chance(1, 2), &name, "octet", &[]),
    }
}

fn mutate(r: &mut Rng, mut d: Vec<u8>) -> Vec<u8> {
    for _ in 0..r.range(1, 3) {
        match r.below(6) {
            0 if !d.is_empty() => {
                let i = r.below(d.len() as u64) as usize;
                d[i] ^= 1 << r.below(8);
            }
            1 if !d.is_empty() => {
                let l = r.below(d.len() as u64) as usize;
                d.truncate(l);
            }
            2 => {
                let n = r.below(64);
                d.extend((0..n).map(|_| r.next() as u8));
            }
            3 if d.len() >= 2 => d[1] = r.below(9) as u8,
            4 if d.len() >= 4 => {
                let n = num(&d) as i64 + *r.pick(&[-1i64, 1, 2, 100, -100, 32768]);
                d[2] = (n >> 8) as u8;
                d[3] = n as u8;
            }
            _ => {
                if !d.is_empty() {
                    let i = r.below(d.len() as u64) as usize;
                    d[i] = r.next() as u8;
                }
            }
        }
    }
    d
}

/// the seal of the protocol: ciphertext, tag, nonce
struct Cipher(chacha20poly1305::XChaCha20Poly1305);
impl Cipher {
    fn new(key: [u8; 32]) -> Cipher {
        use chacha20poly1305::KeyInit;
        Cipher(chacha20poly1305::XChaCha20Poly1305::new(&key.into()))
    }
    fn seal(&self, r: &mut Rng, d: &[u8], head: usize) -> Vec<u8> {
        use chacha20poly1305::AeadInPlace;
        let mut nonce = [0u8; 24];
        nonce.iter_mut().for_each(|b| *b = r.next() as u8);
        let mut v = d.to_vec();
        let tag = self.0.encrypt_in_place_detached(&nonce.into(), &[], &mut v[head..]).unwrap();
        v.extend_from_slice(&tag);
        v.extend_from_slice(&nonce);
        v
    }
    fn open(&self, d: &[u8], head: usize) -> Option<Vec<u8>> {
        use chacha20poly1305::AeadInPlace;
        let n = d.len().checked_sub(40).filter(|n| *n >= head)?;
        let nonce: [u8; 24] = d[n + 16..].try_into().ok()?;
        let tag: [u8; 16] = d[n..n + 16].try_into().ok()?;
        let mut v = d[..n].to_vec();
        self.0.decrypt_in_place_detached(&nonce.into(), &[], &mut v[head..], &tag.into()).ok()?;
        Some(v)
    }
}
fn unpad(mut v: Vec<u8>) -> Vec<u8> {
    if let Some(b) = v.last().copied().filter(|b| matches!(b, 0 | 255)) {
        while v.last() == Some(&b) {
            v.pop();
        }
    }
    v
}
/// a plaintext before it is sealed: padded well, not at all, or nothing but padding
fn odd_plain(r: &mut Rng, mut d: Vec<u8>) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => vec![0; r.below(1500) as usize],
        2 => vec![255; r.below(1500) as usize],
        3 => d,
        4 => {
            d.push(0x55);
            d
        }
        _ => {
            let b = if d.last() == Some(&255) { 0 } else { 255 };
            let n = r.range(1, 30) as usize;
            d.extend(vec![b; n]);
            d
        }
    }
}

fn fuzz(f: &Fuzz, _me: usize) -> Result<(), String> {
    let mut r = Rng::new(f.seed);
    let mut s = Us::new(0);
    let to = Addr::new(f.target, f.port);
    let mut peer: Option<Addr> = None;
    let mut crypt: Option<(Addr, Cipher, bool, bool)> = None;
    for _ in 0..f.n {
        let t = sim().now + r.below(f.gap_us * 2 + 1) * US;
        // answers tell where a session lives
        while let Some((from, _)) = s.recv(t) {
            peer = Some(from);
        }
        let kind = r.pick(&f.kinds).clone();
        match kind.as_str() {
            "junk" => {
                let d = junk(&mut r, f);
                s.send(to, &d);
            }
            "session" => match peer {
                None => {
                    let n = r.pick(&f.names).clone();
                    let o: Vec<(String, String)> = if r.chance(1, 2) {
                        vec![]
                    } else {
                        vec![("blksize".into(), r.range(8, 1500).to_string()), ("windowsize".into(), r.range(1, 70).to_string())]
                    };
                    s.send(to, &request(r.chance(1, 2), &n, "octet", &o));
                    let t = sim().now + 5 * MS;
                    if let Some((from, _)) = s.recv(t) {
                        peer = Some(from);
                    }
                }
                Some(p) => {
                    if r.chance(1, 12) {
                        // a new client
                        s = Us::new(0);
                        peer = None;
                        continue;
                    }
                    let d = match r.below(5) {
                        0 => ack(r.below(5)),
                        1 => {
                            let n = if r.chance(1, 6) { *r.pick(&[1501u64, 1600, 4000, 65000]) } else { r.below(1500) };
                            data(r.below(4), &vec![7; n as usize])
                        }
                        _ => junk(&mut r, f),
                    };
                    s.send(p, &d);
                }
            },
            // an attacker that speaks the encryption of the protocol
            "crypt" => match &crypt {
                None => {
                    let mut secret = [0u8; 32];
                    secret.iter_mut().for_each(|b| *b = r.next() as u8);
                    let secret = x25519_dalek::StaticSecret::from(secret);
                    let mine = x25519_dalek::PublicKey::from(&secret);
                    let full = f.server_key.filter(|_| r.chance(1, 2));
                    let level = if full.is_some() { "full" } else { *r.pick(&["protocol", "protocol", "data", "optional-data", "optional-protocol"]) };
                    let mut o: Vec<(String, String)> = vec![("enclevel".into(), level.into()), ("spubk".into(), crate::gen::b64(mine.as_bytes()))];
                    if r.chance(1, 2) {
                        let v = if r.chance(1, 2) { opt_value(&mut r, "blksize") } else { r.range(1, 130).to_string() };
                        o.push(("blksize".into(), v));
                        o.push(("windowsize".into(), r.range(1, 9).to_string()));
                    }
                    let n = r.pick(&f.names).clone();
                    let up = r.chance(1, 2);
                    let mut d = request(up, &n, "octet", &o);
                    let mut first: Option<Cipher> = None;
                    if let Some(k) = full {
                        use ed25519_dalek::SigningKey;
                        let seed: [u8; 32] = crate::util::content(0x6b65_7900 ^ k, 32).try_into().unwrap();
                        let sk = SigningKey::from_bytes(&seed);
                        let theirs = x25519_dalek::PublicKey::from(sk.verifying_key().to_montgomery().to_bytes());
                        let c = Cipher::new(secret.diffie_hellman(&theirs).to_bytes());
                        if r.chance(1, 3) {
                            // a sealed packet that is no request
                            let p = junk(&mut r, f);
                            d = odd_plain(&mut r, p);
                        } else {
                            let n = r.range(1, 200) as usize;
                            d.extend(vec![255; n]);
                        }
                        d = c.seal(&mut r, &d, 0);
                        d.extend_from_slice(mine.as_bytes());
                        first = Some(c);
                    }
                    s.send(to, &d);
                    let t = sim().now + 300 * MS;
                    if let Some((from, a)) = s.recv(t) {
                        let a = match &first {
                            Some(c) => c.open(&a, 0).map(unpad).unwrap_or_default(),
                            None => a,
                        };
                        if op(&a) == 6 {
                            use base64::Engine;
                            let o = pairs(&a[2..]);
                            let k = o.iter().find(|x| x.0 == "spubk").and_then(|x| base64::engine::general_purpose::STANDARD.decode(&x.1).ok());
                            if let Some(k) = k.and_then(|k| <[u8; 32]>::try_from(k).ok()) {
                                let c = Cipher::new(secret.diffie_hellman(&x25519_dalek::PublicKey::from(k)).to_bytes());
                                let data_only = level.ends_with("data");
                                crypt = Some((from, c, data_only, up));
                            }
                        }
                    }
                }
                Some((p, c, data_only, up)) => {
                    if r.chance(1, 10) {
                        s = Us::new(0);
                        crypt = None;
                        continue;
                    }
                    let d = match r.below(6) {
                        0 | 1 => {
                            // what the protocol expects
                            let n = if r.chance(1, 3) { r.below(3) } else { r.below(60000) };
                            if *up {
                                let l = *r.pick(&[0u64, 1, 100, 511, 512, 1384, 1400]);
                                data(n, &vec![7; l as usize])
                            } else {
                                ack(n)
                            }
                        }
                        2 => error(r.below(9) as u16, "x"),
                        _ => junk(&mut r, f),
                    };
                    let d = if *data_only {
                        let head = d.len().min(4);
                        match r.below(3) {
                            0 => d,
                            1 => c.seal(&mut r, &d, head),
                            _ => {
                                // data of no length, or less than a seal
                                let l = r.below(60) as usize;
                                let mut x = data(1, &vec![5; l]);
                                if r.chance(1, 2) {
                                    x = c.seal(&mut r, &x, 4);
                                }
                                x
                            }
                        }
                    } else {
                        let x = odd_plain(&mut r, d);
                        c.seal(&mut r, &x, 0)
                    };
                    let d = if r.chance(1, 6) { mutate(&mut r, d) } else { d };
                    s.send(*p, &d);
                }
            },
            "third" => {
                // sessions whose client has accepted the server's answer
                let n = sim().wire.len();
                let lo = n.saturating_sub(400);
                let ok = |w: &crate::kern::Wire| {
                    let h = host_of(w.src.ip);
                    w.k == WK::Sent && h != f.target && (f.watch.is_empty() || f.watch.contains(&h)) && host_of(w.dst.ip) == f.target && !matches!(op(&w.data), 1 | 2 | 5 | 6)
                };
                let cand: Vec<usize> = (lo..n).filter(|i| ok(&sim().wire[*i])).collect();
                if cand.is_empty() {
                    continue;
                }
                let w = sim().wire[cand[r.below(cand.len() as u64) as usize]].clone();
                // something either of them sent to the other
                let both: Vec<usize> = (lo..n)
                    .filter(|i| {
                        let x = &sim().wire[*i];
                        x.k == WK::Sent && !matches!(op(&x.data), 1 | 2) && ((x.src == w.src && x.dst == w.dst) || (x.src == w.dst && x.dst == w.src))
                    })
                    .collect();
                let seen = sim().wire[both[r.below(both.len() as u64) as usize]].data.to_vec();
                let d = match r.below(4) {
                    0 => junk(&mut r, f),
                    1 => seen,
                    2 => match r.below(3) {
                        0 => ack(r.below(100)),
                        1 => data(r.below(100), &vec![9; r.below(1430) as usize]),
                        _ => error(r.below(9) as u16, "forged"),
                    },
                    _ => mutate(&mut r, seen),
                };
                let (victim, mut from) = if r.chance(1, 2) { (w.dst, w.src) } else { (w.src, w.dst) };
                // own address, or the peer's address with another port
                if r.chance(1, 2) {
                    s.send(victim, &d);
                } else {
                    from.port = from.port.wrapping_add(r.range(1, 20000) as u16).max(1);
                    sim().inject(from, victim, d);
                }
            }
            "spoof" => {
                // endpoints seen on the wire lately
                let n = sim().wire.len();
                let lo = n.saturating_sub(200);
                let cand: Vec<usize> = (lo..n).filter(|i| sim().wire[*i].k == WK::Sent && (f.watch.is_empty() || f.watch.contains(&host_of(sim().wire[*i].dst.ip)))).collect();
                if cand.is_empty() {
                    continue;
                }
                let w = sim().wire[cand[r.below(cand.len() as u64) as usize]].clone();
                let d = match r.below(4) {
                    0 => junk(&mut r, f),
                    1 => w.data.to_vec(),
                    2 => match r.below(3) {
                        0 => ack(r.below(100)),
                        1 => data(r.below(100), &vec![9; r.below(1430) as usize]),
                        _ => error(r.below(9) as u16, "forged"),
                    },
                    _ => mutate(&mut r, w.data.to_vec()),
                };
                sim().inject(w.src, w.dst, d);
            }
            // bit flips and cuts of observed packets, from the observed sender
            "mutate" | "replay" => {
                let n = sim().wire.len();
                let lo = if kind == "replay" { 0 } else { n.saturating_sub(60) };
                let cand: Vec<usize> = (lo..n).filter(|i| sim().wire[*i].k == WK::Sent && (f.watch.is_empty() || f.watch.contains(&host_of(sim().wire[*i].dst.ip)))).collect();
                if cand.is_empty() {
                    continue;
                }
                let w = sim().wire[cand[r.below(cand.len() as u64) as usize]].clone();
                let d = if kind == "mutate" { mutate(&mut r, w.data.to_vec()) } else { w.data.to_vec() };
                // to the current session of the same pair of hosts
                let last = sim().wire[lo..n].iter().rev().find(|x| x.k == WK::Sent && x.src.ip == w.src.ip && x.dst.ip == w.dst.ip).map(|x| (x.src, x.dst)).unwrap_or((w.src, w.dst));
                sim().inject(last.0, last.1, d);
            }
            _ => {}
        }
    }
    Ok(())
}

fn script(c: &Script, me: usize) -> Result<(), String> {
    let who = name(me);
    let mut s = Us::new(c.port);
    let mut last = Addr::default();
    let mut i = 0;
    let mut rep: std::collections::HashMap<usize, u32> = Default::default();
    while i < c.steps.len() {
        match &c.steps[i] {
            Step::Sleep(us) => sleep_until(sim().now + us * US),
            Step::Send(h, p, d) => {
                let to = if *p == 0 { last } else { Addr::new(*h, *p) };
                if to.port != 0 {
                    s.send(to, d);
                }
            }
            Step::Recv(us) => {
                if let Some((f, _)) = s.recv(sim().now + us * US) {
                    last = f;
                }
            }
            Step::Expect(o, us) => {
                let end = sim().now + us * US;
                loop {
                    match s.recv(end) {
                        Some((f, d)) => {
                            last = f;
                            if op(&d) == *o {
                                break;
                            }
                        }
                        None => return Err(format!("no answer of type {o}")),
                    }
                }
            }
            Step::Never(ops, us) => {
                let end = sim().now + us * US;
                while let Some((f, d)) = s.recv(end) {
                    last = f;
                    if ops.contains(&op(&d)) {
                        violate(format!("{who}: unexpected answer {}", crate::util::pkt(&d)));
                    }
                }
            }
            Step::NewPort(p) => {
                s = Us::new(*p);
                last = Addr::default();
            }
            Step::Repeat(n, k) => {
                let x = rep.entry(i).or_insert(0);
                if *x < *k {
                    *x += 1;
                    i -= n;
                    continue;
                }
                *x = 0;
            }
        }
        i += 1;
    }
    Ok(())
}

fn writer(w: &Writer) -> Result<(), String> {
    use std::io::Write;
    for (path, src, chunks) in &w.files {
        let all = scen_bytes(src);
        // through the simulated system calls, so that watchers see it
        let mut f = std::fs::File::create(path).map_err(|e| e.to_string())?;
        let mut o = 0usize;
        for (n, pause) in chunks {
            let e = (o + *n as usize).min(all.len());
            f.write_all(&all[o..e]).map_err(|e| e.to_string())?;
            o = e;
            if *pause > 0 {
                sleep_until(sim().now + pause * US);
            }
        }
        f.write_all(&all[o..]).map_err(|e| e.to_string())?;
        if w.close_us > 0 {
            sleep_until(sim().now + w.close_us * US);
        }
        drop(f);
        if w.gap_us > 0 {
            sleep_until(sim().now + w.gap_us * US);
        }
    }
    Ok(())
}
