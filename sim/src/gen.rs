//! Scenario generators: one per property, driven by a seed.
use crate::{gen2, gen3, gen4, gen5};
use crate::run::Outcome;
use crate::scen::*;
use crate::util::Rng;

pub const SRV: u32 = 1;
pub const PORT: u16 = 69;

pub struct Cx {
    pub r: Rng,
    pub cfg: String,
    pub i: u64,
    pub deep: bool,
    pub sc: Scenario,
    pub note: Vec<String>,
}

/// a key pair as the command line wants it
pub struct Key {
    pub private: String,
    pub public: String,
}
pub fn b64(b: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::STANDARD.encode(b)
}
pub fn key(n: u64) -> Key {
    let seed: [u8; 32] = crate::util::content(0x6b65_7900 ^ n, 32).try_into().unwrap();
    let k = ed25519_dalek::SigningKey::from_bytes(&seed);
    Key { private: b64(&seed), public: b64(k.verifying_key().as_bytes()) }
}

#[derive(Clone, Default)]
pub struct SrvOpts {
    pub overwrite: bool,
    pub extra: Vec<String>,
    pub request_timeout: Option<u64>,
    pub dir: Option<String>,
}
#[derive(Clone, Default)]
pub struct CliOpts {
    pub block: Option<u64>,
    pub window: Option<u64>,
    pub retry: Option<u64>,
    pub request_timeout: Option<u64>,
    pub level: Option<String>,
    pub private: Option<String>,
    pub server_public: Option<String>,
    pub known_hosts: Option<String>,
    pub listen: Option<String>,
    pub port_change: bool,
    pub file_key: Option<String>,
    pub prefer_seek: bool,
    pub max_file_size: Option<u64>,
    pub endpoint: Option<String>,
}

impl Cx {
    pub fn enc(&self) -> bool {
        self.cfg == "mt" || self.cfg == "stackenc"
    }
    pub fn mt(&self) -> bool {
        self.cfg == "mt"
    }
    pub fn stack(&self) -> bool {
        self.cfg == "stack" || self.cfg == "stackenc"
    }
    pub fn max_window(&self) -> u64 {
        if self.stack() {
            16
        } else {
            1000
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.note.push(s.into());
    }

    pub fn server(&mut self, o: &SrvOpts) -> usize {
        let dir = o.dir.clone().unwrap_or("srv".into());
        let mut a: Vec<String> = vec!["server".into(), format!("10.0.0.{SRV}:{PORT}"), dir.clone()];
        if o.overwrite {
            a.push("--allow-overwrite".into());
        }
        if let Some(t) = o.request_timeout {
            a.push("--request-timeout".into());
            a.push(t.to_string());
        }
        a.extend(o.extra.iter().cloned());
        self.sc.dir(&dir);
        self.sc.proc("server", SRV, Prog::Bin(a), StartAt::At(0), false)
    }
    pub fn cli_args(&self, o: &CliOpts) -> Vec<String> {
        let mut a = vec![];
        let mut kv = |k: &str, v: Option<String>| {
            if let Some(v) = v {
                a.push(format!("{k}={v}"));
            }
        };
        kv("--block-size", o.block.map(|x| x.to_string()));
        kv("--window-size", o.window.map(|x| x.to_string()));
        kv("--retry-timeout", o.retry.map(|x| x.to_string()));
        kv("--request-timeout", o.request_timeout.map(|x| x.to_string()));
        kv("--max-file-size", o.max_file_size.map(|x| x.to_string()));
        kv("--listen", o.listen.clone());
        if self.enc() {
            kv("--encryption-level", o.level.clone());
            kv("--private-key", o.private.clone());
            kv("--server-public-key", o.server_public.clone());
            kv("--known-hosts", o.known_hosts.clone());
            kv("--encryption-key", o.file_key.clone());
        }
        if o.port_change {
            a.push("--allow-server-port-change".into());
        }
        a
    }
    pub fn send(&mut self, name: &str, host: u32, o: &CliOpts, local: &str, remote: &str, start: StartAt) -> usize {
        let ep = o.endpoint.clone().unwrap_or(format!("10.0.0.{SRV}:{PORT}"));
        let mut a: Vec<String> = vec!["send".into(), ep, local.into(), format!("--remote-path={remote}")];
        if o.prefer_seek {
            a.push("--prefer-seek".into());
        }
        a.extend(self.cli_args(o));
        self.sc.proc(name, host, Prog::Bin(a), start, true)
    }
    pub fn receive(&mut self, name: &str, host: u32, o: &CliOpts, remote: &str, local: &str, start: StartAt) -> usize {
        let ep = o.endpoint.clone().unwrap_or(format!("10.0.0.{SRV}:{PORT}"));
        let mut a: Vec<String> = vec!["receive".into(), ep, remote.into(), format!("--local-path={local}")];
        a.extend(self.cli_args(o));
        self.sc.proc(name, host, Prog::Bin(a), start, true)
    }

    // ---- random choices ----
    pub fn block(&mut self) -> u64 {
        match self.r.below(5) {
            0 => 512,
            1 => 1425,
            2 => 1024,
            _ => self.r.range(512, 1425),
        }
    }
    pub fn window(&mut self) -> u64 {
        match self.r.below(8) {
            0 | 1 => 1,
            2 => 2,
            3 => 4,
            4 => 8,
            5 => 16,
            6 => self.r.range(1, 16),
            _ => {
                if self.stack() {
                    16
                } else {
                    *self.r.pick(&[17, 32, 64, 128])
                }
            }
        }
    }
    pub fn level(&mut self) -> Option<String> {
        if !self.enc() {
            return None;
        }
        Some((*self.r.pick(&["protocol", "data", "optional-data", "optional-protocol", "none", "none"])).to_string())
    }
    /// payload bytes per block
    pub fn payload(&self, block: u64, level: &Option<String>) -> u64 {
        match level.as_deref() {
            Some("protocol") | Some("optional-protocol") => block - 41,
            Some("data") | Some("optional-data") => block - 40,
            _ => block,
        }
    }
    pub fn size(&mut self, payload: u64, window: u64, max_blocks: u64) -> u64 {
        let e = *self.r.pick(&[0i64, 0, 1, -1, 2, 7]);
        match self.r.below(8) {
            0 => self.r.below(4),
            1 => (payload as i64 + e).max(0) as u64,
            2 => (payload as i64 * self.r.range(1, 4) as i64 + e).max(0) as u64,
            3 => (payload as i64 * window.min(max_blocks) as i64 + e).max(0) as u64,
            4 => (payload as i64 * (window * self.r.range(1, 4)).min(max_blocks) as i64 + e).max(0) as u64,
            _ => self.r.below(payload * max_blocks + 1),
        }
    }
    pub fn cli(&mut self) -> CliOpts {
        let mut o = CliOpts { block: Some(self.block()), window: Some(self.window()), level: self.level(), ..Default::default() };
        if self.r.chance(1, 4) {
            o.retry = Some(*self.r.pick(&[80, 100, 250, 1000, 2000]));
        }
        o.prefer_seek = self.r.chance(1, 3);
        // a client with its own key uses the authenticated handshake
        if self.enc() && o.level.as_deref() != Some("none") && self.r.chance(1, 4) {
            o.private = Some(key(100).private);
        }
        o
    }
    pub fn srv(&mut self) -> SrvOpts {
        let mut o = SrvOpts { overwrite: self.r.chance(1, 3), ..Default::default() };
        if self.r.chance(1, 3) {
            o.extra.push("--prefer-seek".into());
        }
        if self.enc() && self.r.chance(1, 3) {
            o.extra.push(format!("--private-key={}", key(1).private));
        }
        if self.r.chance(1, 6) {
            o.extra.push("--require-server-port-change".into());
        }
        o
    }
    /// random network behaviour; the strength 0..=5
    pub fn net(&mut self) {
        let r = &mut self.r;
        let n = &mut self.sc.net;
        n.latency_us = *r.pick(&[20, 100, 100, 500, 2000, 10_000, 40_000]);
        if r.chance(1, 2) {
            n.jitter_us = r.below(n.latency_us * 2 + 1);
        }
        let k = r.below(9);
        let name = match k {
            0 => "clean",
            1 => {
                n.drop_ppm = 10_000;
                n.dup_ppm = 10_000;
                n.delay_ppm = 20_000;
                n.delay_max_us = 30_000;
                "light"
            }
            2 => {
                n.drop_ppm = r.range(50_000, 200_000) as u32;
                "loss"
            }
            3 => {
                n.dup_ppm = r.range(100_000, 500_000) as u32;
                n.delay_max_us = *r.pick(&[500, 20_000, 200_000]);
                "dup"
            }
            4 => {
                n.delay_ppm = r.range(100_000, 500_000) as u32;
                n.delay_max_us = *r.pick(&[300, 5_000, 90_000, 300_000]);
                "reorder"
            }
            5 => {
                n.drop_ppm = r.range(20_000, 150_000) as u32;
                n.dup_ppm = r.range(20_000, 200_000) as u32;
                n.delay_ppm = r.range(20_000, 300_000) as u32;
                n.delay_max_us = *r.pick(&[2_000, 50_000, 150_000, 500_000]);
                "mixed"
            }
            6 => {
                n.drop_ppm = 20_000;
                n.dup_ppm = 50_000;
                n.delay_ppm = 30_000;
                n.delay_max_us = *r.pick(&[1_000_000, 4_000_000]);
                "late"
            }
            7 => {
                n.rxq_bytes = *r.pick(&[3_000, 6_000, 12_000, 40_000]);
                n.drop_ppm = 5_000;
                "overflow"
            }
            _ => {
                // hit mostly the control packets
                n.drop_ppm = r.range(100_000, 400_000) as u32;
                n.only_ops = if r.chance(1, 2) { vec![4, 6] } else { vec![1, 2, 6] };
                "control-loss"
            }
        };
        self.note(format!("net={name}"));
    }
    pub fn sched(&mut self) {
        let r = &mut self.r;
        let s = &mut self.sc.sched;
        s.preempt_ppm = *r.pick(&[0, 2_000, 30_000, 200_000]);
        if r.chance(1, 4) {
            s.tstall_ppm = *r.pick(&[100, 1_000]);
            s.tstall_max_us = *r.pick(&[500, 20_000, 200_000]);
        }
        s.quantum_us = *r.pick(&[10, 40, 200]);
    }
    pub fn desc(&mut self, o: &CliOpts, size: u64) {
        self.note(format!(
            "size={size} block={:?} window={:?} level={} retry={:?} seek={}",
            o.block.unwrap_or(0),
            o.window.unwrap_or(0),
            o.level.as_deref().unwrap_or("-"),
            o.retry.unwrap_or(80),
            o.prefer_seek
        ));
    }
}

pub fn make(prop: &str, cfg: &str, seed: u64, i: u64, deep: bool) -> Scenario {
    let mut c = Cx { r: Rng::new(seed), cfg: cfg.into(), i, deep, sc: Scenario::new(prop, cfg, seed), note: vec![] };
    match prop {
        "C01" => integrity(&mut c, true),
        "C02" => integrity(&mut c, false),
        "C03" => gen2::wrap(&mut c),
        "C04" => gen2::liveness(&mut c),
        "C05" => gen2::vanish(&mut c),
        "C07" => gen2::crowd(&mut c),
        "C19" => gen2::limit(&mut c),
        "C20" => gen2::crash(&mut c),
        "C24" => gen2::clocks(&mut c),
        "C26" => gen2::reuse(&mut c),
        "C27" => gen5::memory(&mut c),
        "C28" => gen5::told(&mut c),
        "C06" => gen3::hostile(&mut c),
        "C08" => gen3::negotiation(&mut c),
        "C09" => gen3::sizes(&mut c),
        "C10" => gen3::authorized(&mut c),
        "C11" => gen3::secrecy(&mut c),
        "C12" => gen3::tampering(&mut c),
        "C13" => gen3::storage(&mut c),
        "C14" => gen3::names(&mut c),
        "C15" => gen3::races(&mut c),
        "C16" => gen4::sync_dir(&mut c),
        "C17" => gen4::at_rest(&mut c),
        "C18" => gen4::interop(&mut c),
        "C21" => gen4::traffic(&mut c),
        "C22" => gen4::third_party(&mut c),
        "C23" => gen4::listings(&mut c),
        "C25" => gen4::server_keys(&mut c),
        _ => panic!("no generator for {prop}"),
    }
    c.sc.note = c.note.join(" ");
    c.sc
}

/// what counts as a run that exercised the property (described in each rule of tools/plan.py)
pub fn nontrivial(sc: &Scenario, o: &Outcome) -> bool {
    let hits: u64 = o.counts.iter().filter(|(k, _)| k.as_str() != "Preempt").map(|x| *x.1).sum();
    match sc.prop.as_str() {
        // something that must not succeed, be stored or be seen was attempted in every scenario
        "C06" | "C09" | "C10" | "C14" | "C15" | "C16" | "C25" | "C27" => o.packets > 4,
        "C28" => o.packets > 1,
        "C05" => hits > 0,
        // several transfers that could get into each other's way
        "C07" | "C19" | "C26" => o.oks >= 2,
        "C08" | "C11" | "C18" | "C23" => o.oks > 0,
        _ => o.oks > 0 && hits > 0,
    }
}

/// length of a file that is already there when another of `size` bytes arrives
fn old_size(c: &mut Cx, size: u64) -> u64 {
    match c.r.below(4) {
        0 => size,
        1 => size + 1,
        2 => c.r.below(size + 1),
        _ => size + c.r.below(5000),
    }
}

fn integrity(c: &mut Cx, up: bool) {
    c.note(if up { "upload" } else { "download" });
    let so = c.srv();
    let mut o = c.cli();
    if so.extra.iter().any(|x| x == "--require-server-port-change") {
        o.port_change = true;
    }
    let payload = c.payload(o.block.unwrap(), &o.level);
    let maxb = if c.deep { 400 } else { 80 };
    let size = c.size(payload, o.window.unwrap(), maxb);
    c.net();
    if c.r.chance(1, 8) {
        // copies of the request arrive in the middle of the session
        c.note("late-requests");
        let n = &mut c.sc.net;
        n.only_ops = vec![1, 2];
        n.dup_ppm = 1_000_000;
        n.delay_max_us = c.r.range(1_000, 200_000);
    }
    c.sched();
    c.desc(&o, size);
    let s = c.server(&so);
    let fseed = c.r.next();
    let start = StartAt::At(c.r.range(1_000, 300_000));
    if up {
        c.sc.data("c1/in.bin", fseed, size);
        if so.overwrite && c.r.chance(1, 2) {
            let old = old_size(c, size);
            let s = c.r.next();
            c.sc.data("srv/up.bin", s, old);
            c.note("replaces");
        }
        let p = c.send("client", 2, &o, "c1/in.bin", "up.bin", start);
        c.sc.expects.push(Expect::OkExact { p, src: "c1/in.bin".into(), dst: "srv/up.bin".into(), at_end: !so.overwrite });
        c.sc.expects.push(Expect::OkCount { p, src: "c1/in.bin".into() });
    } else {
        c.sc.data("srv/down.bin", fseed, size);
        c.sc.dir("c1");
        if c.r.chance(1, 3) {
            let old = old_size(c, size);
            let s = c.r.next();
            c.sc.data("c1/out.bin", s, old);
            c.note("replaces");
        }
        let p = c.receive("client", 2, &o, "down.bin", "c1/out.bin", start);
        c.sc.expects.push(Expect::OkExact { p, src: "srv/down.bin".into(), dst: "c1/out.bin".into(), at_end: true });
        c.sc.expects.push(Expect::OkCount { p, src: "srv/down.bin".into() });
        c.sc.expects.push(Expect::Unchanged("srv/down.bin".into()));
    }
    c.sc.expects.push(Expect::NoPanic(s));
    c.sc.end_us = 200_000_000;
}
