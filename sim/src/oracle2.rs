//! Checks over the recorded history: files, opened paths, and what went over the wire.
use std::collections::{BTreeMap, HashMap, HashSet};

use crate::kern::*;
use crate::oracle::*;
use crate::peers::{nearest, num, op, pairs, strings};
use crate::scen::*;

pub fn walk(dir: &str, out: &mut Vec<(String, bool)>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = format!("{dir}/{}", e.file_name().to_string_lossy());
        let is_dir = e.file_type().map(|t| t.is_dir()).unwrap_or(false);
        out.push((p.clone(), is_dir));
        if is_dir {
            walk(&p, out);
        }
    }
}

fn want(sc: &Scenario, src: &str) -> Vec<u8> {
    sc.bytes_of(src).unwrap_or_default()
}

pub fn at_end(sc: &Scenario, e: &Expect) {
    let s = sim();
    match e {
        Expect::OneOf { path, srcs, absent_ok } => match read(path) {
            None => {
                if !absent_ok {
                    violate(format!("{path} does not exist"));
                }
            }
            Some(g) => {
                if !srcs.iter().any(|x| want(sc, x) == g) {
                    violate(format!("{path} ({} bytes) is none of {srcs:?}", g.len()));
                }
            }
        },
        Expect::MaxLen { path, max } => {
            if let Ok(m) = std::fs::metadata(path) {
                if m.len() > *max {
                    violate(format!("{path} has {} bytes, limit {max}", m.len()));
                }
            }
        }
        Expect::Confined { p, dir, allow } => {
            let root = format!("@/{dir}");
            for o in &s.opens {
                if o.proc != *p || !o.ok || o.real == root || o.real.starts_with(&format!("{root}/")) {
                    continue;
                }
                if o.op == "open" && o.flags & libc::O_ACCMODE == libc::O_WRONLY && o.flags & libc::O_TRUNC == 0 {
                    // looked at before it was refused; a change would show in the files
                    continue;
                }
                if allow.iter().any(|a| o.path == *a || o.real == format!("@/{a}")) {
                    continue;
                }
                violate(format!("{} outside {dir}: {} {}", sc.procs[*p].name, o.op, o.real));
            }
            for x in &s.escapes {
                violate(format!("attempted outside the scratch directory: {x}"));
            }
        }
        Expect::TreeIntact { dirs } => {
            let mut have = vec![];
            walk(".", &mut have);
            let have: Vec<(String, bool)> = have.into_iter().map(|(p, d)| (p[2..].to_string(), d)).collect();
            let mut known: HashSet<String> = HashSet::new();
            for f in &sc.files {
                let mut p = std::path::Path::new(&f.path);
                known.insert(f.path.clone());
                while let Some(q) = p.parent() {
                    known.insert(q.to_string_lossy().into_owned());
                    p = q;
                }
            }
            let inside = |p: &str| dirs.iter().any(|d| p == d || p.starts_with(&format!("{d}/")));
            for (p, _) in &have {
                if !inside(p) && !known.contains(p) {
                    violate(format!("created outside: {p}"));
                }
            }
            for f in &sc.files {
                if inside(&f.path) || f.path.starts_with("ref/") {
                    continue;
                }
                match &f.kind {
                    FileKind::Data { .. } | FileKind::Text(_) => {
                        if let Err(m) = same(&want(sc, &f.path), &f.path) {
                            violate(format!("changed outside: {m}"));
                        }
                    }
                    _ => {
                        if std::fs::symlink_metadata(&f.path).is_err() {
                            violate(format!("removed outside: {}", f.path));
                        }
                    }
                }
            }
        }
        Expect::NoLeak { srcs, texts, hosts } => {
            let mut set: HashMap<[u8; 8], String> = HashMap::new();
            for x in srcs {
                for w in want(sc, x).windows(8).step_by(8) {
                    set.insert(w.try_into().unwrap(), x.clone());
                }
            }
            for t in texts {
                // any eight bytes of the text
                for w in t.as_bytes().windows(8) {
                    set.insert(w.try_into().unwrap(), t.clone());
                }
            }
            for w in s.wire.iter().filter(|w| w.k == WK::Sent && (hosts.contains(&host_of(w.src.ip)) || hosts.is_empty())) {
                if let Some(x) = w.data.windows(8).find_map(|x| set.get(x)) {
                    violate(format!("{x} in clear from {} to {}", w.src.s(), w.dst.s()));
                    return;
                }
            }
        }
        Expect::NoPlain { hosts } => {
            for w in s.wire.iter().filter(|w| w.k == WK::Sent && hosts.contains(&host_of(w.src.ip))) {
                if w.data.len() == 4 && op(&w.data) == 4 {
                    violate(format!("an acknowledgement in clear from {} to {}", w.src.s(), w.dst.s()));
                    return;
                }
            }
        }
        Expect::NonceOnce { hosts, all } => {
            let mut seen: HashMap<(u32, &[u8]), &[u8]> = HashMap::new();
            for w in s.wire.iter().filter(|w| w.k == WK::Sent && hosts.contains(&host_of(w.src.ip)) && w.data.len() >= 44) {
                let (d, o) = (&w.data[..], op(&w.data));
                if (*all && matches!(o, 1 | 2 | 5 | 6)) || (!*all && o != 3) {
                    continue;
                }
                // the nonce ends the datagram, the first ones also carry a public key
                for cut in [0, 32] {
                    if d.len() < 44 + cut || (cut > 0 && !*all) {
                        continue;
                    }
                    let n = &d[d.len() - cut - 24..d.len() - cut];
                    let other = seen.entry((host_of(w.src.ip), n)).or_insert(d);
                    // repeated as it was, or the same public key at the end
                    let same_key = cut == 0 && other.len() >= 32 && other[other.len() - 32..] == d[d.len() - 32..];
                    if *other != d && !same_key {
                        violate(format!("two datagrams from {} use one nonce: {} and {}", w.src.s(), crate::util::pkt(other), crate::util::pkt(d)));
                        return;
                    }
                }
            }
        }
        Expect::HeapFlat { p, slack } => {
            let v: Vec<i64> = s.heaps.iter().filter(|h| h.0 == *p).map(|h| h.1).collect();
            // every round leaves more behind, also after a long pause
            let n = v.len();
            // (not once: a list may have had to grow)
            if n > 3 && v[n - 1] > v[0] + *slack && v[n - 1] > v[n / 2 - 1] + *slack / 3 {
                violate(format!("{} holds more and more memory when idle: {v:?}", sc.procs[*p].name));
            }
        }
        Expect::HeapPeak { p, max } => {
            let h: Vec<_> = s.heaps.iter().filter(|h| h.0 == *p).collect();
            if h.is_empty() && !sc.procs[*p].fg {
                return;
            }
            let base = h.first().map_or(0, |h| h.1);
            let top = h.iter().skip(1).map(|h| h.2).max().unwrap_or(0).max(crate::heap::peak(*p));
            if top > base + *max {
                violate(format!("{} needed {} bytes of memory, no more than {max} expected", sc.procs[*p].name, top - base));
            }
        }
        Expect::Differ { ps, a, b, n } => {
            if ps.iter().all(|p| ok(*p)) {
                let (x, y) = (read(a).unwrap_or_default(), read(b).unwrap_or_default());
                if x.len() >= *n && y.len() >= *n && x[..*n] == y[..*n] {
                    violate(format!("{a} and {b} begin with the same {n} bytes"));
                }
            }
        }
        Expect::NoOpenOk { p, under } => {
            let hit = |o: &crate::kern::OpenRec| o.path.contains(under.as_str()) || o.real.contains(under.as_str());
            if let Some(o) = s.opens.iter().find(|o| o.proc == *p && o.ok && hit(o)) {
                violate(format!("{} {} {}", sc.procs[*p].name, o.op, o.path));
            }
        }
        Expect::WinnerIs { path, pairs, initial } => {
            let won: Vec<&(usize, String)> = pairs.iter().filter(|x| ok(x.0)).collect();
            if initial.is_none() && won.len() > 1 {
                violate(format!("{} uploads to {path} succeeded: {:?}", won.len(), won.iter().map(|x| &sc.procs[x.0].name).collect::<Vec<_>>()));
            }
            match (won.first(), read(path)) {
                (Some((_, src)), Some(g)) if won.len() == 1 => {
                    if g != want(sc, src) {
                        violate(format!("{path} is not {src} of the upload that succeeded: {}", diff(&want(sc, src), &g)));
                    }
                }
                (Some(_), None) => violate(format!("{path} does not exist though an upload succeeded")),
                (None, Some(g)) => {
                    let prefix = |x: &[u8]| x.len() >= g.len() && x[..g.len()] == g[..];
                    if !pairs.iter().any(|(_, src)| prefix(&want(sc, src))) && initial.as_ref().is_none_or(|i| want(sc, i) != g) {
                        violate(format!("{path} ({} bytes) is no part of any one upload", g.len()));
                    }
                }
                _ => {}
            }
        }
        Expect::IfOkFile { p, path, src } => {
            if ok(*p) {
                if let Err(m) = same(&want(sc, src), path) {
                    violate(format!("{} succeeded but {m}", sc.procs[*p].name));
                }
            }
        }
        Expect::Listing { p, dst, lines } => {
            if ok(*p) {
                let got = String::from_utf8_lossy(&read(dst).unwrap_or_default()).into_owned();
                let mut g: Vec<&str> = got.split('\n').collect();
                if g.pop() != Some("") {
                    violate(format!("listing {dst} does not end with a line end"));
                }
                g.sort();
                let mut w: Vec<&str> = lines.iter().map(|x| x.as_str()).collect();
                w.sort();
                if g != w {
                    violate(format!("listing {dst} is {g:?} instead of {w:?}"));
                }
            }
        }
        Expect::OkBoth { p, q, src, dst } => {
            if ok(*p) && ok(*q) {
                if let Err(m) = same(&want(sc, src), dst) {
                    violate(format!("{} and {} succeeded but {m}", sc.procs[*p].name, sc.procs[*q].name));
                }
            }
        }
        Expect::AtRest { p, src, dst } => {
            let (w, g) = (want(sc, src), read(dst).unwrap_or_default());
            if ok(*p) && g.len() <= w.len() {
                violate(format!("{dst} stores {} bytes for {} encrypted ones", g.len(), w.len()));
            }
            let set: HashSet<&[u8]> = w.chunks_exact(8).collect();
            if g.windows(8).any(|x| set.contains(x)) {
                violate(format!("{dst} holds a part of {src} in clear"));
            }
        }
        Expect::KnownHosts { path, must, only } => {
            let got = String::from_utf8_lossy(&read(path).unwrap_or_default()).into_owned();
            let g: Vec<&str> = got.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')).collect();
            if let Some(m) = must {
                let n = g.iter().filter(|l| **l == m).count();
                if n != 1 {
                    violate(format!("{path} holds {m:?} {n} times: {g:?}"));
                }
            }
            // what was recorded before stays
            let old = crate::run::scen().bytes_of(path).unwrap_or_default();
            let old = String::from_utf8_lossy(&old).into_owned();
            let mut rest = got.lines();
            for l in old.lines().filter(|l| !l.trim().is_empty()) {
                if !rest.any(|x| x == l) {
                    violate(format!("{path} has lost the line {l:?}: {got:?}"));
                    break;
                }
            }
            if *only && g.len() != must.is_some() as usize {
                violate(format!("{path} holds other lines: {g:?}, expected {must:?}"));
            }
        }
        Expect::FreshPort { server, port, .. } => {
            // every transfer is served from its own port, never the one contacted
            let mut by_client: BTreeMap<(u32, u16), Addr> = BTreeMap::new();
            for w in s.wire.iter().filter(|w| w.k == WK::Sent && host_of(w.src.ip) == *server) {
                if w.src.port == *port && op(&w.data) != 5 {
                    violate(format!("sent from the listening port: {} to {}", crate::util::pkt(&w.data), w.dst.s()));
                    return;
                }
                if w.src.port == *port {
                    continue;
                }
                if let Some(c) = by_client.insert((*server, w.src.port), w.dst) {
                    if c != w.dst {
                        violate(format!("port {} serves {} and {}", w.src.port, c.s(), w.dst.s()));
                        return;
                    }
                }
            }
        }
        Expect::Silent { from, to } => {
            if let Some(w) = s.wire.iter().find(|w| w.k == WK::Sent && host_of(w.src.ip) == *from && host_of(w.dst.ip) == *to) {
                violate(format!("{} answered {}: {}", w.src.s(), w.dst.s(), crate::util::pkt(&w.data)));
            }
        }
        Expect::SamePort { client, server, port } => {
            for w in s.wire.iter().filter(|w| w.k == WK::Sent && host_of(w.src.ip) == *client) {
                // errors tell a stranger that he is one
                if host_of(w.dst.ip) == *server && w.dst.port != *port && op(&w.data) != 5 {
                    violate(format!("client proceeds with {}: {}", w.dst.s(), crate::util::pkt(&w.data)));
                    return;
                }
                if host_of(w.dst.ip) != *server {
                    violate(format!("client answers a stranger {}: {}", w.dst.s(), crate::util::pkt(&w.data)));
                    return;
                }
            }
        }
        Expect::Names { dir, names } => {
            let mut have = vec![];
            walk(dir, &mut have);
            let mut g: Vec<String> = have.into_iter().map(|x| x.0[dir.len() + 1..].to_string()).collect();
            g.sort();
            let mut w = names.clone();
            w.sort();
            if g != w {
                violate(format!("{dir} holds {g:?} instead of {w:?}"));
            }
        }
        Expect::SameAs { a, b } => match (read(a), read(b)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(x), Some(y)) => violate(format!("{b} differs from {a}: {}", diff(&x, &y))),
            (x, y) => violate(format!("{a} exists {} {b} exists {}", x.is_some(), y.is_some())),
        },
        Expect::WireConform { server, files } => conform(sc, *server, files),
        Expect::Traffic(t) => traffic(sc, t),
        _ => {}
    }
}

/// one transfer as seen on the wire
#[derive(Default)]
struct Ses {
    up: bool,
    name: String,
    asked: Vec<(String, String)>,
    acked: Option<Vec<(String, String)>>,
    block: u64,
    window: u64,
    /// highest block sent, highest block whose acknowledgement was delivered
    sent: u64,
    acks: u64,
    copies: HashMap<u64, u32>,
}

fn opt(o: &[(String, String)], k: &str) -> Option<u64> {
    o.iter().find(|x| x.0 == k).and_then(|x| x.1.parse().ok())
}

fn conform(sc: &Scenario, server: u32, files: &[(String, String)]) {
    let s = sim();
    let contents: HashMap<&str, Vec<u8>> = files.iter().map(|(n, p)| (n.as_str(), want(sc, p))).collect();
    let mut ses: HashMap<Addr, Ses> = HashMap::new();
    for w in &s.wire {
        let from_server = host_of(w.src.ip) == server;
        let client = if from_server { w.dst } else { w.src };
        if !from_server && host_of(w.dst.ip) != server {
            continue;
        }
        let d = &w.data;
        let o = op(d);
        if w.k == WK::Sent && !from_server && matches!(o, 1 | 2) {
            let st = strings(&d[2..]);
            if st.len() < 2 {
                continue;
            }
            let asked: Vec<(String, String)> = st[2..].chunks(2).map(|x| (x[0].to_ascii_lowercase(), x.get(1).cloned().unwrap_or_default())).collect();
            let known = ses.get(&client).is_some_and(|x| x.name == st[0] && x.asked == asked);
            if !known {
                ses.insert(client, Ses { up: o == 2, name: st[0].clone(), asked, block: 512, window: 1, ..Default::default() });
            }
            continue;
        }
        let Some(x) = ses.get_mut(&client) else { continue };
        let who = client.s();
        if w.k == WK::Delivered && o == 4 && x.up == from_server {
            let n = nearest(num(d), x.acks);
            if n <= x.sent {
                x.acks = x.acks.max(n);
            }
        }
        if w.k != WK::Sent {
            continue;
        }
        match o {
            6 if from_server => {
                let a = pairs(&d[2..]);
                if let Some(p) = &x.acked {
                    if *p != a {
                        violate(format!("{who}: two different answers to the options {p:?} {a:?}"));
                    }
                    continue;
                }
                for (i, (k, v)) in a.iter().enumerate() {
                    if a[..i].iter().any(|y| y.0 == *k) {
                        violate(format!("{who}: option {k} acknowledged twice"));
                    }
                    let Some((_, q)) = x.asked.iter().find(|y| y.0 == *k) else {
                        violate(format!("{who}: option {k}={v} acknowledged but not asked for"));
                        continue;
                    };
                    let (Ok(q), Ok(n)) = (q.parse::<u64>(), v.parse::<u64>()) else {
                        if matches!(k.as_str(), "blksize" | "windowsize" | "timeout" | "tsize") {
                            violate(format!("{who}: option {k}={v} for {q}"));
                        }
                        continue;
                    };
                    let bad = match k.as_str() {
                        "blksize" => n > q || n < 8 || n > 65464,
                        "windowsize" => n > q || n < 1,
                        "timeout" => n != q || n < 1 || n > 255,
                        "tsize" if x.up => n != q,
                        "tsize" => contents.get(x.name.as_str()).is_some_and(|c| c.len() as u64 != n),
                        _ => false,
                    };
                    if bad {
                        violate(format!("{who}: option {k} asked {q} acknowledged {n}"));
                    }
                }
                x.block = opt(&a, "blksize").unwrap_or(512);
                x.window = opt(&a, "windowsize").unwrap_or(1);
                x.acked = Some(a);
            }
            3 if x.up != from_server => {
                let n = nearest(num(d), x.sent.max(1));
                let body = &d[4.min(d.len())..];
                if n == 0 || n > x.sent + x.window {
                    violate(format!("{who}: block {n} sent after {} with window {}", x.sent, x.window));
                    continue;
                }
                if n > x.acks + x.window {
                    violate(format!("{who}: block {n} sent, acknowledged {}, window {}", x.acks, x.window));
                }
                x.sent = x.sent.max(n);
                if let Some(c) = contents.get(x.name.as_str()) {
                    let a = ((n - 1) * x.block).min(c.len() as u64 + 1) as usize;
                    let b = (n * x.block).min(c.len() as u64) as usize;
                    if a > c.len() {
                        violate(format!("{who}: block {n} sent after the last one"));
                    } else if *body != c[a.min(b)..b] {
                        violate(format!("{who}: block {n} holds {} bytes instead of {} or others, agreed {}", body.len(), b - a.min(b), x.block));
                    }
                } else if body.len() as u64 > x.block {
                    violate(format!("{who}: block {n} has {} bytes, agreed {}", body.len(), x.block));
                }
            }
            _ => {}
        }
    }
}

fn traffic(_sc: &Scenario, t: &TrafficSpec) {
    let s = sim();
    let mut ses: HashMap<Addr, Ses> = HashMap::new();
    // the answer to the request is over once the client has gone on
    let mut going: HashMap<Addr, u32> = HashMap::new();
    for w in &s.wire {
        if w.k == WK::Delivered && host_of(w.dst.ip) == t.server && matches!(op(&w.data), 3 | 4) {
            going.entry(w.src).or_default();
        }
        if w.k == WK::Sent && host_of(w.src.ip) == t.server && op(&w.data) == 6 {
            if let Some(n) = going.get_mut(&w.dst) {
                *n += 1;
                if *n > 1 {
                    violate(format!("options acknowledged again at {:.3}s though {} has gone on", w.t as f64 / 1e9, w.dst.s()));
                    break;
                }
            }
        }
    }
    let mut total: HashMap<Addr, u64> = HashMap::new();
    for w in s.wire.iter().filter(|w| w.k == WK::Sent) {
        let from_server = host_of(w.src.ip) == t.server;
        let client = if from_server { w.dst } else { w.src };
        *total.entry(client).or_default() += 1;
        let x = ses.entry(client).or_default();
        if op(&w.data) == 3 {
            let n = nearest(num(&w.data), x.sent);
            x.sent = x.sent.max(n);
            *x.copies.entry(n).or_default() += 1;
        }
    }
    for (c, x) in &ses {
        let mut v: Vec<(u64, u32)> = x.copies.iter().map(|x| (*x.0, *x.1)).filter(|y| y.0 + t.last <= x.sent).collect();
        v.sort();
        if let Some((b, n)) = v.iter().find(|y| y.1 > t.max_copies) {
            violate(format!("block {b} of the transfer with {} sent {n} times, limit {}", c.s(), t.max_copies));
        }
        let n: u64 = v.iter().map(|y| y.1 as u64).sum();
        if n > t.max_data {
            violate(format!("{} blocks of the transfer with {} sent {n} times, limit {}", v.len(), c.s(), t.max_data));
        }
    }
    for (c, n) in total {
        if n > t.max_total {
            violate(format!("{n} datagrams in the transfer with {}, limit {}", c.s(), t.max_total));
        }
    }
}
