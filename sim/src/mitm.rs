//! Adversaries on the path: see every datagram before the network does.
use std::rc::Rc;

use crate::kern::*;
use crate::peers::{op, pairs, strings};
use crate::scen::MitmSpec;

type Out = Vec<(Addr, Addr, Rc<Vec<u8>>, u64)>;

/// split a request into operation, name, mode and options
pub fn split(d: &[u8]) -> Option<(Vec<u8>, Vec<(String, String)>)> {
    match op(d) {
        1 | 2 => {
            let st = strings(&d[2..]);
            if st.len() < 2 {
                return None;
            }
            let mut head = vec![0, d[1]];
            for s in &st[..2] {
                head.extend(s.as_bytes());
                head.push(0);
            }
            Some((head, st[2..].chunks(2).map(|x| (x[0].clone(), x.get(1).cloned().unwrap_or_default())).collect()))
        }
        6 => Some((vec![0, 6], pairs(&d[2..]))),
        _ => None,
    }
}
pub fn join(head: Vec<u8>, o: &[(String, String)]) -> Vec<u8> {
    let mut v = head;
    for (k, x) in o {
        v.extend(k.as_bytes());
        v.push(0);
        v.extend(x.as_bytes());
        v.push(0);
    }
    v
}

fn applies(m: &MitmSpec, a: Addr, b: Addr) -> bool {
    let (x, y) = (host_of(a.ip), host_of(b.ip));
    (x == m.a && (y == m.b || m.b == 0)) || (y == m.a && (x == m.b || m.b == 0))
}

/// does this packet look like one of the plain handshake (request, answer to options, error in clear)
fn plain_handshake(d: &[u8]) -> bool {
    split(d).is_some() && d.is_ascii()
}

pub fn make(m: &MitmSpec) -> MitmFn {
    let m = m.clone();
    let words: Vec<String> = m.s.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut seen: Vec<(Addr, Addr, Rc<Vec<u8>>)> = vec![];
    let mut count = 0u64;
    let mut stolen = false;
    Box::new(move |s: &mut Sim, a: Addr, b: Addr, d: Rc<Vec<u8>>| -> Out {
        if !applies(&m, a, b) {
            return vec![(a, b, d, 0)];
        }
        count += 1;
        let id = count;
        let to_server = host_of(b.ip) == crate::gen::SRV;
        match m.kind.as_str() {
            // n: 0 both directions, 1 requests, 2 answers
            "drop-opt" | "set-opt" | "add-opt" => {
                let dir_ok = m.n == 0 || (m.n == 1) == to_server;
                if let (Some((head, mut o)), true) = (split(&d), dir_ok) {
                    s.count(K::Mitm);
                    if m.kind == "drop-opt" {
                        if words.iter().any(|w| w == "*") {
                            o.clear();
                        }
                        o.retain(|(k, _)| !words.contains(k));
                    } else {
                        for w in &words {
                            let (k, v) = w.split_once('=').unwrap_or((w, ""));
                            match o.iter_mut().find(|x| x.0 == k) {
                                Some(x) => x.1 = v.to_string(),
                                None if m.kind == "add-opt" => o.push((k.to_string(), v.to_string())),
                                None => {}
                            }
                        }
                    }
                    if o.is_empty() && head == [0, 6] {
                        // an answer without options is a plain acknowledgement
                        return vec![(a, b, Rc::new(vec![0, 4, 0, 0]), 0)];
                    }
                    return vec![(a, b, Rc::new(join(head, &o)), 0)];
                }
                vec![(a, b, d, 0)]
            }
            // change session packets; n: leave the first n bytes alone, m: only packets with this operation
            "tamper" => {
                if plain_handshake(&d) || (m.m != 0 && op(&d) != m.m as u8) || d.len() as u64 <= m.n {
                    return vec![(a, b, d, 0)];
                }
                if to_server && !seen.iter().any(|x| x.0 == a && x.1 == b) {
                    seen.push((a, b, d.clone()));
                }
                // the client has keys for this session
                let keyed = seen.iter().any(|x| (x.0 == a && x.1 == b) || (x.0 == b && x.1 == a));
                match s.decide(K::Mitm, id, m.ppm, u64::MAX) {
                    None => vec![(a, b, d, 0)],
                    Some(v) => {
                        let mut x = (*d).clone();
                        let lo = m.n as usize;
                        let r = |k: u64, n: usize| (hash3(v, k, 5) % n.max(1) as u64) as usize;
                        match v % 11 {
                            // a packet in clear, as if nothing were encrypted
                            8.. if keyed && m.m == 0 => {
                                let n = hash3(v, 11, 3);
                                let w = [n as u8 & 1, (n >> 8) as u8];
                                x = match v % 7 {
                                    0..=2 => b"\0\x05\0\x01File not found\0".to_vec(),
                                    3 => vec![0, 4, w[0], w[1] % 40],
                                    4 => [&[0, 3, w[0], w[1] % 40][..], &vec![0x41; r(5, 1400)]].concat(),
                                    5 => b"\0\x06blksize\0512\0windowsize\01\0".to_vec(),
                                    _ => b"\0\x05\0\x03Disk full\0".to_vec(),
                                };
                            }
                            0 => x.truncate(lo + r(1, x.len() - lo)),
                            1 => {
                                let n = 1 + r(1, 40);
                                x.extend((0..n).map(|i| hash3(v, i as u64, 9) as u8));
                            }
                            2 => {
                                for i in lo..x.len() {
                                    x[i] = hash3(v, i as u64, 3) as u8;
                                }
                            }
                            3 => {
                                // one bit near the end
                                let i = (x.len() - 1).saturating_sub(r(1, 45)).max(lo);
                                x[i] ^= 1 << r(2, 8);
                            }
                            4 => {
                                // cut out a piece
                                let i = lo + r(1, x.len() - lo);
                                let e = (i + 1 + r(2, 64)).min(x.len());
                                x.drain(i..e);
                            }
                            _ => {
                                let i = lo + r(1, x.len() - lo);
                                x[i] ^= 1 << r(2, 8);
                            }
                        }
                        if *d == x {
                            x.push(0);
                        }
                        let keep = hash3(v, 77, 1) % 2 == 0;
                        // replaced, or an additional forged copy before or after the genuine packet
                        let f = (a, b, Rc::new(x), 0);
                        match (keep, hash3(v, 78, 1) % 2) {
                            (false, _) => vec![f],
                            (true, 0) => vec![f, (a, b, d, 20_000)],
                            (true, _) => vec![(a, b, d, 0), f],
                        }
                    }
                }
            }
            // deliver recorded packets again; n: 1 same session only, 2 of other sessions, 0 any; m: operation
            "replay" => {
                let mut out = vec![(a, b, d.clone(), 0)];
                if let Some(v) = s.decide(K::Mitm, id, m.ppm, u64::MAX) {
                    let c: Vec<&(Addr, Addr, Rc<Vec<u8>>)> = seen
                        .iter()
                        .filter(|x| host_of(x.0.ip) == host_of(a.ip) && host_of(x.1.ip) == host_of(b.ip))
                        .filter(|x| match m.n {
                            1 => x.0 == a && x.1 == b,
                            2 => x.0 != a,
                            _ => true,
                        })
                        .filter(|x| m.m == 0 || op(&x.2) == m.m as u8)
                        .filter(|x| !plain_handshake(&x.2))
                        .collect();
                    if !c.is_empty() {
                        let k = hash3(v, 1, 1) % c.len() as u64;
                        let x = (a, b, c[k as usize].2.clone(), (v >> 32) % 30_000_000);
                        if v % 2 == 0 {
                            out.push(x);
                        } else {
                            out.insert(0, x);
                        }
                    }
                }
                if seen.len() < 4000 {
                    seen.push((a, b, d));
                }
                out
            }
            // return packets to their sender as if from its peer
            "reflect" => {
                let mut out = vec![(a, b, d.clone(), 0)];
                if !plain_handshake(&d) && s.decide(K::Mitm, id, m.ppm, 1000).is_some() {
                    out.push((b, a, d, 0));
                }
                out
            }
            // give the data of one block the header of another
            "relabel" => {
                if op(&d) == 3 && d.len() >= 4 {
                    if let Some(p) = seen.iter().rev().find(|x| x.0 == a && x.1 == b && x.2.len() == d.len() && x.2[..4] != d[..4]) {
                        let body = p.2.clone();
                        if s.decide(K::Mitm, id, m.ppm, 1000).is_some() {
                            let mut x = (*body).clone();
                            x[2] = d[2];
                            x[3] = d[3];
                            return vec![(a, b, Rc::new(x), 0)];
                        }
                    }
                    seen.push((a, b, d.clone()));
                }
                vec![(a, b, d, 0)]
            }
            // another host sends a copy of the first request after the transfer, m: microseconds later, n: host
            "steal-request" => {
                if to_server && !stolen && matches!(op(&d), 1 | 2) {
                    stolen = true;
                    s.count(K::Mitm);
                    let from = Addr::new(m.n as u32, 5555);
                    return vec![(a, b, d.clone(), 0), (from, b, d, m.m * US)];
                }
                vec![(a, b, d, 0)]
            }
            k => panic!("mitm {k}"),
        }
    })
}
