use crate::kern::mix;

/// deterministic file content
pub fn content(seed: u64, size: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(size as usize + 8);
    let mut i = 0u64;
    while (v.len() as u64) < size {
        v.extend_from_slice(&mix(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ i).to_le_bytes());
        i += 1;
    }
    v.truncate(size as usize);
    v
}

/// short text of a packet for traces
pub fn pkt(d: &[u8]) -> String {
    if d.len() < 2 {
        return format!("[{} bytes]", d.len());
    }
    let op = (d[0] as u16) << 8 | d[1] as u16;
    let n = if d.len() >= 4 { (d[2] as u16) << 8 | d[3] as u16 } else { 0 };
    match op {
        1 | 2 => {
            let s: String = d[2..]
                .iter()
                .map(|c| if *c == 0 { '|' } else if c.is_ascii_graphic() { *c as char } else { '.' })
                .take(160)
                .collect();
            format!("{} {}", if op == 1 { "RRQ" } else { "WRQ" }, s)
        }
        3 => format!("DATA {} [{}] {:016x}", n, d.len() - 4.min(d.len()), fnv(&d[4.min(d.len())..])),
        4 => format!("ACK {n} [{}]", d.len()),
        5 => format!("ERROR {n} {}", String::from_utf8_lossy(&d[4.min(d.len())..]).replace('\0', "|")),
        6 => {
            let s: String = d[2..]
                .iter()
                .map(|c| if *c == 0 { '|' } else if c.is_ascii_graphic() { *c as char } else { '.' })
                .take(160)
                .collect();
            format!("OACK {s}")
        }
        _ => format!("[{} bytes op {op}] {:016x}", d.len(), fnv(d)),
    }
}
pub fn fnv(d: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in d {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0xabcdef))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
