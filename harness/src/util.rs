//! RNG, event log, independent CRC and element codec (none of it taken from the code under test).
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
}

/// CRC-32/CKSUM (poly 04C11DB7, not reflected, init 0, xorout FFFFFFFF), bitwise.
pub fn crc_cksum(chunks: &[&[u8]]) -> u32 {
    let mut crc: u32 = 0;
    for c in chunks {
        for &b in *c {
            crc ^= (b as u32) << 24;
            for _ in 0..8 {
                crc = if crc & 0x8000_0000 != 0 { (crc << 1) ^ 0x04C1_1DB7 } else { crc << 1 };
            }
        }
    }
    !crc
}

/// Decoded form of a stored item
#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    S(u32),
    D,
    E(u32, u32),
    X,
}

/// Independent decoder of the on-flash element format.
pub fn decode(raw: &[u8]) -> Dec {
    if raw.is_empty() {
        return Dec::X;
    }
    let le = |b: &[u8]| u32::from(b[0]) | u32::from(b[1]) << 8 | u32::from(b[2]) << 16 | u32::from(b[3]) << 24;
    match raw[0] {
        0x00 if raw.len() == 5 && le(&raw[1..5]) != 0 => Dec::S(le(&raw[1..5])),
        0x01 if raw.len() >= 2 => Dec::D,
        0x02 if raw.len() == 9 && le(&raw[1..5]) != 0 => Dec::E(le(&raw[1..5]), le(&raw[5..9])),
        _ => Dec::X,
    }
}
pub fn enc_start(s: u32) -> Vec<u8> {
    let mut v = vec![0];
    v.extend_from_slice(&s.to_le_bytes());
    v
}
pub fn enc_end(s: u32, c: u32) -> Vec<u8> {
    let mut v = vec![2];
    v.extend_from_slice(&s.to_le_bytes());
    v.extend_from_slice(&c.to_le_bytes());
    v
}
pub fn enc_data(key: &str, val: &[u8]) -> Vec<u8> {
    let mut v = vec![1];
    cbor_str(&mut v, key);
    v.extend_from_slice(val);
    v
}
pub fn cbor_head(v: &mut Vec<u8>, major: u8, n: usize) {
    let m = major << 5;
    if n < 24 {
        v.push(m | n as u8);
    } else if n < 256 {
        v.push(m | 24);
        v.push(n as u8);
    } else if n < 65536 {
        v.push(m | 25);
        v.extend_from_slice(&(n as u16).to_be_bytes());
    } else {
        v.push(m | 26);
        v.extend_from_slice(&(n as u32).to_be_bytes());
    }
}
pub fn cbor_str(v: &mut Vec<u8>, s: &str) {
    cbor_head(v, 3, s.len());
    v.extend_from_slice(s.as_bytes());
}
/// parse a CBOR definite-length head; returns (major, argument, bytes used)
pub fn cbor_parse(b: &[u8]) -> Option<(u8, u64, usize)> {
    let f = *b.first()?;
    let (m, a) = (f >> 5, f & 31);
    let n = match a {
        0..=23 => return Some((m, a as u64, 1)),
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => return None,
    };
    let mut x = 0u64;
    for i in 0..n {
        x = x << 8 | *b.get(1 + i)? as u64;
    }
    Some((m, x, 1 + n))
}
/// Split key+value bytes: (key, value bytes)
pub fn split_kv(kv: &[u8]) -> Option<(&str, &[u8])> {
    let (m, n, used) = cbor_parse(kv)?;
    if m != 3 {
        return None;
    }
    let s = kv.get(used..used.checked_add(n as usize)?)?;
    Some((std::str::from_utf8(s).ok()?, &kv[used + n as usize..]))
}

/// Value numbers, by the bytes they stand for ([] are CBOR arrays):
///   x < 500000            [x, padding]            (type 0; from BIG on the padding has x - BIG bytes)
///   500000 + x            "b<x>"                  (type 1)
///   600000 + x            [x, padding, x % 7 + 1]
///   700000 + x            [x, padding, 0]
///   800000 + x            [x]
///   from JUNK on          anything else
/// Type 2 is type 0 with an added optional field, type 4 with an added defaulted field, type 3 lacks the padding.
pub const TYB: u32 = 500_000;
pub const JUNK: u32 = 1_000_000;
/// values of type 0 from BIG on are padded to (v - BIG) bytes
pub const BIG: u32 = 400_000;
pub const SUB: u32 = 100_000;
pub const TYPES: u32 = 5;

/// the value that a node of type `ty` writes when it is told to write number `v`
pub fn own(ty: u32, v: u32) -> u32 {
    match ty {
        0 => v % TYB,
        1 => TYB + v % SUB,
        2 => if v % 2 == 1 { v % SUB } else { 600_000 + v % SUB },
        3 => 800_000 + v % SUB,
        _ => if v % 2 == 1 { 700_000 + v % SUB } else { 600_000 + v % SUB },
    }
}
pub fn pad_of(v: u32) -> usize {
    if v >= BIG { (v - BIG) as usize } else { (v as usize * 7) % 23 }
}
pub fn enc_val(v: u32) -> Vec<u8> {
    let mut o = Vec::new();
    if (TYB..TYB + SUB).contains(&v) {
        let s = format!("b{}", v - TYB);
        cbor_str(&mut o, &s);
        return o;
    }
    let x = if v < TYB { v } else { v % SUB };
    let n = match v {
        0..500_000 => 2,
        800_000.. => 1,
        _ => 3,
    };
    cbor_head(&mut o, 4, n);
    cbor_head(&mut o, 0, x as usize);
    if n > 1 {
        let p = pad_of(x);
        cbor_head(&mut o, 2, p);
        o.extend(std::iter::repeat_n((x & 0xff) as u8, p));
    }
    if n > 2 {
        cbor_head(&mut o, 0, if v < 700_000 { x as usize % 7 + 1 } else { 0 });
    }
    o
}
pub fn dec_val(b: &[u8]) -> Option<u32> {
    let (m, n, u) = cbor_parse(b)?;
    let v = match m {
        4 if (1..=3).contains(&n) => {
            let (m2, x, _) = cbor_parse(&b[u..])?;
            if m2 != 0 || x >= if n == 2 { TYB } else { SUB } as u64 {
                return None;
            }
            match n {
                1 => 800_000 + x as u32,
                2 => x as u32,
                _ => if b[b.len() - 1] == 0 { 700_000 + x as u32 } else { 600_000 + x as u32 },
            }
        }
        3 => {
            let s = std::str::from_utf8(b.get(u..u.checked_add(n as usize)?)?).ok()?;
            let x: u32 = s.strip_prefix('b')?.parse().ok()?;
            if x >= SUB {
                return None;
            }
            TYB + x
        }
        _ => return None,
    };
    if enc_val(v) == b { Some(v) } else { None }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Interning of keys and of values that are no known encoding
pub struct Intern {
    pub keys: Vec<String>,
    junk: HashMap<Vec<u8>, u32>,
    /// shift applied to sequence numbers in events so that they fit TLC's 32-bit integers
    pub seq_shift: i64,
    crcs: HashMap<u32, String>,
    unknown: HashMap<u32, usize>,
    pub intent: Vec<(usize, u32, Vec<u8>)>,
}
impl Intern {
    pub fn new() -> Self {
        Intern { keys: vec![], junk: HashMap::new(), seq_shift: 0, crcs: HashMap::new(), unknown: HashMap::new(), intent: vec![] }
    }
    pub fn key(&mut self, k: &str) -> usize {
        if let Some(i) = self.keys.iter().position(|x| x == k) {
            return i + 1;
        }
        self.keys.push(k.to_string());
        self.keys.len()
    }
    pub fn junk(&mut self, b: &[u8]) -> u32 {
        let n = JUNK + 1 + self.junk.len() as u32;
        *self.junk.entry(b.to_vec()).or_insert(n)
    }
    /// key number (0: no key) and value number of the key+value bytes of a data element
    pub fn kv(&mut self, kv: &[u8]) -> (usize, u32) {
        match split_kv(kv) {
            None => (0, self.junk(kv)),
            Some((k, v)) => {
                let mut canon = Vec::new();
                cbor_str(&mut canon, k);
                let canonical = canon[..] == kv[..kv.len() - v.len()];
                let ki = self.key(k);
                match dec_val(v) {
                    Some(x) if canonical => (ki, x),
                    Some(x) => {
                        // decodable, but not the canonical bytes: distinct content that decodes to x
                        let _ = x;
                        (0, self.junk(kv))
                    }
                    None => (ki, self.junk(v)),
                }
            }
        }
    }
    /// remember which data list a checksum belongs to
    fn register(&mut self, ds: &[(usize, u32, Vec<u8>)]) {
        self.crcs.entry(Self::crc(ds)).or_insert_with(|| Self::list(ds));
    }
    fn crc(ds: &[(usize, u32, Vec<u8>)]) -> u32 {
        crc_cksum(&ds.iter().map(|d| &d.2[..]).collect::<Vec<_>>())
    }
    fn list(ds: &[(usize, u32, Vec<u8>)]) -> String {
        let l: Vec<String> = ds.iter().map(|d| format!("[{},{}]", d.0, d.1)).collect();
        format!("[{}]", l.join(","))
    }
    /// an element is about to be appended: follow what the writer means to store
    pub fn intended(&mut self, raw: &[u8]) {
        match decode(raw) {
            Dec::S(_) => self.intent.clear(),
            Dec::D => {
                let (k, v) = self.kv(&raw[1..]);
                self.intent.push((k, v, raw[1..].to_vec()));
            }
            _ => {
                let ds = std::mem::take(&mut self.intent);
                self.register(&ds);
                self.intent = ds;
            }
        }
    }
    /// replace the checksums in an event (`@crc@`) by the data lists they belong to
    pub fn resolve(&mut self, ev: &str) -> String {
        if !ev.contains('@') {
            return ev.to_string();
        }
        let mut out = String::new();
        for (i, p) in ev.split('@').enumerate() {
            if i % 2 == 0 {
                out.push_str(p);
            } else {
                let c: u32 = p.parse().unwrap();
                match self.crcs.get(&c) {
                    Some(l) => out.push_str(l),
                    None => {
                        let n = 1 + self.unknown.len();
                        let n = *self.unknown.entry(c).or_insert(n);
                        out.push_str(&format!("[[0,{n}]]"));
                    }
                }
            }
        }
        out
    }
    pub fn seq(&self, s: u32) -> i64 {
        s as i64 - self.seq_shift
    }
    /// JSON of a list of raw items as abstract elements (lengths given separately)
    pub fn elems(&mut self, raws: &[(Vec<u8>, usize)]) -> String {
        let mut out = Vec::new();
        // data elements since the last start, if any
        let mut cur: Option<Vec<(usize, u32, Vec<u8>)>> = None;
        for (raw, len) in raws {
            let e = self.elem(raw, *len, cur.as_deref());
            match decode(raw) {
                Dec::S(_) => cur = Some(vec![]),
                Dec::D => {
                    let (k, v) = self.kv(&raw[1..]);
                    if let Some(c) = cur.as_mut() {
                        c.push((k, v, raw[1..].to_vec()));
                    }
                }
                _ => cur = None,
            }
            out.push(e);
        }
        format!("[{}]", out.join(","))
    }
    /// JSON of one raw item, given the data elements preceding it since the last start
    pub fn elem(&mut self, raw: &[u8], len: usize, cur: Option<&[(usize, u32, Vec<u8>)]>) -> String {
        let (k, s, key, v, c) = match decode(raw) {
            Dec::S(s) => ("S", self.seq(s), 0, 0, "[]".to_string()),
            Dec::D => {
                let (k, v) = self.kv(&raw[1..]);
                ("D", 0, k, v, "[]".to_string())
            }
            Dec::E(s, c) => {
                let cl = match cur {
                    Some(ds) if Self::crc(ds) == c => Self::list(ds),
                    _ => format!("@{c}@"),
                };
                if let Some(ds) = cur {
                    self.register(ds);
                }
                ("E", self.seq(s), 0, c & 0x3fff_ffff, cl)
            }
            Dec::X => ("X", 0, 0, 0, "[]".to_string()),
        };
        format!("{{\"k\":\"{k}\",\"s\":{s},\"key\":{key},\"v\":{v},\"c\":{c},\"l\":{len},\"f\":0}}")
    }
}

#[derive(Default)]
struct ReadAcc {
    b: usize,
    bl: usize,
    n: usize,
    m: usize,
    it: usize,
}
pub struct LogInner {
    pub ev: Vec<String>,
    acc: ReadAcc,
    pub intern: Intern,
}
/// The event log of a scenario
#[derive(Clone)]
pub struct Log(pub Rc<RefCell<LogInner>>);
impl Log {
    pub fn new() -> Self {
        Log(Rc::new(RefCell::new(LogInner { ev: vec![], acc: ReadAcc::default(), intern: Intern::new() })))
    }
    fn flush(l: &mut LogInner) {
        if l.acc.n > 0 {
            let a = std::mem::take(&mut l.acc);
            l.ev.push(format!("{{\"e\":\"rd\",\"b\":{},\"bl\":{},\"n\":{},\"m\":{},\"it\":{}}}", a.b, a.bl, a.n, a.m, a.it));
        }
    }
    pub fn push(&self, s: String) {
        let mut l = self.0.borrow_mut();
        Self::flush(&mut l);
        l.ev.push(s);
    }
    pub fn ev(&self, tag: &str, fields: &[(&str, i64)]) {
        let f: String = fields.iter().map(|(k, v)| format!(",\"{k}\":{v}")).collect();
        self.push(format!("{{\"e\":\"{tag}\"{f}}}"));
    }
    pub fn iter_begin(&self) {
        let mut l = self.0.borrow_mut();
        l.acc.bl = 0;
        l.acc.it = 1;
        l.acc.n += 1;
        // n counts calls, so that a bare iterator creation is visible too
    }
    /// an element was returned by the iterator (m: presented differently from what is stored)
    pub fn read(&self, len: usize, mismatch: bool) {
        let mut l = self.0.borrow_mut();
        l.acc.b += len;
        l.acc.bl += len;
        l.acc.n += 1;
        l.acc.m += mismatch as usize;
    }
}

/// Minimal executor pieces
pub mod exec {
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::Arc;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::task::{Context, Wake, Waker};

    pub struct Flag(pub AtomicBool);
    impl Wake for Flag {
        fn wake(self: Arc<Self>) {
            self.0.store(true, Ordering::SeqCst);
        }
    }
    pub struct Task {
        pub fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
        pub flag: Arc<Flag>,
        pub id: u32,
    }
    pub struct Exec {
        pub tasks: Vec<Task>,
        /// tasks that are not polled for now
        pub held: Vec<u32>,
        next: u32,
    }
    impl Exec {
        pub fn new() -> Self {
            Exec { tasks: vec![], held: vec![], next: 1 }
        }
        pub fn spawn(&mut self, fut: Pin<Box<dyn Future<Output = ()>>>) -> u32 {
            let id = self.next;
            self.next += 1;
            self.tasks.push(Task { fut: Some(fut), flag: Arc::new(Flag(AtomicBool::new(true))), id });
            id
        }
        pub fn woken(&self) -> bool {
            self.tasks.iter().any(|t| t.flag.0.load(Ordering::SeqCst) && !self.held.contains(&t.id))
        }
        /// is there a task that could run but is not polled?
        pub fn held_woken(&self) -> bool {
            self.tasks.iter().any(|t| t.flag.0.load(Ordering::SeqCst) && self.held.contains(&t.id))
        }
        /// Drop a task's future. True if it was still there.
        pub fn kill(&mut self, id: u32) -> bool {
            self.held.retain(|h| *h != id);
            if let Some(p) = self.tasks.iter().position(|t| t.id == id) {
                let t = self.tasks.remove(p);
                drop(t);
                true
            } else {
                false
            }
        }
        /// Poll one of the woken tasks, picked by `order`; false if there is none
        pub fn step(&mut self, order: impl FnOnce(usize) -> usize) -> bool {
            let woken: Vec<usize> =
                (0..self.tasks.len())
                    .filter(|&i| self.tasks[i].flag.0.load(Ordering::SeqCst) && !self.held.contains(&self.tasks[i].id))
                    .collect();
            if woken.is_empty() {
                return false;
            }
            let i = woken[order(woken.len()) % woken.len()];
            let t = &mut self.tasks[i];
            t.flag.0.store(false, Ordering::SeqCst);
            let w = Waker::from(t.flag.clone());
            let mut cx = Context::from_waker(&w);
            if t.fut.as_mut().unwrap().as_mut().poll(&mut cx).is_ready() {
                let t = self.tasks.remove(i);
                drop(t);
            }
            true
        }
    }
}
