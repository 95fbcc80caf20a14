//! Scenario generation: random scenarios by profile, and exhaustive disturbance sweeps.
use crate::util::{BIG, Rng, cbor_head, crc_cksum, enc_data, enc_end, enc_start, enc_val, own, TYPES};
use crate::world::{Be, Cmd, Setup, World, run_script, step_guarded};
use std::io::Write;

/// Weights of a profile
#[derive(Clone)]
pub struct Prof {
    pub nodes: (usize, usize),
    pub len: (usize, usize),
    pub flash_init: usize,
    pub leave_open: usize,
    pub w: Vec<(&'static str, usize)>,
    pub open_w: Vec<(&'static str, usize)>,
    pub be_flash: usize,
    pub order: usize,
    pub high: usize,
    pub settle_end: usize,
    pub big: usize,
    /// sizes of big values: from, range
    pub bigr: (usize, usize),
    /// flashes as small as possible
    pub tight: bool,
    /// nodes that share keys and differ in their types
    pub schema: bool,
    /// many nodes
    pub wide: bool,
    /// long histories of ordinary use, much on the flash in the beginning
    pub long: bool,
}
fn base() -> Prof {
    Prof {
        nodes: (1, 4),
        len: (15, 45),
        flash_init: 50,
        leave_open: 45,
        w: vec![
            ("att", 24), ("hd", 3), ("det", 2), ("wr", 22), ("ld", 6), ("R", 12), ("W", 14), ("G", 12), ("X", 1),
            ("flt", 6), ("crash", 3), ("env", 0), ("dmg", 0), ("watch", 2), ("atc", 2), ("det2", 1), ("att2", 1), ("E", 0), ("half", 1), ("hold", 4), ("rel", 3), ("late", 1), ("drop", 1),
        ],
        open_w: vec![("step", 50), ("fin", 20), ("opc", 5), ("crash", 4), ("att", 6), ("wr", 10), ("det", 2), ("hd", 2), ("ld", 3), ("wrc", 2), ("dtc", 2), ("atc", 3), ("att2", 1), ("hold", 4), ("rel", 2)],
        be_flash: 0,
        order: 40,
        high: 4,
        settle_end: 70,
        big: 2,
        bigr: (200, 120),
        tight: false,
        schema: false,
        wide: false,
        long: false,
    }
}
fn set(v: &mut Vec<(&'static str, usize)>, k: &'static str, n: usize) {
    v.retain(|x| x.0 != k);
    v.push((k, n));
}
pub fn profile(name: &str) -> Prof {
    let mut p = base();
    match name {
        // the general mix
        "mix" => {}
        // little disturbance: what every user sees
        "plain" => {
            set(&mut p.w, "half", 0);
            p.leave_open = 10;
            set(&mut p.w, "flt", 0);
            set(&mut p.w, "crash", 3);
            p.open_w = vec![("step", 20), ("fin", 60), ("wr", 10), ("att", 8)];
        }
        "crash" => {
            p.leave_open = 60;
            set(&mut p.w, "flt", 2);
            set(&mut p.open_w, "crash", 14);
            set(&mut p.open_w, "opc", 1);
            p.len = (25, 60);
        }
        "fault" => {
            set(&mut p.w, "half", 5);
            p.leave_open = 15;
            set(&mut p.w, "flt", 16);
            set(&mut p.w, "W", 18);
            set(&mut p.w, "G", 16);
            p.len = (25, 60);
        }
        "cancel" => {
            set(&mut p.w, "half", 5);
            p.leave_open = 70;
            set(&mut p.w, "drop", 8);
            set(&mut p.open_w, "opc", 14);
            set(&mut p.open_w, "wrc", 6);
            set(&mut p.open_w, "dtc", 6);
            set(&mut p.open_w, "atc", 8);
            set(&mut p.open_w, "det", 5);
            set(&mut p.w, "atc", 8);
            set(&mut p.w, "det", 6);
            set(&mut p.w, "hd", 6);
        }
        "conc" => {
            p.leave_open = 75;
            set(&mut p.open_w, "att", 14);
            set(&mut p.open_w, "wr", 16);
            set(&mut p.open_w, "step", 40);
            set(&mut p.w, "watch", 5);
            set(&mut p.w, "hold", 8);
            set(&mut p.open_w, "hold", 8);
            p.nodes = (2, 5);
            p.order = 70;
        }
        "lists" => {
            p.nodes = (2, 5);
            set(&mut p.w, "att2", 10);
            set(&mut p.w, "det2", 6);
            set(&mut p.w, "det", 10);
            set(&mut p.w, "hd", 10);
            set(&mut p.w, "att", 30);
            set(&mut p.w, "atc", 5);
            set(&mut p.w, "E", 8);
            set(&mut p.w, "flt", 1);
            p.flash_init = 30;
        }
        "gc" => {
            p.flash_init = 85;
            set(&mut p.w, "G", 24);
            set(&mut p.w, "W", 22);
            set(&mut p.w, "R", 14);
            set(&mut p.w, "flt", 5);
            p.len = (20, 60);
            p.nodes = (1, 3);
        }
        "seq" => {
            p.flash_init = 95;
            p.high = 30;
            set(&mut p.w, "X", 6);
            set(&mut p.w, "env", 4);
            set(&mut p.w, "crash", 6);
            set(&mut p.w, "dmg", 4);
            p.nodes = (1, 3);
        }
        "reset" => {
            set(&mut p.w, "X", 10);
            set(&mut p.w, "envx", 8);
            p.flash_init = 60;
        }
        "damage" => {
            set(&mut p.w, "dmg", 8);
            set(&mut p.w, "env", 3);
            set(&mut p.w, "crash", 8);
            p.flash_init = 80;
        }
        "flash" => {
            p.be_flash = 100;
            p.len = (15, 50);
            p.high = 0;
            p.nodes = (1, 3);
            set(&mut p.w, "flt", 3);
            p.big = 0;
        }
        "power" => {
            p.be_flash = 100;
            p.len = (20, 50);
            p.high = 0;
            p.nodes = (1, 3);
            set(&mut p.w, "flt", 0);
            set(&mut p.w, "cut", 12);
            set(&mut p.w, "R", 16);
            set(&mut p.w, "G", 18);
            set(&mut p.w, "W", 24);
            p.leave_open = 10;
            p.big = 0;
        }
        // flashes that are too small for what has to be stored
        "fill" => {
            p.be_flash = 100;
            p.tight = true;
            p.len = (25, 70);
            p.high = 0;
            p.nodes = (1, 4);
            p.leave_open = 15;
            p.flash_init = 20;
            set(&mut p.w, "flt", 2);
            set(&mut p.w, "cut", 3);
            set(&mut p.w, "wr", 30);
            set(&mut p.w, "W", 24);
            set(&mut p.w, "G", 18);
            set(&mut p.w, "lf", 2);
            p.big = 60;
            p.bigr = (10, 60);
        }
        // types that change from boot to boot and from attach to attach
        "schema" => {
            p.schema = true;
            p.nodes = (1, 2);
            p.len = (25, 60);
            p.leave_open = 20;
            p.flash_init = 60;
            set(&mut p.w, "att", 34);
            set(&mut p.w, "hd", 14);
            set(&mut p.w, "det", 14);
            set(&mut p.w, "crash", 5);
            set(&mut p.w, "flt", 3);
            set(&mut p.w, "env", 2);
        }
        "half" => {
            p.nodes = (2, 4);
            p.flash_init = 75;
            p.len = (10, 25);
            p.leave_open = 20;
            set(&mut p.w, "half", 30);
        }
        "late" => {
            p.nodes = (2, 4);
            p.flash_init = 60;
            p.len = (8, 20);
            p.leave_open = 20;
            set(&mut p.w, "late", 40);
        }
        "many" => {
            p.wide = true;
            p.nodes = (6, 30);
            p.len = (30, 80);
            p.leave_open = 25;
            set(&mut p.w, "att", 60);
            set(&mut p.open_w, "att", 14);
        }
        "long" => {
            p.long = true;
            p.nodes = (1, 3);
            p.flash_init = 90;
            p.len = (5, 20);
        }
        "deep" => {
            p.len = (80, 200);
        }
        _ => {
            eprintln!("unknown profile {name}");
            std::process::exit(2);
        }
    }
    p
}

const KEYS: [&str; 8] = ["k1", "config/alpha", "b", "a much longer key that needs two bytes", "k5", "äöü", "", "k8"];
/// keys that are easily mistaken for others
const MORE: [&str; 24] = [
    "k", "k10", "k1 ", "K1", "k1\0", "config", "config/", "config/alph", "config/alphb", "Config/alpha", "config/alpha/x", "B", " b", "bb",
    "a much longer key that needs two bytez", "A much longer key that needs two bytes", "exactly-23-bytes-as-key", "exactly-24-bytes-as-key.",
    "ae", "äö", "1", "\u{1}", "configuration/of/some/really/deeply/nested/thing/number/one/that/has/a/long/name",
    "configuration/of/some/really/deeply/nested/thing/number/two/that/has/a/long/name",
];

struct Vals(u32);
impl Vals {
    fn next(&mut self) -> u32 {
        self.0 += 1;
        self.0
    }
}

fn data_item(r: &mut Rng, key: &str, ty: u32, vals: &mut Vals) -> Vec<u8> {
    let v = vals.next();
    let x = r.below(100);
    let val = if x < 80 {
        enc_val(own(ty, v))
    } else if x < 93 {
        // another type: converted, or not decodable as the node's type
        enc_val(own(r.below(TYPES as usize) as u32, v))
    } else {
        // cbor, but of no known type
        let mut o = vec![];
        cbor_head(&mut o, 0, v as usize);
        o
    };
    enc_data(key, &val)
}

/// A flash content as it may be found: valid records in any order, remains of interrupted operations, rubbish
pub fn random_flash(r: &mut Rng, nodes: &[(String, u32)], vals: &mut Vals2, rubbish: usize, high: bool, max_rec: usize) -> Vec<Vec<u8>> {
    let v = &mut vals.0;
    let mut out: Vec<Vec<u8>> = vec![];
    let nrec = r.below(max_rec + 1);
    let base: u32 = if high { (1 << 31) + r.below(10_000) as u32 } else {
        // also around the byte boundaries of the number
        let b = *r.pick(&[1, 1, 1, 1, 1, 1, 250, 65_530, 16_777_210]);
        b + r.below(4) as u32
    };
    let mut seqs: Vec<u32> = vec![];
    let mut s = base;
    for _ in 0..nrec {
        seqs.push(s);
        s += 1 + if r.chance(20) { r.below(5) as u32 } else { 0 };
    }
    if r.chance(15) {
        // not in order of age
        for i in (1..seqs.len()).rev() {
            seqs.swap(i, r.below(i + 1));
        }
    }
    let mut next = s;
    for q in seqs {
        if r.chance(rubbish) {
            junk(r, nodes, v, &mut out, &mut next);
        }
        record(r, nodes, v, &mut out, q);
    }
    if r.chance(rubbish) {
        junk(r, nodes, v, &mut out, &mut next);
    }
    out
}
fn datas(r: &mut Rng, nodes: &[(String, u32)], v: &mut Vals) -> Vec<Vec<u8>> {
    let mut ks: Vec<(String, u32)> = vec![];
    for n in nodes {
        if !ks.iter().any(|k| k.0 == n.0) && r.chance(80) {
            ks.push(n.clone());
        }
    }
    if r.chance(20) {
        ks.push(("unknown key".into(), 0));
    }
    for i in (1..ks.len()).rev() {
        ks.swap(i, r.below(i + 1));
    }
    let mut out: Vec<Vec<u8>> = ks.iter().map(|k| data_item(r, &k.0, k.1, v)).collect();
    if r.chance(7) {
        // no key
        let x = match r.below(5) {
            0 => vec![1, 0xff],
            1 => vec![1, 0x05, 0x61, 0x62],
            2 => vec![1, 0x62, 0xc3, 0x28, 0x01],
            3 => vec![1, 0x66, 0x61],
            _ => vec![1, 0x82, 0x01, 0x40],
        };
        let i = r.below(out.len() + 1);
        out.insert(i, x);
    }
    if !ks.is_empty() && r.chance(5) {
        // a key twice
        let k = r.pick(&ks).clone();
        let x = data_item(r, &k.0, k.1, v);
        let i = r.below(out.len() + 1);
        out.insert(i, x);
    }
    out
}
fn record(r: &mut Rng, nodes: &[(String, u32)], v: &mut Vals, out: &mut Vec<Vec<u8>>, seq: u32) {
    let d = datas(r, nodes, v);
    let crc = crc_cksum(&d.iter().map(|x| &x[1..]).collect::<Vec<_>>());
    out.push(enc_start(seq));
    out.extend(d);
    out.push(enc_end(seq, crc));
}
fn junk(r: &mut Rng, nodes: &[(String, u32)], v: &mut Vals, out: &mut Vec<Vec<u8>>, next: &mut u32) {
    // an invalid record may carry any number, higher ones included
    let q = if r.chance(60) { *next + r.below(3) as u32 } else { 1.max(*next - 1) };
    match r.below(9) {
        // interrupted: start and some data
        0 | 1 => {
            out.push(enc_start(q));
            let mut d = datas(r, nodes, v);
            d.truncate(r.below(d.len() + 1));
            out.extend(d);
        }
        // wrong checksum
        2 => {
            out.push(enc_start(q));
            let d = datas(r, nodes, v);
            out.extend(d);
            out.push(enc_end(q, 0x1234_5678));
        }
        // end of another record
        3 => {
            out.push(enc_start(q));
            let d = datas(r, nodes, v);
            let crc = crc_cksum(&d.iter().map(|x| &x[1..]).collect::<Vec<_>>());
            out.extend(d);
            out.push(enc_end(q + 1, crc));
        }
        // rubbish in the middle
        4 => {
            out.push(enc_start(q));
            let d = datas(r, nodes, v);
            let crc = crc_cksum(&d.iter().map(|x| &x[1..]).collect::<Vec<_>>());
            let at = r.below(d.len() + 1);
            out.extend(d[..at].to_vec());
            out.push(rub(r));
            out.extend(d[at..].to_vec());
            out.push(enc_end(q, crc));
        }
        // no start (its start was invalidated by an interrupted collection)
        5 => {
            let d = datas(r, nodes, v);
            let crc = crc_cksum(&d.iter().map(|x| &x[1..]).collect::<Vec<_>>());
            out.extend(d);
            out.push(enc_end(q, crc));
        }
        6 => out.push(enc_end(q, crc_cksum(&[]))),
        7 => {
            out.push(rub(r));
        }
        // a start directly before the next thing
        _ => out.push(enc_start(q)),
    }
}
fn rub(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![0x03, 1, 2, 3, 4],
        1 => vec![0xff; 9],
        2 => vec![0x00, 0, 0, 0, 0],
        3 => vec![0x00, 1, 0, 0, 0, 0],
        4 => vec![0x00, 9, 0, 0],
        5 => vec![0x02, 1, 0, 0, 0, 1, 2, 3],
        6 => vec![0x02, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff],
        _ => vec![0x80; 1 + r.below(40)],
    }
}
pub struct Vals2(Vals);
impl Vals2 {
    pub fn new() -> Self {
        Vals2(Vals(10))
    }
}

pub fn random_setup(p: &Prof, r: &mut Rng, vals: &mut Vals2) -> Setup {
    let k = *r.pick(&[1, 1, 2, 2, 3, 3, 3, 4, 5]);
    let nn = p.nodes.0 + r.below(p.nodes.1 - p.nodes.0 + 1);
    let mut nodes: Vec<(String, u32)> = vec![];
    for i in 0..nn {
        // sometimes two nodes share a key
        let ki = if i > 0 && r.chance(12) { r.below(i) } else { i };
        let ty = if p.schema { *r.pick(&[0, 0, 1, 2, 2, 3, 4]) } else { *r.pick(&[0, 0, 0, 0, 0, 1, 1, 2, 3, 4]) };
        if p.wide || r.chance(15) {
            // a key of its own, from all there are
            let mut j = r.below(KEYS.len() + MORE.len());
            let key = |j: usize| if j < KEYS.len() { KEYS[j] } else { MORE[(j - KEYS.len()) % MORE.len()] };
            if !r.chance(8) {
                for _ in 0..32 {
                    if nodes.iter().all(|n| n.0 != key(j)) {
                        break;
                    }
                    j = (j + 1) % (KEYS.len() + MORE.len());
                }
            }
            nodes.push((key(j).to_string(), ty));
            continue;
        }
        nodes.push((KEYS[(ki + r.below(2) * 4 * (ki == i) as usize) % 8].to_string(), ty));
    }
    if p.schema {
        // the same keys again with other types
        for i in 0..nn {
            nodes.push((nodes[i].0.clone(), *r.pick(&[0, 2, 2, 3, 4])));
        }
    }
    let be = if r.chance(p.be_flash) {
        let g = r.below(8);
        if p.tight { Be::Flash(*r.pick(&[0, 1, 5, 7]), 2 + r.below(4)) } else { Be::Flash(g, [8, 16, 4, 3, 8, 8, 8, 8][g] + r.below(3)) }
    } else {
        Be::Model
    };
    let high = r.chance(p.high);
    let flash = if r.chance(p.flash_init) { random_flash(r, &nodes, vals, 35, high, if p.long { 60 } else { k.max(2) + 2 }) } else { vec![] };
    let order = if r.chance(p.order) { 1 + r.next() % 1000 } else { 0 };
    Setup { k, be, nodes, flash, order, high_seq: high }
}

pub struct Gen<'a> {
    pub w: World,
    pub cmds: Vec<Cmd>,
    pub r: &'a mut Rng,
    vals: Vals2,
    ok: bool,
}
impl Gen<'_> {
    fn go(&mut self, c: Cmd) {
        if !self.ok || self.w.dead {
            return;
        }
        self.ok = step_guarded(&mut self.w, &c);
        self.cmds.push(c);
    }
    fn val(&mut self, big: usize, range: (usize, usize)) -> u32 {
        if self.r.chance(big) {
            // by default around or beyond what fits into an element
            BIG + (range.0 + self.r.below(range.1)) as u32
        } else {
            self.vals.0.next()
        }
    }
    fn pick_node(&mut self, pref: impl Fn(&World, usize) -> bool) -> usize {
        let n = self.w.n_nodes();
        let c: Vec<usize> = (0..n).filter(|&i| pref(&self.w, i)).collect();
        if c.is_empty() || self.r.chance(8) { self.r.below(n) } else { *self.r.pick(&c) }
    }
    fn full_op(&mut self, op: char) {
        self.go(Cmd::Op { op, lst: 1, buf: 0 });
        self.go(Cmd::Fin);
    }
    fn step(&mut self, p: &Prof) {
        let open = self.w.op.is_some();
        let ws = if open { &p.open_w } else { &p.w };
        let total: usize = ws.iter().map(|x| x.1).sum();
        let mut x = self.r.below(total);
        let mut what = "fin";
        for (k, n) in ws {
            if x < *n {
                what = k;
                break;
            }
            x -= n;
        }
        // most operations follow the documented order: do what the last refusal asks for
        if !open && "RWG".contains(what) && self.r.chance(60) {
            what = match self.w.done_ops.last().map(|d| (d.0, d.2.as_str())) {
                Some(('W', "nfr")) => "R",
                Some(('W', "ngc")) => "G",
                None => "R",
                Some(('R', "ok")) if what == "R" => "W",
                _ => what,
            };
        }
        match what {
            "att" => {
                let n = self.pick_node(|w, i| w.slots[i].handle.is_none() && w.slots[i].att.is_empty());
                let def = self.val(0, p.bigr);
                self.go(Cmd::Att { n, lst: 1, def });
            }
            "att2" => {
                let n = self.r.below(self.w.n_nodes());
                let def = self.val(0, p.bigr);
                self.go(Cmd::Att { n, lst: 2, def });
            }
            "hd" => {
                let n = self.pick_node(|w, i| w.slots[i].handle.is_some() && w.slots[i].wr.is_none());
                self.go(Cmd::Hd { n });
            }
            "det" => {
                let n = self.pick_node(|w, i| w.slots[i].handle.is_none() && w.slots[i].att.is_empty() && w.slots[i].lst == 1);
                self.go(Cmd::Det { n, lst: 1 });
            }
            "det2" => {
                let n = self.pick_node(|w, i| w.slots[i].handle.is_none() && w.slots[i].lst == 2);
                self.go(Cmd::Det { n, lst: 2 });
            }
            "wr" => {
                let n = self.pick_node(|w, i| w.slots[i].handle.is_some() && w.slots[i].wr.is_none());
                let v = self.val(p.big, p.bigr);
                self.go(Cmd::Wr { n, v });
            }
            "ld" => {
                let n = self.pick_node(|w, i| w.slots[i].handle.is_some());
                self.go(Cmd::Ld { n });
            }
            "atc" => {
                let n = self.pick_node(|w, i| !w.slots[i].att.is_empty());
                self.go(Cmd::Atc { n });
            }
            "wrc" => {
                let n = self.pick_node(|w, i| w.slots[i].wr.is_some());
                self.go(Cmd::Wrc { n });
            }
            "dtc" => {
                let n = self.pick_node(|w, i| w.slots[i].det.is_some());
                self.go(Cmd::Dtc { n });
            }
            "R" | "W" | "G" | "X" => {
                let mut buf = if self.r.chance(3) && p.be_flash == 0 { 8 + self.r.below(120) } else { 0 };
                if what == "W" && p.be_flash == 0 && self.r.chance(20) {
                    // a buffer that is just large enough
                    buf = self.w.fit_buf().unwrap_or(buf);
                }
                self.go(Cmd::Op { op: what.chars().next().unwrap(), lst: 1, buf });
                if !self.r.chance(p.leave_open) {
                    self.go(Cmd::Fin);
                }
            }
            "lf" => {
                // one interrupted write-back after the other
                let n = 3 + self.r.below(16);
                for _ in 0..n {
                    for i in 0..self.w.n_nodes() {
                        if self.w.slots[i].handle.is_none() && self.w.slots[i].att.is_empty() {
                            let def = self.val(p.big, p.bigr);
                            self.go(Cmd::Att { n: i, lst: 1, def });
                        }
                    }
                    self.full_op('R');
                    if self.r.chance(70) {
                        self.full_op('G');
                    }
                    let i = self.r.below(self.w.n_nodes());
                    if self.w.slots[i].handle.is_some() {
                        let v = self.val(p.big, p.bigr);
                        self.go(Cmd::Wr { n: i, v });
                    }
                    if self.r.chance(50) {
                        let nth = 1 + self.r.below(7) as u32;
                        self.go(Cmd::Flt { k: "pe".into(), nth });
                        self.full_op('W');
                    } else {
                        self.go(Cmd::Op { op: 'W', lst: 1, buf: 0 });
                        let j = 1 + self.r.below(9) as u32;
                        self.go(Cmd::Step(j));
                        self.go(Cmd::Crash);
                    }
                    if self.r.chance(20) {
                        self.go(Cmd::Crash);
                    }
                }
            }
            "E" => {
                let op = *self.r.pick(&['R', 'R', 'W', 'G', 'X']);
                self.go(Cmd::Op { op, lst: 2, buf: 0 });
                self.go(Cmd::Fin);
            }
            "flt" => {
                let k = *self.r.pick(&["pn", "pe", "ps", "pl", "px", "in", "ie", "re", "it", "pn", "pe", "in", "ie", "re"]);
                // 0: every time from now on
                let nth = if self.r.chance(7) { 0 } else { 1 + self.r.below(8) as u32 };
                self.go(Cmd::Flt { k: k.into(), nth });
            }
            "cut" => {
                let nth = 1 + self.r.below(14) as u32;
                let words = self.r.below(8) as u32;
                self.go(Cmd::Cut { nth, words });
            }
            "step" => {
                let j = 1 + if self.r.chance(30) { self.r.below(12) as u32 } else { 0 };
                self.go(Cmd::Step(j));
            }
            "hold" => {
                let n = self.pick_node(|w, i| !w.slots[i].att.is_empty() || w.slots[i].wr.is_some() || w.slots[i].det.is_some());
                self.go(Cmd::Hold(n));
            }
            "rel" => self.go(Cmd::Rel),
            "fin" => self.go(Cmd::Fin),
            "opc" => self.go(Cmd::Opc),
            "crash" => self.go(Cmd::Crash),
            "env" | "envx" => {
                let f = if self.r.chance(40) {
                    vec![]
                } else {
                    let nodes = self.w.setup.nodes.clone();
                    let high = self.w.setup.high_seq;
                    random_flash(self.r, &nodes, &mut self.vals, 35, high, 4)
                };
                self.go(Cmd::Env(f));
                // a changed medium calls for a cache reset or a reboot
                if what == "envx" || self.r.chance(50) {
                    self.go(Cmd::Op { op: 'X', lst: 1, buf: 0 });
                    self.go(Cmd::Fin);
                } else {
                    self.go(Cmd::Crash);
                }
            }
            "dmg" => {
                let i = self.r.below(64);
                let m = self.r.below(4) as u8;
                self.go(Cmd::Dmg(i, m));
                if self.r.chance(50) {
                    self.go(Cmd::Op { op: 'X', lst: 1, buf: 0 });
                    self.go(Cmd::Fin);
                } else {
                    self.go(Cmd::Crash);
                }
            }
            // a read that fails or is abandoned after it has filled some of the nodes
            "half" => {
                if self.r.chance(70) {
                    self.go(Cmd::Crash);
                    self.full_op('R');
                }
                let mut order: Vec<usize> = (0..self.w.n_nodes()).collect();
                for i in (1..order.len()).rev() {
                    let j = self.r.below(i + 1);
                    order.swap(i, j);
                }
                for n in order.clone() {
                    if self.r.chance(20) {
                        continue;
                    }
                    let def = self.val(0, p.bigr);
                    self.go(Cmd::Att { n, lst: 1, def });
                    if self.r.chance(60) {
                        self.go(Cmd::Atc { n });
                    }
                }
                self.go(Cmd::Op { op: 'R', lst: 1, buf: 0 });
                let j = 1 + self.r.below(12) as u32;
                self.go(Cmd::Step(j));
                match self.r.below(3) {
                    0 => self.go(Cmd::Opc),
                    _ => {
                        let nth = 1 + self.r.below(2) as u32;
                        self.go(Cmd::Flt { k: "re".into(), nth });
                        self.go(Cmd::Fin);
                    }
                }
                for n in order {
                    if self.w.slots[n].handle.is_none() && self.w.slots[n].att.is_empty() && self.r.chance(70) {
                        let def = self.val(0, p.bigr);
                        self.go(Cmd::Att { n, lst: 1, def });
                    }
                    if self.w.slots[n].handle.is_some() && self.r.chance(60) {
                        let v = self.val(p.big, p.bigr);
                        self.go(Cmd::Wr { n, v });
                    }
                }
                if self.r.chance(70) {
                    if self.r.chance(30) {
                        self.full_op('G');
                    }
                    self.full_op('W');
                }
            }
            // calls that are late: they go on only in the middle of a later operation
            "late" => {
                if self.r.chance(60) {
                    self.go(Cmd::Crash);
                }
                for n in 0..self.w.n_nodes() {
                    if self.w.slots[n].handle.is_none() && self.w.slots[n].att.is_empty() && self.r.chance(85) {
                        let def = self.val(0, p.bigr);
                        self.go(Cmd::Att { n, lst: 1, def });
                        if self.r.chance(50) {
                            self.go(Cmd::Hold(n));
                        }
                    }
                }
                self.full_op('R');
                if self.r.chance(30) {
                    self.full_op('G');
                }
                for n in 0..self.w.n_nodes() {
                    if self.w.slots[n].handle.is_some() && self.w.slots[n].wr.is_none() && self.r.chance(60) {
                        let v = self.val(p.big, p.bigr);
                        self.go(Cmd::Wr { n, v });
                    }
                }
                let op = *self.r.pick(&['W', 'W', 'W', 'W', 'R', 'G', 'X']);
                self.go(Cmd::Op { op, lst: 1, buf: 0 });
                let j = 1 + self.r.below(8) as u32;
                self.go(Cmd::Step(j));
                self.go(Cmd::Rel);
                if self.r.chance(20) {
                    self.go(Cmd::Opc);
                }
                self.go(Cmd::Fin);
                if self.r.chance(70) {
                    self.full_op('G');
                    self.full_op('W');
                }
            }
            // calls that are given up while they wait for an operation, and what comes of them
            "drop" => {
                if self.r.chance(50) {
                    let x = *self.r.pick(&['X', 'X', 'R']);
                    self.full_op(x);
                }
                let op = *self.r.pick(&['R', 'R', 'W', 'W', 'G']);
                self.go(Cmd::Op { op, lst: 1, buf: 0 });
                let j = self.r.below(8) as u32;
                self.go(Cmd::Step(j));
                let mut calls = vec![];
                for _ in 0..1 + self.r.below(3) {
                    let n = self.r.below(self.w.n_nodes());
                    let s = &self.w.slots[n];
                    let (h, a, w) = (s.handle.is_some(), s.att.is_empty(), s.wr.is_none());
                    if h && w {
                        if self.r.chance(80) {
                            let v = self.val(p.big, p.bigr);
                            self.go(Cmd::Wr { n, v });
                            calls.push(Cmd::Wrc { n });
                        } else {
                            self.go(Cmd::Det { n, lst: 1 });
                            calls.push(Cmd::Dtc { n });
                        }
                    } else if !h && a {
                        if self.r.chance(70) {
                            let def = self.val(0, p.bigr);
                            self.go(Cmd::Att { n, lst: 1, def });
                            calls.push(Cmd::Atc { n });
                        } else {
                            self.go(Cmd::Det { n, lst: 1 });
                            calls.push(Cmd::Dtc { n });
                        }
                    }
                    if self.r.chance(20) {
                        let j = self.r.below(6) as u32;
                        self.go(Cmd::Step(j));
                    }
                }
                for c in calls {
                    if self.r.chance(80) {
                        self.go(c);
                    }
                }
                if self.r.chance(15) {
                    self.go(Cmd::Opc);
                }
                self.go(Cmd::Fin);
                for n in 0..self.w.n_nodes() {
                    if self.w.slots[n].handle.is_some() {
                        self.go(Cmd::Ld { n });
                    }
                }
                if self.r.chance(80) {
                    self.full_op('R');
                    self.full_op('G');
                    self.full_op('W');
                }
            }
            "watch" => {
                let c = *self.r.pick(&['r', 'w']);
                let on = self.r.chance(70);
                self.go(Cmd::Watch(c, on));
            }
            _ => {}
        }
    }
    /// the documented recovery: fault-free read, collection, write-back; then look at everything after a reboot
    fn settle_end(&mut self) {
        self.go(Cmd::Rel);
        self.go(Cmd::Fin);
        self.go(Cmd::Flt { k: "none".into(), nth: 0 });
        for op in ['R', 'G', 'W', 'G'] {
            self.go(Cmd::Op { op, lst: 1, buf: 0 });
            self.go(Cmd::Fin);
        }
        for n in 0..self.w.n_nodes() {
            self.go(Cmd::Ld { n });
        }
        if self.r.chance(60) {
            self.go(Cmd::Crash);
            for n in 0..self.w.n_nodes() {
                let def = self.vals.0.next();
                self.go(Cmd::Att { n, lst: 1, def });
            }
            for op in ['R', 'G', 'W'] {
                self.go(Cmd::Op { op, lst: 1, buf: 0 });
                self.go(Cmd::Fin);
            }
        }
    }
}

pub fn random(prof: &str, seed: u64, scr: &mut impl Write) -> Vec<String> {
    let p = profile(prof);
    let mut r = Rng::new(seed);
    let mut vals = Vals2::new();
    let setup = random_setup(&p, &mut r, &mut vals);
    writeln!(scr, "== {prof}-{seed}\n{}", setup.text()).unwrap();
    let mut g = Gen { w: World::new(setup), cmds: vec![], r: &mut r, vals, ok: true };
    let len = p.len.0 + g.r.below(p.len.1 - p.len.0 + 1);
    // usually begin with some attached nodes that were read
    if g.r.chance(70) {
        for n in 0..g.w.n_nodes() {
            if g.r.chance(75) {
                let def = g.vals.0.next();
                g.go(Cmd::Att { n, lst: 1, def });
            }
        }
        if g.r.chance(70) {
            g.go(Cmd::Op { op: 'R', lst: 1, buf: 0 });
            g.go(Cmd::Fin);
        }
    }
    if p.long {
        // ordinary use, again and again
        for n in 0..g.w.n_nodes() {
            let def = g.vals.0.next();
            g.go(Cmd::Att { n, lst: 1, def });
        }
        g.full_op('R');
        g.full_op('G');
        for _ in 0..80 + g.r.below(250) {
            let n = g.r.below(g.w.n_nodes());
            match g.r.below(100) {
                0 => g.go(Cmd::Crash),
                1..5 => g.go(Cmd::Hd { n }),
                _ => {}
            }
            if g.w.slots[n].handle.is_none() && g.w.slots[n].att.is_empty() {
                let def = g.vals.0.next();
                g.go(Cmd::Att { n, lst: 1, def });
                g.full_op('R');
            }
            let v = g.vals.0.next();
            g.go(Cmd::Wr { n, v });
            g.full_op('W');
            g.full_op('G');
        }
    }
    for _ in 0..len {
        g.step(&p);
    }
    if g.r.chance(p.settle_end) {
        g.settle_end();
    } else {
        g.go(Cmd::Fin);
        g.go(Cmd::Rel);
    }
    for c in &g.cmds {
        writeln!(scr, "{}", c.text()).unwrap();
    }
    g.w.end()
}

/// Number of gate passages of the last operation of a script (the places where it can be disturbed)
fn steps_of(setup: &Setup, cmds: &[Cmd]) -> usize {
    let mut w = World::new(setup.clone());
    for c in cmds {
        if w.dead || !step_guarded(&mut w, c) {
            return 0;
        }
    }
    // one more for the last poll
    let n = w.be.ctl.gate().borrow().steps as usize;
    let _ = w.end();
    n
}

/// Exhaustive disturbance of one operation: a short random history, then one operation that is cancelled,
/// loses power, or meets a storage error at every single step; then a checked continuation.
pub fn sweep(seed: u64, per: usize, mut emit: impl FnMut(&Setup, &[Cmd], Vec<String>)) {
    let mut r = Rng::new(seed ^ 0x5eed_0001);
    let mut p = profile("plain");
    p.nodes = (1, 3);
    p.be_flash = 0;
    p.flash_init = 70;
    let mut vals = Vals2::new();
    let setup = random_setup(&p, &mut r, &mut vals);
    let nn = setup.nodes.len();
    let mut pre: Vec<Cmd> = vec![];
    let att = |n: usize, vals: &mut Vals2| Cmd::Att { n, lst: 1, def: vals.0.next() };
    let op = |o: char| [Cmd::Op { op: o, lst: 1, buf: 0 }, Cmd::Fin];
    for n in 0..nn {
        if n == 0 || r.chance(80) {
            pre.push(att(n, &mut vals));
        }
    }
    // history: how far the usual cycle has got
    let stage = r.below(8);
    if stage >= 1 {
        pre.extend(op('R'));
    }
    if stage >= 2 {
        pre.extend(op('G'));
    }
    let cycles = if stage >= 3 { 1 + r.below(4) } else { 0 };
    for _ in 0..cycles {
        for n in 0..nn {
            if r.chance(60) {
                pre.push(Cmd::Wr { n, v: vals.0.next() });
            }
        }
        pre.extend(op('W'));
        if r.chance(75) {
            pre.extend(op('G'));
        }
    }
    if r.chance(25) {
        pre.extend(op('X'));
        if r.chance(60) {
            pre.extend(op('R'));
        }
    }
    if r.chance(60) {
        pre.push(Cmd::Wr { n: r.below(nn), v: vals.0.next() });
    }
    let last_w = pre.iter().rev().find_map(|c| if let Cmd::Op { op, .. } = c { Some(*op) } else { None });
    let target = match last_w {
        None => 'R',
        Some('R') => *r.pick(&['G', 'G', 'R']),
        Some('G') => *r.pick(&['W', 'W', 'R']),
        Some('W') => *r.pick(&['G', 'G', 'R']),
        _ => *r.pick(&['R', 'R', 'G', 'W']),
    };
    let mut t = pre.clone();
    t.extend(op(target));
    let steps = steps_of(&setup, &t);
    let kinds: &[&str] = match target {
        'R' => &["opc", "crash", "re", "it"],
        'W' => &["opc", "crash", "pn", "pe", "ps", "pl", "px", "re", "it"],
        _ => &["opc", "crash", "in", "ie", "re", "it"],
    };
    let mut all: Vec<(&str, usize)> = vec![];
    for k in kinds {
        let m = match *k {
            "opc" | "crash" => steps,
            "it" => 2,
            "pn" | "pe" | "ps" | "pl" | "px" => nn + 2,
            _ => steps / 2 + 1,
        };
        for i in 1..=m {
            all.push((k, i));
        }
    }
    // bound the work, keeping the choice random
    while all.len() > per {
        let i = r.below(all.len());
        all.swap_remove(i);
    }
    for (k, i) in all {
        let mut c = pre.clone();
        match k {
            "opc" | "crash" => {
                c.push(Cmd::Op { op: target, lst: 1, buf: 0 });
                c.push(Cmd::Step(i as u32));
                if r.chance(30) {
                    c.push(Cmd::Wr { n: r.below(nn), v: vals.0.next() });
                }
                c.push(if k == "opc" { Cmd::Opc } else { Cmd::Crash });
            }
            _ => {
                c.push(Cmd::Flt { k: k.into(), nth: i as u32 });
                c.extend(op(target));
            }
        }
        if k == "crash" {
            for n in 0..nn {
                c.push(att(n, &mut vals));
            }
        }
        c.push(Cmd::Flt { k: "none".into(), nth: 0 });
        // continuation: what a worker would do next, in several ways
        match r.below(7) {
            0 => {
                c.extend(op(target));
                c.extend(op('R'));
            }
            1 => c.extend(op('W')),
            2 => {
                c.extend(op('R'));
                c.extend(op('W'));
            }
            3 => c.extend(op('G')),
            4 => {
                c.extend(op('X'));
                if r.chance(30) {
                    c.push(Cmd::Env(vec![]));
                    c.extend(op('X'));
                }
            }
            5 => {
                let mut v2 = Vals2::new();
                v2.0.0 = 5000;
                c.push(Cmd::Crash);
                for n in 0..nn {
                    c.push(Cmd::Att { n, lst: 1, def: v2.0.next() });
                }
            }
            _ => {}
        }
        if r.chance(30) {
            c.push(Cmd::Wr { n: r.below(nn), v: vals.0.next() });
        }
        for o in ['R', 'G', 'W'] {
            c.extend(op(o));
        }
        if r.chance(50) {
            c.extend(op('G'));
        }
        for n in 0..nn {
            c.push(Cmd::Ld { n });
        }
        c.push(Cmd::Crash);
        for n in 0..nn {
            c.push(att(n, &mut vals));
        }
        for o in ['R', 'G'] {
            c.extend(op(o));
        }
        let ev = run_script(&setup, &c);
        emit(&setup, &c, ev);
    }
}

/// Power loss at every word of every mutation of one operation on the real flash backend.
pub fn power(seed: u64, per: usize, mut emit: impl FnMut(&Setup, &[Cmd], Vec<String>)) {
    let mut r = Rng::new(seed ^ 0x5eed_0002);
    let mut p = profile("power");
    p.flash_init = 60;
    let mut vals = Vals2::new();
    let setup = random_setup(&p, &mut r, &mut vals);
    let nn = setup.nodes.len();
    let op = |o: char| [Cmd::Op { op: o, lst: 1, buf: 0 }, Cmd::Fin];
    let mut pre: Vec<Cmd> = vec![];
    for n in 0..nn {
        pre.push(Cmd::Att { n, lst: 1, def: vals.0.next() });
    }
    pre.extend(op('R'));
    pre.extend(op('G'));
    for _ in 0..r.below(9) {
        pre.push(Cmd::Wr { n: r.below(nn), v: vals.0.next() });
        pre.extend(op('W'));
        pre.extend(op('G'));
    }
    pre.push(Cmd::Wr { n: r.below(nn), v: vals.0.next() });
    let target = if r.chance(50) {
        pre.extend(op('W'));
        'G'
    } else {
        'W'
    };
    let before = {
        let mut w = World::new(setup.clone());
        for c in &pre {
            if w.dead || !step_guarded(&mut w, c) {
                return;
            }
        }
        let a = w.be.ctl.nor_ops();
        for c in &op(target) {
            if !step_guarded(&mut w, c) {
                return;
            }
        }
        let b = w.be.ctl.nor_ops();
        let _ = w.end();
        b - a
    };
    let mut all: Vec<(u32, u32)> = vec![];
    for i in 1..=before as u32 {
        for words in [0u32, 1, 2, 3, 5, 9, 40] {
            all.push((i, words));
        }
    }
    while all.len() > per {
        let i = r.below(all.len());
        all.swap_remove(i);
    }
    for (nth, words) in all {
        let mut c = pre.clone();
        c.push(Cmd::Cut { nth, words });
        c.extend(op(target));
        // Fin notices the cut and reboots; if the cut did not happen, cut the power now
        c.push(Cmd::Crash);
        for n in 0..nn {
            c.push(Cmd::Att { n, lst: 1, def: vals.0.next() });
        }
        c.extend(op('R'));
        c.extend(op('G'));
        c.push(Cmd::Wr { n: r.below(nn), v: vals.0.next() });
        c.extend(op('W'));
        c.extend(op('G'));
        let ev = run_script(&setup, &c);
        emit(&setup, &c, ev);
    }
}

/// The worker tasks in virtual time. Profiles: wplain, wgate (slow storage), wfault, wstop, wmix, wgc, wlong, noop, noops
pub fn worker(prof: &str, seed: u64, scr: &mut impl Write) -> Vec<String> {
    let noop = prof.starts_with("noop");
    let mut p = profile("mix");
    p.nodes = (1, 4);
    p.be_flash = if noop { 0 } else { 10 };
    p.high = 0;
    p.flash_init = 50;
    let mut r = Rng::new(seed);
    let mut vals = Vals2::new();
    let setup = random_setup(&p, &mut r, &mut vals);
    writeln!(scr, "== {prof}-{seed}\n{}", setup.text()).unwrap();
    let mut g = Gen { w: World::new(setup), cmds: vec![], r: &mut r, vals, ok: true };
    let lst = 1 + noop as usize;
    let (gate, flt, stop, kill) = match prof {
        "wplain" => (0, 0, 2, 0),
        "wgate" => (12, 0, 3, 1),
        "wfault" => (3, 12, 2, 0),
        "wstop" => (8, 4, 12, 2),
        "wmix" => (8, 6, 5, 2),
        "wgc" => (3, 6, 2, 0),
        "wlong" => (0, 1, 1, 0),
        _ => (0, 0, 0, 2),
    };
    let kind = if noop { 'n' } else { 'd' };
    let mut w: Vec<(&str, usize)> = vec![
        ("att", 18), ("atc", 3), ("hd", 3), ("det", 3), ("wr", 20), ("ld", 4), ("adv", 40), ("burst", 4), ("tick", if noop { 0 } else { 6 }),
        ("gate", gate), ("open", if gate > 0 { gate + 6 } else { 0 }), ("flt", flt), ("stop", stop), ("kill", kill), ("crash", 1),
    ];
    w.retain(|x| x.1 > 0);
    let total: usize = w.iter().map(|x| x.1).sum();
    let len = 12 + g.r.below(50);
    // advances typical for this history: around one debounce or another
    let times: &[u64] = match g.r.below(4) {
        0 => &[0, 10, 50, 90, 99, 100, 101, 110, 150, 200, 1000],
        1 => &[90, 100, 110, 1000, 5000, 9900, 9990, 10000, 10010, 12000],
        2 => &[100, 110, 10000, 11000, 60000, 119900, 119990, 120000, 120110, 130000, 250000],
        _ => &[0, 10, 50, 90, 100, 110, 150, 1000, 5000, 9900, 9990, 10000, 10010, 12000, 60000, 119900, 120000, 130000, 250000],
    };
    if g.r.chance(85) {
        g.go(Cmd::Wk(kind));
    }
    for i in 0..g.w.n_nodes() {
        if g.r.chance(60) {
            let def = g.vals.0.next();
            g.go(Cmd::Att { n: i, lst, def });
        }
    }
    if prof == "wgc" && g.r.chance(25) {
        // no errors, but requests that come again and again before the first collection is due
        let d = *g.r.pick(&[20_000u64, 59_000, 60_000, 100_000, 119_000, 119_990]);
        let t = *g.r.pick(&[100, 110, 1000]);
        g.go(Cmd::Adv(t));
        for _ in 0..3 + g.r.below(5) {
            let n = g.pick_node(|w, i| w.slots[i].att.is_empty());
            g.go(Cmd::Hd { n });
            if g.r.chance(60) {
                g.go(Cmd::Det { n, lst });
            }
            let def = g.vals.0.next();
            g.go(Cmd::Att { n, lst, def });
            g.go(Cmd::Adv(d));
        }
    } else if prof == "wgc" {
        // errors around the time of the first collection, and what may follow them
        let t = *g.r.pick(&[100, 110, 200, 1000]);
        g.go(Cmd::Adv(t));
        if g.r.chance(30) {
            let n = g.pick_node(|w, i| w.slots[i].handle.is_some() && w.slots[i].wr.is_none());
            let v = g.vals.0.next();
            g.go(Cmd::Wr { n, v });
            let t = *g.r.pick(&[9000, 10000, 11000]);
            g.go(Cmd::Adv(t));
        }
        if g.r.chance(20) {
            let t = *g.r.pick(&[60_000, 119_000]);
            g.go(Cmd::Adv(t));
        }
        for _ in 0..1 + g.r.below(2) {
            let k = *g.r.pick(&["in", "ie", "re", "it"]);
            let nth = 1 + if k == "re" { g.r.below(20) } else { g.r.below(3) } as u32;
            g.go(Cmd::Flt { k: k.into(), nth });
            let t = *g.r.pick(&[119_990, 120_000, 121_000]);
            g.go(Cmd::Adv(t));
        }
        g.go(Cmd::Flt { k: "none".into(), nth: 0 });
        for _ in 0..g.r.below(3) {
            let n = g.pick_node(|w, i| w.slots[i].att.is_empty());
            if g.r.chance(20) {
                let v = g.vals.0.next();
                g.go(Cmd::Wr { n, v });
            } else {
                g.go(Cmd::Hd { n });
                if g.r.chance(50) {
                    g.go(Cmd::Det { n, lst });
                }
                let def = g.vals.0.next();
                g.go(Cmd::Att { n, lst, def });
            }
            let t = *g.r.pick(&[10, 110, 1000]);
            g.go(Cmd::Adv(t));
        }
        if g.r.chance(50) {
            g.go(Cmd::Adv(250_000));
        }
    }
    if prof == "wlong" || prof == "noops" {
        // the same over and over again
        for _ in 0..140 + g.r.below(200) {
            let n = g.pick_node(|w, i| w.slots[i].att.is_empty());
            if g.r.chance(if noop { 90 } else { 50 }) {
                g.go(Cmd::Hd { n });
                if g.r.chance(70) {
                    g.go(Cmd::Det { n, lst });
                }
                let def = g.vals.0.next();
                g.go(Cmd::Att { n, lst, def });
            } else {
                let v = g.vals.0.next();
                g.go(Cmd::Wr { n, v });
            }
            if !noop || g.r.chance(5) {
                let t = *g.r.pick(times);
                g.go(Cmd::Adv(t));
            }
        }
    }
    let len = if prof == "wgc" { g.r.below(12) } else { len };
    // when something may be due
    let (mut due_r, mut due_w, mut due_g) = (100, 10_000, 120_000);
    for _ in 0..len {
        let mut x = g.r.below(total);
        let mut what = "adv";
        for (k, n) in &w {
            if x < *n {
                what = k;
                break;
            }
            x -= n;
        }
        if g.w.wk.is_none() && g.r.chance(40) {
            what = "wk";
        }
        match what {
            "att" => due_r = g.w.now + 100,
            "wr" => due_w = g.w.now + 10_000,
            "wk" => due_g = g.w.now + 120_100,
            _ => {}
        }
        match what {
            "wk" => {
                g.go(Cmd::Open);
                g.go(Cmd::Wk(kind));
            }
            "tick" => {
                // something happens at the moment when something else is due, before or after the worker notices
                let now = g.w.now;
                let c: Vec<u64> = [due_r, due_w, due_g].into_iter().filter(|t| *t > now).collect();
                if c.is_empty() {
                    continue;
                }
                let t = *g.r.pick(&c) - now;
                if t > 10 {
                    g.go(Cmd::Adv(t - 10));
                }
                g.go(Cmd::Tick(t.min(10)));
                for _ in 0..1 + g.r.below(2) {
                    if g.r.chance(50) {
                        let n = g.pick_node(|w, i| w.slots[i].handle.is_none() && w.slots[i].att.is_empty());
                        let def = g.vals.0.next();
                        due_r = g.w.now + 100;
                        g.go(Cmd::Att { n, lst, def });
                    } else {
                        let n = g.pick_node(|w, i| w.slots[i].handle.is_some() && w.slots[i].wr.is_none());
                        let v = g.vals.0.next();
                        due_w = g.w.now + 10_000;
                        g.go(Cmd::Wr { n, v });
                    }
                }
                let t = *g.r.pick(times);
                g.go(Cmd::Adv(t));
            }
            "att" => {
                let n = g.pick_node(|w, i| w.slots[i].handle.is_none() && w.slots[i].att.is_empty());
                let def = g.vals.0.next();
                g.go(Cmd::Att { n, lst, def });
            }
            "adv" => {
                let t = *g.r.pick(times);
                g.go(Cmd::Adv(t));
            }
            "burst" => {
                // requests in quick succession, each within the debounce time of the one before
                let k = 2 + g.r.below(5);
                let d = *g.r.pick(&[10u64, 60, 90, 5000, 9000, 9990]);
                for _ in 0..k {
                    if d < 100 && g.r.chance(60) {
                        let n = g.pick_node(|w, i| w.slots[i].handle.is_none() && w.slots[i].att.is_empty());
                        let def = g.vals.0.next();
                        g.go(Cmd::Att { n, lst, def });
                    } else {
                        let n = g.pick_node(|w, i| w.slots[i].handle.is_some() && w.slots[i].wr.is_none());
                        let v = g.vals.0.next();
                        g.go(Cmd::Wr { n, v });
                    }
                    g.go(Cmd::Adv(d));
                }
            }
            "gate" => {
                let n = g.r.below(12) as u64;
                g.go(Cmd::Gate(n));
            }
            "open" => g.go(Cmd::Open),
            "stop" => {
                g.go(Cmd::Stop);
                if g.r.chance(30) {
                    let n = g.pick_node(|w, i| w.slots[i].handle.is_some() && w.slots[i].wr.is_none());
                    let v = g.vals.0.next();
                    g.go(Cmd::Wr { n, v });
                }
                g.go(Cmd::Open);
            }
            "kill" => g.go(Cmd::Kill),
            "det" => {
                let n = g.pick_node(|w, i| w.slots[i].handle.is_none() && w.slots[i].att.is_empty());
                g.go(Cmd::Det { n, lst });
            }
            _ => {
                // the common actions
                let mut q = p.clone();
                q.big = 0;
                q.w = vec![(what, 1)];
                g.step(&q);
            }
        }
    }
    g.go(Cmd::Open);
    g.go(Cmd::Flt { k: "none".into(), nth: 0 });
    if g.r.chance(50) {
        // whatever went wrong before: these requests have to be served
        for n in 0..g.w.n_nodes() {
            let def = g.vals.0.next();
            g.go(Cmd::Att { n, lst, def });
            g.go(Cmd::Adv(10));
            let v = g.vals.0.next();
            g.go(Cmd::Wr { n, v });
        }
    }
    if g.r.chance(70) {
        g.go(Cmd::Adv(300_000));
        for n in 0..g.w.n_nodes() {
            g.go(Cmd::Ld { n });
        }
    }
    if g.r.chance(50) {
        g.go(Cmd::Stop);
    }
    for c in &g.cmds {
        writeln!(scr, "{}", c.text()).unwrap();
    }
    g.w.end()
}
