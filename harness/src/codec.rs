//! What the flash backend makes of elements and of stored bytes, recorded byte for byte; judged by spec/Codec.tla.
use crate::store::{Ca, Nor, flen, now};
use crate::util::{Log, Rng, crc_cksum};
use cfg_noodle::flash::Flash;
use cfg_noodle::flash::empty::AlwaysEmptyFlash;
use cfg_noodle::mutex::raw_impls::cs::CriticalSectionRawMutex as Raw;
use cfg_noodle::sequential_storage::cache::{NoCache, PagePointerCache, PageStateCache};
use cfg_noodle::sequential_storage::queue::{QueueConfig, QueueStorage};
use cfg_noodle::{Crc32, Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData, StorageList, StorageListNode};
use minicbor::{CborLen, Decode, Encode, decode, encode};
use std::num::NonZeroU32;

/// a value whose encoding is a byte string
#[derive(Clone, Default, PartialEq)]
struct Blob(Vec<u8>);
impl<C> Encode<C> for Blob {
    fn encode<W: encode::Write>(&self, e: &mut minicbor::Encoder<W>, _: &mut C) -> Result<(), encode::Error<W::Error>> {
        e.bytes(&self.0)?.ok()
    }
}
impl<C> CborLen<C> for Blob {
    fn cbor_len(&self, _: &mut C) -> usize {
        minicbor_bytes(&self.0).len()
    }
}
impl<'b, C> Decode<'b, C> for Blob {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<Self, decode::Error> {
        Ok(Blob(d.bytes()?.to_vec()))
    }
}

fn b(x: &[u8]) -> String {
    format!("[{}]", x.iter().map(|y| y.to_string()).collect::<Vec<_>>().join(","))
}
fn el(e: Option<Elem<'_>>) -> String {
    let f = |k: &str, q: &[u8], c: &[u8], d: &[u8]| format!("{{\"k\":\"{k}\",\"q\":{},\"c\":{},\"b\":{}}}", b(q), b(c), b(d));
    match e {
        None => f("X", &[], &[], &[]),
        Some(Elem::Start { seq_no }) => f("S", &seq_no.get().to_be_bytes(), &[], &[]),
        Some(Elem::Data { data }) => {
            let mut v = vec![data.hdr()];
            v.extend_from_slice(data.key_val());
            f("D", &[], &[], &v)
        }
        Some(Elem::End { seq_no, calc_crc }) => f("E", &seq_no.get().to_be_bytes(), &calc_crc.to_be_bytes(), &[]),
    }
}
fn word(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => 1 + r.below(300) as u32,
        1 => u32::MAX - r.below(300) as u32,
        2 => 1 << r.below(32),
        3 => (r.next() as u32) & 0x00ff_00ff | 1,
        _ => (r.next() as u32).max(1),
    }
}
fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let m = r.below(4);
    (0..n)
        .map(|_| match m {
            0 => *r.pick(&[0u8, 0xff, 1, 0x80]),
            1 => r.below(3) as u8,
            _ => r.next() as u8,
        })
        .collect()
}
/// text with characters of different lengths, of exactly n bytes
fn text(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    while s.len() < n {
        let left = n - s.len();
        let c = match r.below(12) {
            0 if left >= 2 => 'ü',
            1 if left >= 3 => '€',
            2 if left >= 4 => '𝄞',
            3 => '\0',
            _ => (b'a' + r.below(26) as u8) as char,
        };
        s.push(c);
    }
    s
}
/// CBOR text string head and text
fn txt(s: &str) -> Vec<u8> {
    let n = s.len();
    let mut o = match n {
        0..=23 => vec![0x60 + n as u8],
        24..=255 => vec![0x78, n as u8],
        _ => vec![0x79, (n >> 8) as u8, n as u8],
    };
    o.extend_from_slice(s.as_bytes());
    o
}
/// lengths around those where something changes
fn len(r: &mut Rng, max: usize) -> usize {
    let base = *r.pick(&[0, 0, 1, 4, 8, 23, 24, 26, 255, 258, max / 2, max, max]);
    (base + r.below(5)).saturating_sub(2).min(max)
}

struct Bench<const W: usize, const R: usize, const E: usize, C: Ca> {
    nor: Nor<W, R, E>,
    pages: usize,
    ev: Vec<String>,
    _c: std::marker::PhantomData<C>,
}
impl<const W: usize, const R: usize, const E: usize, C: Ca> Bench<W, R, E, C> {
    fn flash(&self, r: &mut Rng) -> Flash<Nor<W, R, E>, C> {
        let range = 0..(self.pages * E) as u32;
        if r.chance(50) { Flash::new(self.nor.clone(), range, C::mk()) } else { Flash::try_new(self.nor.clone(), range, C::mk()).expect("a valid range") }
    }
    fn raws(&self) -> Vec<Vec<u8>> {
        let mut q = QueueStorage::new(self.nor.clone(), QueueConfig::new(0..(self.pages * E) as u32), NoCache::new());
        let mut out = vec![];
        let mut buf = vec![0u8; E];
        now(async {
            let mut it = q.iter().await.expect("HARNESS: raw iteration");
            while let Some(e) = it.next(&mut buf).await.expect("HARNESS: raw item") {
                out.push(e.to_vec());
            }
        });
        out
    }
    fn wipe(&self) {
        self.nor.0.borrow_mut().bytes.fill(0xff);
    }
    fn max() -> usize {
        <Flash<Nor<W, R, E>, C> as NdlDataStorage>::MAX_ELEM_SIZE
    }
    /// push elements and look at what is stored
    fn pushes(&mut self, r: &mut Rng) {
        self.wipe();
        let mut f = self.flash(r);
        for _ in 0..1 + r.below(6) {
            let before = self.raws();
            let mut store = vec![];
            let e = match r.below(4) {
                0 => Elem::Start { seq_no: NonZeroU32::new(word(r)).unwrap() },
                1 => Elem::End { seq_no: NonZeroU32::new(word(r)).unwrap(), calc_crc: if r.chance(10) { 0 } else { word(r) } },
                _ => {
                    let n = 2 + len(r, Self::max() - 2);
                    store = bytes(r, n);
                    if r.chance(60) {
                        // the header is filled in
                        Elem::Data { data: SerData::new(&mut store).expect("not empty") }
                    } else {
                        store[0] = 1;
                        Elem::Data { data: SerData::from_existing(&store).expect("not empty") }
                    }
                }
            };
            let mut by_ref = &mut f;
            let res = if r.chance(30) { now(NdlDataStorage::push(&mut by_ref, &e)) } else { now(f.push(&e)) };
            let txt = el(Some(e));
            let after = self.raws();
            let full = matches!(res, Err(cfg_noodle::sequential_storage::Error::FullStorage));
            let kept = after.len() >= before.len() && after[..before.len()] == before[..];
            let raw = if after.len() == before.len() + 1 { after[before.len()].clone() } else { vec![] };
            self.ev.push(format!(
                "{{\"e\":\"push\",\"el\":{txt},\"raw\":{},\"len\":{},\"ok\":{},\"full\":{},\"kept\":{}}}",
                b(&raw),
                res.as_ref().copied().unwrap_or(0),
                res.is_ok() as u8,
                (full && !before.is_empty()) as u8,
                kept as u8
            ));
        }
        self.look(r);
    }
    /// what the iterator makes of everything that is stored
    fn look(&mut self, r: &mut Rng) {
        let raws = self.raws();
        let mut f = self.flash(r);
        let mut got = vec![];
        let mut buf = vec![0u8; Self::max()];
        let by_ref = r.chance(30);
        now(async {
            let mut fr = &mut f;
            let it = if by_ref { NdlDataStorage::iter_elems(&mut fr).await } else { fr.iter_elems().await };
            let Ok(mut it) = it else { return };
            while let Ok(Some(n)) = it.next(&mut buf).await {
                got.push(format!("{{\"el\":{},\"len\":{}}}", el(n.data()), n.len()));
            }
        });
        self.ev.push(format!("{{\"e\":\"look\",\"raws\":[{}],\"got\":[{}]}}", raws.iter().map(|x| b(x)).collect::<Vec<_>>().join(","), got.join(",")));
    }
    /// arbitrary stored items
    fn items(&mut self, r: &mut Rng) {
        self.wipe();
        let n = 1 + r.below(7);
        let mut q = QueueStorage::new(self.nor.clone(), QueueConfig::new(0..(self.pages * E) as u32), NoCache::new());
        for _ in 0..n {
            let l = match r.below(3) {
                0 => *r.pick(&[1, 2, 3, 4, 5, 6, 8, 9, 10]),
                1 => r.below(14),
                _ => len(r, Self::max()),
            }
            .max(1);
            let mut v = bytes(r, l);
            if r.chance(80) {
                v[0] = *r.pick(&[0, 0, 1, 1, 2, 2, 3, 0x10, 0x11, 0x12, 0x80]);
            }
            if r.chance(15) && l >= 5 {
                v[1..5].fill(0);
            }
            let _ = now(q.push(&v, false));
        }
        self.look(r);
    }
    /// the size predicate, and whether the list can store such a node and reads it back
    fn fit(&mut self, r: &mut Rng) {
        self.wipe();
        let max = Self::max();
        let most = if r.chance(70) { max.min(40) } else { max };
        let k = len(r, most);
        let key: &'static str = Box::leak(text(r, k).into_boxed_str());
        let room = max.saturating_sub(1 + txt(key).len());
        // value sizes around what is left
        let n = if r.chance(75) { (room + 3).saturating_sub(r.below(8)) } else { len(r, max) };
        let val = Blob(bytes(r, n));
        let enc = minicbor_bytes(&val.0);
        let chk = <Flash<Nor<W, R, E>, C> as NdlDataStorage>::check_node_size(key, val.clone());
        let chk2 = <&mut Flash<Nor<W, R, E>, C> as NdlDataStorage>::check_node_size(key, &val);
        let mut f = self.flash(r);
        let put = |f: &mut Flash<Nor<W, R, E>, C>| -> bool {
            let list: &'static StorageList<Raw, 3> = Box::leak(Box::new(StorageList::new()));
            let node: &'static StorageListNode<Blob> = Box::leak(Box::new(StorageListNode::new(key)));
            let mut buf = vec![0u8; Self::max()];
            let mut att = Box::pin(node.attach_with_default(list, || val.clone()));
            let _ = poll_once(att.as_mut());
            if now(list.process_reads(f, &mut buf)).is_err() {
                return false;
            }
            if poll_once(att.as_mut()).is_none() {
                return false;
            }
            let _ = now(list.process_garbage(f, &mut buf));
            now(list.process_writes(f, &mut buf)).is_ok()
        };
        let stored = put(&mut f);
        let raws = self.raws();
        let mut f = self.flash(r);
        let get = |f: &mut Flash<Nor<W, R, E>, C>| -> bool {
            let list: &'static StorageList<Raw, 3> = Box::leak(Box::new(StorageList::default()));
            let node: &'static StorageListNode<Blob> = Box::leak(Box::new(StorageListNode::new(key)));
            let mut buf = vec![0u8; Self::max()];
            let mut att = Box::pin(node.attach(list));
            let _ = poll_once(att.as_mut());
            if now(list.process_reads(f, &mut buf)).is_err() {
                return false;
            }
            match poll_once(att.as_mut()) {
                Some(Ok(h)) => h.load() == val,
                _ => false,
            }
        };
        let back = get(&mut f) && (stored || !val.0.is_empty());
        self.ev.push(format!(
            "{{\"e\":\"fit\",\"key\":{},\"val\":{},\"chk\":{},\"chk2\":{},\"stored\":{},\"back\":{},\"raws\":[{}]}}",
            b(key.as_bytes()),
            b(&enc),
            chk as u8,
            chk2 as u8,
            stored as u8,
            back as u8,
            raws.iter().map(|x| b(x)).collect::<Vec<_>>().join(",")
        ));
    }
}
fn minicbor_bytes(x: &[u8]) -> Vec<u8> {
    let n = x.len();
    let mut o = match n {
        0..=23 => vec![0x40 + n as u8],
        24..=255 => vec![0x58, n as u8],
        _ => vec![0x59, (n >> 8) as u8, n as u8],
    };
    o.extend_from_slice(x);
    o
}
fn poll_once<F: std::future::Future + ?Sized>(f: std::pin::Pin<&mut F>) -> Option<F::Output> {
    match f.poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(x) => Some(x),
        std::task::Poll::Pending => None,
    }
}
fn crc(ev: &mut Vec<String>, r: &mut Rng) {
    let mut c = if r.chance(50) { Crc32::new() } else { Crc32::default() };
    let mut ch = vec![];
    for _ in 0..r.below(5) {
        let n = if r.chance(20) { 0 } else { len(r, 300) };
        let x = bytes(r, n);
        c.update(&x);
        ch.push(x);
    }
    let got = c.finalize();
    ev.push(format!("{{\"e\":\"crc\",\"chunks\":[{}],\"got\":{}}}", ch.iter().map(|x| b(x)).collect::<Vec<_>>().join(","), b(&got.to_be_bytes())));
    // the harness' own computation is used elsewhere
    let refs: Vec<&[u8]> = ch.iter().map(|x| &x[..]).collect();
    ev.push(format!("{{\"e\":\"crc\",\"chunks\":[{}],\"got\":{}}}", ch.iter().map(|x| b(x)).collect::<Vec<_>>().join(","), b(&crc_cksum(&refs).to_be_bytes())));
}
fn kv(ev: &mut Vec<String>, r: &mut Rng) {
    let mut raw = vec![1u8];
    match r.below(5) {
        0 => {
            // not a text string, or cut off
            let n = r.below(8);
            raw.extend(bytes(r, n));
        }
        1 => {
            let n = len(r, 300);
            let t = txt(&text(r, n));
            let k = r.below(t.len());
            raw.extend(&t[..k]);
        }
        _ => {
            let n = len(r, 300);
            raw.extend(txt(&text(r, n)));
            let n = len(r, 40);
            raw.extend(bytes(r, n));
        }
    }
    let (ok, key, body) = match SerData::from_existing(&raw).expect("not empty").kv_pair() {
        Ok(p) => (1, p.key.as_bytes().to_vec(), p.body.to_vec()),
        Err(_) => (0, vec![], vec![]),
    };
    ev.push(format!("{{\"e\":\"kv\",\"raw\":{},\"ok\":{ok},\"key\":{},\"body\":{}}}", b(&raw), b(&key), b(&body)));
}
fn empty(ev: &mut Vec<String>, r: &mut Rng) {
    let mut f = AlwaysEmptyFlash;
    let ok = now(f.push(&Elem::Start { seq_no: NonZeroU32::new(word(r)).unwrap() })).is_ok();
    let mut buf = [0u8; 16];
    let n = now(async {
        let Ok(mut it) = f.iter_elems().await;
        let Ok(x) = it.next(&mut buf).await;
        x.is_some()
    });
    ev.push(format!("{{\"e\":\"empty\",\"ok\":{},\"some\":{}}}", ok as u8, n as u8));
}

fn bench<const W: usize, const R: usize, const E: usize, C: Ca>(r: &mut Rng) -> (usize, usize, Vec<String>) {
    let pages = (4096 / E).max(4) + r.below(3);
    let mut t = Bench::<W, R, E, C> { nor: Nor::quiet(pages * E, Log::new()), pages, ev: vec![], _c: std::marker::PhantomData };
    for _ in 0..4 + r.below(6) {
        crate::current(|_| ());
        match r.below(7) {
            0 | 1 => t.pushes(r),
            2 | 3 => t.items(r),
            4 => t.fit(r),
            5 => {
                crc(&mut t.ev, r);
                kv(&mut t.ev, r);
                kv(&mut t.ev, r);
            }
            _ => {
                empty(&mut t.ev, r);
                t.fit(r);
            }
        }
    }
    // the documented overhead of an item
    (Bench::<W, R, E, C>::max(), flen::<W, R>(0), t.ev)
}
pub fn run(seed: u64, id: &str) -> String {
    let mut r = Rng::new(seed ^ 0xc0dec);
    let g = r.below(9);
    let mut f = || match g {
        0 => (4, bench::<4, 4, 256, NoCache>(&mut r)),
        1 => (1, bench::<1, 1, 128, NoCache>(&mut r)),
        2 => (8, bench::<8, 8, 512, NoCache>(&mut r)),
        3 => (4, bench::<4, 4, 1024, NoCache>(&mut r)),
        4 => (8, bench::<8, 1, 256, NoCache>(&mut r)),
        5 => (8, bench::<1, 8, 256, NoCache>(&mut r)),
        6 => (4, bench::<4, 1, 256, PageStateCache<32>>(&mut r)),
        7 => (1, bench::<1, 1, 256, PagePointerCache<32>>(&mut r)),
        _ => (16, bench::<16, 1, 512, NoCache>(&mut r)),
    };
    let (w, (max, _, ev)) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut f)) {
        Ok(x) => x,
        Err(_) => (1, (0, 0, vec!["{\"e\":\"panic\"}".into()])),
    };
    let e = [256, 128, 512, 1024, 256, 256, 256, 256, 512][g];
    format!("{{\"id\":\"{id}\",\"w\":{w},\"page\":{e},\"max\":{max},\"ev\":[{}]}}", ev.join(","))
}
