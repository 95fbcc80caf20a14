//! Storage backends: a model storage that follows the documented NdlDataStorage contract and can fail,
//! be cancelled and lose power at every step; and the real `Flash` over a word-level NOR model.
use crate::util::{Dec, Log, decode, enc_end, enc_start};
use cfg_noodle::flash::{Flash, FlashIter, FlashNode};
use cfg_noodle::sequential_storage::cache::{CacheImpl, NoCache, PagePointerCache, PageStateCache};
use cfg_noodle::sequential_storage::queue::{QueueConfig, QueueStorage};
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData};
use embedded_storage_async::nor_flash::{ErrorType, MultiwriteNorFlash, NorFlash, NorFlashError, NorFlashErrorKind, ReadNorFlash};
use std::cell::RefCell;
use std::future::poll_fn;
use std::num::NonZeroU32;
use std::rc::Rc;
use std::task::{Poll, Waker};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum SErr {
    Injected,
    TooBig,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fk {
    PushNoEff,
    PushEff,
    PushSilent,
    PushLost,
    PushSplit,
    InvNoEff,
    InvEff,
    Read,
    Iter,
}
impl Fk {
    pub fn parse(s: &str) -> Option<Fk> {
        Some(match s {
            "pn" => Fk::PushNoEff,
            "pe" => Fk::PushEff,
            "ps" => Fk::PushSilent,
            "pl" => Fk::PushLost,
            "px" => Fk::PushSplit,
            "in" => Fk::InvNoEff,
            "ie" => Fk::InvEff,
            "re" => Fk::Read,
            "it" => Fk::Iter,
            _ => return None,
        })
    }
    pub fn name(self) -> &'static str {
        match self {
            Fk::PushNoEff => "pn",
            Fk::PushEff => "pe",
            Fk::PushSilent => "ps",
            Fk::PushLost => "pl",
            Fk::PushSplit => "px",
            Fk::InvNoEff => "in",
            Fk::InvEff => "ie",
            Fk::Read => "re",
            Fk::Iter => "it",
        }
    }
    fn class(self) -> u8 {
        match self {
            Fk::PushNoEff | Fk::PushEff | Fk::PushSilent | Fk::PushLost | Fk::PushSplit => 0,
            Fk::InvNoEff | Fk::InvEff => 1,
            Fk::Read => 2,
            Fk::Iter => 3,
        }
    }
}

/// Gate: storage operations wait here for permits, which makes every await point of the storage a place
/// where the scenario can cancel, crash, or let other tasks run.
pub struct Gate {
    pub permits: u64,
    pub unlimited: bool,
    wakers: Vec<Waker>,
    pub steps: u64,
    /// storage accesses of any kind
    pub seen: u64,
    pub limit: u64,
    pub blocked: bool,
}
impl Gate {
    /// something waits here for a permit
    pub fn stuck(&self) -> bool {
        self.blocked && !self.unlimited && self.permits == 0
    }
}
pub type GateRef = Rc<RefCell<Gate>>;
pub fn new_gate() -> GateRef {
    Rc::new(RefCell::new(Gate { permits: 0, unlimited: true, wakers: vec![], steps: 0, seen: 0, limit: 20_000, blocked: false }))
}
pub fn grant(g: &GateRef, n: u64) {
    let w = {
        let mut g = g.borrow_mut();
        g.permits += n;
        std::mem::take(&mut g.wakers)
    };
    w.into_iter().for_each(|w| w.wake());
}
pub fn set_unlimited(g: &GateRef, on: bool) {
    let w = {
        let mut g = g.borrow_mut();
        g.unlimited = on;
        g.permits = 0;
        if on { std::mem::take(&mut g.wakers) } else { vec![] }
    };
    w.into_iter().for_each(|w| w.wake());
}
async fn pass(g: &GateRef) {
    poll_fn(|cx| {
        let mut g = g.borrow_mut();
        if g.unlimited || g.permits > 0 {
            if !g.unlimited {
                g.permits -= 1;
            }
            g.steps += 1;
            g.seen += 1;
            g.blocked = false;
            if g.steps > g.limit {
                drop(g);
                panic!("HARNESS: operation does not end");
            }
            Poll::Ready(())
        } else {
            g.blocked = true;
            g.wakers.push(cx.waker().clone());
            Poll::Pending
        }
    })
    .await
}

/// What the scenario runner needs of a backend
pub trait Ctl {
    fn gate(&self) -> GateRef;
    fn plan(&self, k: Fk, nth: u32);
    fn clear_plan(&self);
    /// raw items currently on the flash with their reported length
    fn raws(&self) -> Vec<(Vec<u8>, usize)>;
    /// a new operation begins: storage errors from now on need a new cause
    fn begin(&self) {}
    /// replace the content
    fn set(&self, raws: Vec<Vec<u8>>);
    /// power cycle; drops volatile state of the backend
    fn reboot(&self);
    fn max_elem(&self) -> usize;
    /// does the backend itself know what is stored (model), or must it be decoded (flash)
    fn exact(&self) -> bool;
    /// arm a power cut at the nth NOR mutation after `words` words (flash only)
    fn cut(&self, _nth: u32, _words: u32) {}
    fn torn(&self) -> bool {
        false
    }
    fn space(&self) -> (usize, usize) {
        (0, 0)
    }
    fn nor_ops(&self) -> u64 {
        0
    }
}

// ------------------------------------------------------------------------------------------------
// Model storage

pub struct MInner {
    items: Vec<(u64, Vec<u8>)>,
    next_id: u64,
    gate: GateRef,
    plans: Vec<(Fk, u32)>,
    log: Log,
    max: usize,
}
#[derive(Clone)]
pub struct MStore(Rc<RefCell<MInner>>);

pub const MODEL_MAX: usize = 256;
fn mlen(raw: &[u8]) -> usize {
    raw.len() + 8 + (4 - raw.len() % 4) % 4
}
impl MStore {
    pub fn new(log: Log) -> Self {
        MStore(Rc::new(RefCell::new(MInner {
            items: vec![],
            next_id: 1,
            gate: new_gate(),
            plans: vec![],
            log,
            max: MODEL_MAX,
        })))
    }
    fn fault(&self, class: u8) -> Option<Fk> {
        let mut i = self.0.borrow_mut();
        let mut hit = None;
        i.plans.retain_mut(|(k, n)| {
            if k.class() != class {
                return true;
            }
            if *n == 0 {
                // whenever possible from now on
                hit = hit.or(Some(*k));
                true
            } else if *n <= 1 && hit.is_none() {
                hit = Some(*k);
                false
            } else {
                *n = (*n - 1).max(1);
                true
            }
        });
        hit
    }
    fn index(&self, id: u64) -> usize {
        self.0.borrow().items.iter().position(|(i, _)| *i == id).map_or(0, |p| p + 1)
    }
    /// JSON of an item as it would be at the end of the current content
    fn elem_json(&self, raw: &[u8]) -> String {
        let i = self.0.borrow();
        let raws: Vec<(Vec<u8>, usize)> = i.items.iter().map(|(_, r)| (r.clone(), mlen(r))).collect();
        tail_elem(&i.log, &raws, raw, mlen(raw))
    }
}
/// JSON of `raw` appended to `raws`
pub fn tail_elem(log: &Log, raws: &[(Vec<u8>, usize)], raw: &[u8], len: usize) -> String {
    let mut l = log.0.borrow_mut();
    let mut start = None;
    for (p, (r, _)) in raws.iter().enumerate().rev() {
        match decode(r) {
            Dec::D => continue,
            Dec::S(_) => {
                start = Some(p);
                break;
            }
            _ => break,
        }
    }
    let cur: Option<Vec<(usize, u32, Vec<u8>)>> = start.map(|p| {
        raws[p + 1..]
            .iter()
            .map(|(r, _)| {
                let (k, v) = l.intern.kv(&r[1..]);
                (k, v, r[1..].to_vec())
            })
            .collect()
    });
    l.intern.elem(raw, len, cur.as_deref())
}
/// JSON of an element as the writer means it
pub fn meant_elem(log: &Log, raw: &[u8], len: usize) -> String {
    let mut l = log.0.borrow_mut();
    let ds = std::mem::take(&mut l.intern.intent);
    let j = l.intern.elem(raw, len, Some(&ds));
    l.intern.intent = ds;
    j
}
pub fn raw_of(e: &Elem<'_>) -> Vec<u8> {
    match e {
        Elem::Start { seq_no } => enc_start(seq_no.get()),
        Elem::Data { data } => {
            let mut v = vec![data.hdr()];
            v.extend_from_slice(data.key_val());
            v
        }
        Elem::End { seq_no, calc_crc } => enc_end(seq_no.get(), *calc_crc),
    }
}
impl Ctl for MStore {
    fn gate(&self) -> GateRef {
        self.0.borrow().gate.clone()
    }
    fn plan(&self, k: Fk, nth: u32) {
        self.0.borrow_mut().plans.push((k, nth));
    }
    fn clear_plan(&self) {
        self.0.borrow_mut().plans.clear();
    }
    fn raws(&self) -> Vec<(Vec<u8>, usize)> {
        self.0.borrow().items.iter().map(|(_, r)| (r.clone(), mlen(r))).collect()
    }
    fn set(&self, raws: Vec<Vec<u8>>) {
        let mut i = self.0.borrow_mut();
        i.items.clear();
        for r in raws {
            let id = i.next_id;
            i.next_id += 1;
            i.items.push((id, r));
        }
    }
    fn reboot(&self) {
        self.0.borrow_mut().plans.clear();
    }
    fn max_elem(&self) -> usize {
        MODEL_MAX
    }
    fn exact(&self) -> bool {
        true
    }
}

pub struct MIter {
    st: MStore,
    pos: u64,
}
pub struct MNode<'buf> {
    st: MStore,
    id: u64,
    raw: &'buf [u8],
}
impl NdlDataStorage for MStore {
    type Iter<'this> = MIter;
    type Error = SErr;
    async fn iter_elems<'this>(&'this mut self) -> Result<MIter, SErr> {
        let g = self.gate();
        pass(&g).await;
        let log = self.0.borrow().log.clone();
        log.iter_begin();
        if self.fault(3).is_some() {
            log.push("{\"e\":\"flt\",\"w\":\"read\"}".into());
            return Err(SErr::Injected);
        }
        Ok(MIter { st: self.clone(), pos: 0 })
    }
    async fn push(&mut self, data: &Elem<'_>) -> Result<usize, SErr> {
        let g = self.gate();
        pass(&g).await;
        let raw = raw_of(data);
        let log = self.0.borrow().log.clone();
        if raw.len() > self.0.borrow().max {
            log.push("{\"e\":\"flt\",\"w\":\"push\"}".into());
            return Err(SErr::TooBig);
        }
        let f = self.fault(0);
        log.0.borrow_mut().intern.intended(&raw);
        let el = meant_elem(&log, &raw, mlen(&raw));
        let mut stored = raw.clone();
        let mut extra: Option<Vec<u8>> = None;
        let mut sto = 1;
        match f {
            Some(Fk::PushNoEff) => {
                log.push("{\"e\":\"flt\",\"w\":\"push\"}".into());
                pass(&g).await;
                return Err(SErr::Injected);
            }
            Some(Fk::PushLost) => sto = 0,
            Some(Fk::PushSplit) if matches!(decode(&raw), Dec::S(_)) => extra = Some(raw.clone()),
            // a data element stored as two, with the same bytes in total
            Some(Fk::PushSplit) if matches!(decode(&raw), Dec::D) && raw.len() > 2 => {
                let m = 2 + raw.len() % (raw.len() - 2);
                let mut x = vec![raw[0]];
                x.extend_from_slice(&raw[m..]);
                stored.truncate(m);
                extra = Some(x);
            }
            Some(Fk::PushSilent | Fk::PushSplit) => {
                let n = stored.len();
                match decode(&stored) {
                    // a data element whose last byte changed; or a marker with another number
                    Dec::D => stored[n - 1] ^= 0x55,
                    // or with another checksum
                    Dec::E(..) if f == Some(Fk::PushSplit) => stored[n - 1] ^= 0x55,
                    _ => stored[1] ^= 0x40,
                }
            }
            _ => {}
        }
        let st = self.elem_json(&stored);
        let ex = extra.as_ref().map_or(String::new(), |x| log.0.borrow_mut().intern.elem(x, mlen(x), None));
        if sto == 1 {
            let mut i = self.0.borrow_mut();
            let id = i.next_id;
            i.next_id += 1;
            i.items.push((id, stored.clone()));
            if let Some(x) = extra {
                let id = i.next_id;
                i.next_id += 1;
                i.items.push((id, x));
            }
        }
        if matches!(f, Some(Fk::PushSilent | Fk::PushLost | Fk::PushSplit)) {
            log.push("{\"e\":\"flt\",\"w\":\"silent\"}".into());
        }
        log.push(format!("{{\"e\":\"psh\",\"el\":{el},\"st\":{st},\"sto\":{sto},\"ex\":[{ex}]}}"));
        if f == Some(Fk::PushEff) {
            log.push("{\"e\":\"flt\",\"w\":\"push\"}".into());
        }
        pass(&g).await;
        if f == Some(Fk::PushEff) {
            return Err(SErr::Injected);
        }
        Ok(mlen(&raw))
    }
    const MAX_ELEM_SIZE: usize = MODEL_MAX;
}
impl NdlElemIter for MIter {
    type Item<'this, 'buf>
        = MNode<'buf>
    where
        Self: 'this,
        Self: 'buf;
    type Error = SErr;
    async fn next<'iter, 'buf>(&'iter mut self, buf: &'buf mut [u8]) -> Result<Option<MNode<'buf>>, SErr>
    where
        Self: 'buf,
        Self: 'iter,
    {
        let g = self.st.gate();
        pass(&g).await;
        let log = self.st.0.borrow().log.clone();
        if self.st.fault(2).is_some() {
            log.push("{\"e\":\"flt\",\"w\":\"read\"}".into());
            return Err(SErr::Injected);
        }
        let found = self.st.0.borrow().items.iter().find(|(i, _)| *i > self.pos).cloned();
        let Some((id, raw)) = found else {
            return Ok(None);
        };
        if raw.len() > buf.len() {
            log.push("{\"e\":\"flt\",\"w\":\"read\"}".into());
            return Err(SErr::TooBig);
        }
        self.pos = id;
        log.read(mlen(&raw), false);
        let b = &mut buf[..raw.len()];
        b.copy_from_slice(&raw);
        Ok(Some(MNode { st: self.st.clone(), id, raw: b }))
    }
}
impl NdlElemIterNode for MNode<'_> {
    type Error = SErr;
    fn data(&self) -> Option<Elem<'_>> {
        present(self.raw)
    }
    fn len(&self) -> usize {
        mlen(self.raw)
    }
    async fn invalidate(self) -> Result<(), SErr> {
        let g = self.st.gate();
        pass(&g).await;
        let log = self.st.0.borrow().log.clone();
        let f = self.st.fault(1);
        if f == Some(Fk::InvNoEff) {
            log.push("{\"e\":\"flt\",\"w\":\"inv\"}".into());
            pass(&g).await;
            return Err(SErr::Injected);
        }
        let i = self.st.index(self.id);
        log.ev("inv", &[("i", i as i64)]);
        if i > 0 {
            self.st.0.borrow_mut().items.remove(i - 1);
        }
        if f == Some(Fk::InvEff) {
            log.push("{\"e\":\"flt\",\"w\":\"inv\"}".into());
        }
        pass(&g).await;
        if f == Some(Fk::InvEff) {
            return Err(SErr::Injected);
        }
        Ok(())
    }
}
pub fn present(raw: &[u8]) -> Option<Elem<'_>> {
    match decode(raw) {
        Dec::S(s) => Some(Elem::Start { seq_no: NonZeroU32::new(s)? }),
        Dec::D => Some(Elem::Data { data: SerData::from_existing(raw)? }),
        Dec::E(s, c) => Some(Elem::End { seq_no: NonZeroU32::new(s)?, calc_crc: c }),
        Dec::X => None,
    }
}

// ------------------------------------------------------------------------------------------------
// NOR flash model and the real backend on top of it

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum NErr {
    Injected,
    Bounds,
    Align,
    Dirty,
}
impl NorFlashError for NErr {
    fn kind(&self) -> NorFlashErrorKind {
        match self {
            NErr::Bounds => NorFlashErrorKind::OutOfBounds,
            NErr::Align => NorFlashErrorKind::NotAligned,
            _ => NorFlashErrorKind::Other,
        }
    }
}
pub struct NorState {
    pub bytes: Vec<u8>,
    gate: GateRef,
    /// countdown of NOR mutations until the power cut, and after how many words it happens
    cut: Option<(u32, u32)>,
    pub torn: bool,
    /// injected errors: (class 0 write/erase, 1 read; countdown)
    errs: Vec<(u8, u32)>,
    pub ops: u64,
    log: Log,
    /// set while the harness itself looks at the flash
    quiet: bool,
    /// a backend may keep writing after an injected error was reported
    faulted: bool,
}
/// Geometry: W write size, R read size, E erase size
#[derive(Clone)]
pub struct Nor<const W: usize, const R: usize, const E: usize>(pub Rc<RefCell<NorState>>);
impl<const W: usize, const R: usize, const E: usize> ErrorType for Nor<W, R, E> {
    type Error = NErr;
}
impl<const W: usize, const R: usize, const E: usize> Nor<W, R, E> {
    /// an undisturbed flash
    pub fn quiet(size: usize, log: Log) -> Self {
        Nor(Rc::new(RefCell::new(NorState {
            bytes: vec![0xff; size],
            gate: new_gate(),
            cut: None,
            torn: false,
            errs: vec![],
            ops: 0,
            log,
            quiet: true,
            faulted: false,
        })))
    }
    fn err(&self, class: u8) -> bool {
        let mut s = self.0.borrow_mut();
        if s.quiet {
            return false;
        }
        let mut hit = false;
        s.errs.retain_mut(|(c, n)| {
            if *c != class {
                return true;
            }
            if *n <= 1 && !hit {
                hit = true;
                false
            } else {
                *n = n.saturating_sub(1);
                true
            }
        });
        if hit {
            s.faulted = true;
            let l = s.log.clone();
            drop(s);
            l.push(format!("{{\"e\":\"flt\",\"w\":\"{}\"}}", if class == 0 { "push" } else { "read" }));
        }
        hit
    }
    /// words that may still be changed by the mutation now starting; None: all
    fn budget(&self) -> Option<u32> {
        let mut s = self.0.borrow_mut();
        if s.quiet {
            return None;
        }
        s.ops += 1;
        match &mut s.cut {
            None => None,
            Some((n, w)) => {
                if *n > 1 {
                    *n -= 1;
                    None
                } else {
                    let w = *w;
                    s.cut = None;
                    s.torn = true;
                    Some(w)
                }
            }
        }
    }
    async fn mutation_gate(&self) {
        let (g, q) = {
            let s = self.0.borrow();
            (s.gate.clone(), s.quiet)
        };
        if !q {
            pass(&g).await;
        }
    }
}
impl<const W: usize, const R: usize, const E: usize> ReadNorFlash for Nor<W, R, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, offset: u32, out: &mut [u8]) -> Result<(), NErr> {
        if self.err(1) {
            return Err(NErr::Injected);
        }
        let s = self.0.borrow();
        if !s.quiet {
            s.gate.borrow_mut().seen += 1;
        }
        let o = offset as usize;
        if o + out.len() > s.bytes.len() {
            return Err(NErr::Bounds);
        }
        if !o.is_multiple_of(R) || !out.len().is_multiple_of(R) {
            return Err(NErr::Align);
        }
        out.copy_from_slice(&s.bytes[o..o + out.len()]);
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.0.borrow().bytes.len()
    }
}
impl<const W: usize, const R: usize, const E: usize> NorFlash for Nor<W, R, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), NErr> {
        self.mutation_gate().await;
        if self.err(0) {
            return Err(NErr::Injected);
        }
        let b = self.budget();
        let (from, to) = (from as usize, to as usize);
        {
            let mut s = self.0.borrow_mut();
            if to > s.bytes.len() || from > to {
                return Err(NErr::Bounds);
            }
            if !from.is_multiple_of(E) || !to.is_multiple_of(E) {
                return Err(NErr::Align);
            }
            let end = match b {
                Some(w) => (from + w as usize * W).min(to),
                None => to,
            };
            s.bytes[from..end].fill(0xff);
        }
        if b.is_some() {
            std::future::pending::<()>().await;
        }
        Ok(())
    }
    async fn write(&mut self, offset: u32, data: &[u8]) -> Result<(), NErr> {
        self.mutation_gate().await;
        if self.err(0) {
            return Err(NErr::Injected);
        }
        let b = self.budget();
        {
            let mut s = self.0.borrow_mut();
            let o = offset as usize;
            if o + data.len() > s.bytes.len() {
                return Err(NErr::Bounds);
            }
            if !o.is_multiple_of(W) || !data.len().is_multiple_of(W) {
                return Err(NErr::Align);
            }
            let n = match b {
                Some(w) => (w as usize * W).min(data.len()),
                None => data.len(),
            };
            for i in 0..n {
                // NOR: bits can only be cleared
                s.bytes[o + i] &= data[i];
            }
        }
        if b.is_some() {
            std::future::pending::<()>().await;
        }
        Ok(())
    }
}
impl<const W: usize, const R: usize, const E: usize> MultiwriteNorFlash for Nor<W, R, E> {}

/// A cache for the pages of a flash
pub trait Ca: CacheImpl + 'static {
    fn mk() -> Self;
}
impl Ca for NoCache {
    fn mk() -> Self {
        NoCache::new()
    }
}
impl Ca for PageStateCache<32> {
    fn mk() -> Self {
        PageStateCache::new()
    }
}
impl Ca for PagePointerCache<32> {
    fn mk() -> Self {
        PagePointerCache::new()
    }
}
pub type TheFlash<const W: usize, const R: usize, const E: usize, C> = Flash<Nor<W, R, E>, C>;

/// Wraps the real Flash; logs what goes in and out
pub struct FStore<const W: usize, const R: usize, const E: usize, C: Ca> {
    nor: Nor<W, R, E>,
    /// leaked; replaced at reboot
    flash: Rc<RefCell<*mut TheFlash<W, R, E, C>>>,
    log: Log,
    pages: usize,
}
impl<const W: usize, const R: usize, const E: usize, C: Ca> Clone for FStore<W, R, E, C> {
    fn clone(&self) -> Self {
        FStore { nor: self.nor.clone(), flash: self.flash.clone(), log: self.log.clone(), pages: self.pages }
    }
}
/// run a future that never suspends
pub fn now<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("HARNESS: suspended"),
    }
}
impl<const W: usize, const R: usize, const E: usize, C: Ca> FStore<W, R, E, C> {
    pub fn new(log: Log, pages: usize) -> Self {
        let nor = Nor(Rc::new(RefCell::new(NorState {
            bytes: vec![0xff; pages * E],
            gate: new_gate(),
            cut: None,
            torn: false,
            errs: vec![],
            ops: 0,
            log: log.clone(),
            quiet: false,
            faulted: false,
        })));
        let f = Self::mk(&nor, pages);
        FStore { nor, flash: Rc::new(RefCell::new(f)), log, pages }
    }
    fn mk(nor: &Nor<W, R, E>, pages: usize) -> *mut TheFlash<W, R, E, C> {
        Box::leak(Box::new(Flash::new(nor.clone(), 0..(pages * E) as u32, C::mk())))
    }
    /// Raw items: decoded by a separate queue instance over a copy of the bytes
    fn decode_raw(&self) -> Vec<(Vec<u8>, usize)> {
        let copy = Nor::<W, R, E>(Rc::new(RefCell::new(NorState {
            bytes: self.nor.0.borrow().bytes.clone(),
            gate: new_gate(),
            cut: None,
            torn: false,
            errs: vec![],
            ops: 0,
            log: Log::new(),
            quiet: true,
            faulted: false,
        })));
        let mut q = QueueStorage::new(copy, QueueConfig::new(0..(self.pages * E) as u32), NoCache::new());
        let mut out = Vec::new();
        let mut buf = vec![0u8; E];
        now(async {
            let mut it = q.iter().await.expect("HARNESS: raw iteration");
            while let Some(e) = it.next(&mut buf).await.expect("HARNESS: raw item") {
                let v = e.to_vec();
                let l = flen::<W, R>(v.len());
                out.push((v, l));
            }
        });
        out
    }
}
/// bytes occupied by an item: header, padding of header and of data
pub fn flen<const W: usize, const R: usize>(n: usize) -> usize {
    let w = W.max(R);
    8usize.next_multiple_of(w) + n.next_multiple_of(w)
}
impl<const W: usize, const R: usize, const E: usize, C: Ca> Ctl for FStore<W, R, E, C> {
    fn gate(&self) -> GateRef {
        self.nor.0.borrow().gate.clone()
    }
    fn plan(&self, k: Fk, nth: u32) {
        let c = match k {
            Fk::Read | Fk::Iter => 1,
            _ => 0,
        };
        self.nor.0.borrow_mut().errs.push((c, nth));
    }
    fn clear_plan(&self) {
        let mut s = self.nor.0.borrow_mut();
        s.errs.clear();
        s.cut = None;
        s.torn = false;
        s.faulted = false;
    }
    fn begin(&self) {
        self.nor.0.borrow_mut().faulted = false;
    }
    fn raws(&self) -> Vec<(Vec<u8>, usize)> {
        self.decode_raw()
    }
    fn set(&self, raws: Vec<Vec<u8>>) {
        self.nor.0.borrow_mut().bytes.fill(0xff);
        self.nor.0.borrow_mut().quiet = true;
        let mut q = QueueStorage::new(self.nor.clone(), QueueConfig::new(0..(self.pages * E) as u32), NoCache::new());
        now(async {
            for r in raws {
                // what does not fit is left out
                if q.push(&r, false).await.is_err() {
                    break;
                }
            }
        });
        self.nor.0.borrow_mut().quiet = false;
        // whoever changes the flash has to drop the caches too
        *self.flash.borrow_mut() = Self::mk(&self.nor, self.pages);
    }
    fn reboot(&self) {
        self.clear_plan();
        *self.flash.borrow_mut() = Self::mk(&self.nor, self.pages);
    }
    fn max_elem(&self) -> usize {
        <TheFlash<W, R, E, C> as NdlDataStorage>::MAX_ELEM_SIZE
    }
    fn exact(&self) -> bool {
        false
    }
    fn cut(&self, nth: u32, words: u32) {
        self.nor.0.borrow_mut().cut = Some((nth, words));
    }
    fn torn(&self) -> bool {
        self.nor.0.borrow().torn
    }
    fn space(&self) -> (usize, usize) {
        (E, self.pages)
    }
    fn nor_ops(&self) -> u64 {
        self.nor.0.borrow().ops
    }
}
pub struct FIt<'a, const W: usize, const R: usize, const E: usize, C: Ca> {
    it: FlashIter<'a, Nor<W, R, E>, C>,
    st: FStore<W, R, E, C>,
    pos: usize,
    snap: Vec<(Vec<u8>, usize)>,
}
pub struct FNode<'a, 'i, 'b, const W: usize, const R: usize, const E: usize, C: Ca> {
    n: FlashNode<'a, 'i, 'b, Nor<W, R, E>, C>,
    st: FStore<W, R, E, C>,
    pos: &'i mut usize,
    snap: &'i mut Vec<(Vec<u8>, usize)>,
}
impl<const W: usize, const R: usize, const E: usize, C: Ca> NdlDataStorage for FStore<W, R, E, C> {
    type Iter<'this> = FIt<'this, W, R, E, C>;
    type Error = <TheFlash<W, R, E, C> as NdlDataStorage>::Error;
    async fn iter_elems<'this>(&'this mut self) -> Result<FIt<'this, W, R, E, C>, Self::Error> {
        self.log.iter_begin();
        let p: *mut TheFlash<W, R, E, C> = *self.flash.borrow();
        // SAFETY: leaked, and only one storage operation runs at a time
        let f: &'this mut TheFlash<W, R, E, C> = unsafe { &mut *p };
        match f.iter_elems().await {
            Ok(it) => {
                let snap = self.decode_raw();
                Ok(FIt { it, st: self.clone(), pos: 0, snap })
            }
            Err(e) => {
                fail(&self.log, &self.nor.0, "read", false);
                Err(e)
            }
        }
    }
    async fn push(&mut self, data: &Elem<'_>) -> Result<usize, Self::Error> {
        let raw = raw_of(data);
        let before = self.decode_raw();
        self.log.0.borrow_mut().intern.intended(&raw);
        let el = tail_elem(&self.log, &before, &raw, flen::<W, R>(raw.len()));
        self.log.push(format!("{{\"e\":\"pst\",\"el\":{el}}}"));
        let p: *mut TheFlash<W, R, E, C> = *self.flash.borrow();
        // SAFETY: as above
        let f: &mut TheFlash<W, R, E, C> = unsafe { &mut *p };
        match f.push(data).await {
            Ok(n) => {
                self.log.push(format!("{{\"e\":\"psh\",\"el\":{el},\"st\":{el},\"sto\":1,\"ex\":[]}}"));
                // the length reported must be the space occupied, and the item must be there
                let after = self.decode_raw();
                let good = after.len() == before.len() + 1
                    && after[..before.len()] == before[..]
                    && after[before.len()].0 == raw
                    && n == flen::<W, R>(raw.len());
                let kept = after.len() >= before.len() && after[..before.len()] == before[..];
                self.log.ev("io", &[("ok", good as i64), ("kept", kept as i64)]);
                Ok(n)
            }
            Err(e) => {
                let full = matches!(e, cfg_noodle::sequential_storage::Error::FullStorage);
                if full {
                    let used: usize = before.iter().map(|x| x.1).sum();
                    self.log.ev("full", &[("used", used as i64), ("need", flen::<W, R>(raw.len()) as i64), ("page", E as i64), ("cap", (self.pages * E) as i64)]);
                }
                let toobig = matches!(e, cfg_noodle::sequential_storage::Error::ItemTooBig);
                fail(&self.log, &self.nor.0, "push", full || toobig);
                Err(e)
            }
        }
    }
    const MAX_ELEM_SIZE: usize = <TheFlash<W, R, E, C> as NdlDataStorage>::MAX_ELEM_SIZE;
}
fn fail(log: &Log, nor: &Rc<RefCell<NorState>>, w: &str, justified: bool) {
    // an error that no injected fault explains is reported as such
    let f = nor.borrow().faulted;
    log.push(format!("{{\"e\":\"flt\",\"w\":\"{}\"}}", if f || justified { w } else { "none" }));
}
impl<'a, const W: usize, const R: usize, const E: usize, C: Ca> NdlElemIter for FIt<'a, W, R, E, C> {
    type Item<'this, 'buf>
        = FNode<'a, 'this, 'buf, W, R, E, C>
    where
        Self: 'this,
        Self: 'buf;
    type Error = <TheFlash<W, R, E, C> as NdlDataStorage>::Error;
    async fn next<'iter, 'buf>(&'iter mut self, buf: &'buf mut [u8]) -> Result<Option<FNode<'a, 'iter, 'buf, W, R, E, C>>, Self::Error>
    where
        Self: 'buf,
        Self: 'iter,
    {
        let small = self.snap.get(self.pos).is_some_and(|r| r.0.len() > buf.len());
        match self.it.next(buf).await {
            Ok(Some(n)) => {
                let want = self.snap.get(self.pos);
                let same = match want {
                    None => false,
                    Some((raw, l)) => n.data() == present(raw) && n.len() == *l,
                };
                self.pos += 1;
                self.st.log.read(n.len(), !same);
                Ok(Some(FNode { n, st: self.st.clone(), pos: &mut self.pos, snap: &mut self.snap }))
            }
            Ok(None) => {
                if self.pos != self.snap.len() {
                    self.st.log.read(0, true);
                }
                Ok(None)
            }
            Err(e) => {
                fail(&self.st.log, &self.st.nor.0, "read", small);
                Err(e)
            }
        }
    }
}
impl<const W: usize, const R: usize, const E: usize, C: Ca> NdlElemIterNode for FNode<'_, '_, '_, W, R, E, C> {
    type Error = <TheFlash<W, R, E, C> as NdlDataStorage>::Error;
    fn data(&self) -> Option<Elem<'_>> {
        self.n.data()
    }
    fn len(&self) -> usize {
        self.n.len()
    }
    async fn invalidate(self) -> Result<(), Self::Error> {
        let i = *self.pos;
        self.st.log.ev("ist", &[("i", i as i64)]);
        let log = self.st.log.clone();
        match self.n.invalidate().await {
            Ok(()) => {
                log.ev("inv", &[("i", i as i64)]);
                *self.pos -= 1;
                self.snap.remove(i - 1);
                let good = self.st.decode_raw() == *self.snap;
                log.ev("ioi", &[("ok", good as i64)]);
                Ok(())
            }
            Err(e) => {
                fail(&log, &self.st.nor.0, "inv", false);
                Err(e)
            }
        }
    }
}
