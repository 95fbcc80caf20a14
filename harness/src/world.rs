//! Scenario runner: executes a command script against the real list, nodes and handles, and records events.
use crate::store::{Ca, Ctl, FStore, Fk, MStore, grant, set_unlimited};
use crate::util::exec::Exec;
use crate::util::{Log, enc_val, own};
use crate::val::{Val, live, new_generation};
use cfg_noodle::error::{Error, LoadStoreError};
use cfg_noodle::flash::empty::AlwaysEmptyFlash;
use cfg_noodle::sequential_storage::cache::{NoCache, PagePointerCache, PageStateCache};
use cfg_noodle::{NdlDataStorage, StorageList, StorageListNode, StorageListNodeHandle};
use mutex::raw_impls::cs::CriticalSectionRawMutex as Raw;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

pub type BoxFut<T> = Pin<Box<dyn Future<Output = T>>>;

/// a handle, whatever its types
pub trait AnyHandle {
    fn load(&self) -> u32;
    fn key(&self) -> &'static str;
    fn write<'a>(&'a mut self, v: u32) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>>;
}
struct H<const TY: u32, const K: usize>(StorageListNodeHandle<Val<TY>, Raw, K>);
impl<const TY: u32, const K: usize> AnyHandle for H<TY, K> {
    fn load(&self) -> u32 {
        self.0.load().v
    }
    fn key(&self) -> &'static str {
        self.0.key()
    }
    fn write<'a>(&'a mut self, v: u32) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        Box::pin(async move {
            let val = Val::<TY>::new(v);
            self.0.write(&val).await
        })
    }
}

#[derive(Clone, Copy)]
pub enum NodeAny {
    A(&'static StorageListNode<Val<0>>),
    B(&'static StorageListNode<Val<1>>),
    C(&'static StorageListNode<Val<2>>),
    D(&'static StorageListNode<Val<3>>),
    E(&'static StorageListNode<Val<4>>),
}
pub fn mk_node(key: &'static str, ty: u32) -> NodeAny {
    match ty {
        0 => NodeAny::A(Box::leak(Box::new(StorageListNode::new(key)))),
        1 => NodeAny::B(Box::leak(Box::new(StorageListNode::new(key)))),
        2 => NodeAny::C(Box::leak(Box::new(StorageListNode::new(key)))),
        3 => NodeAny::D(Box::leak(Box::new(StorageListNode::new(key)))),
        _ => NodeAny::E(Box::leak(Box::new(StorageListNode::new(key)))),
    }
}
impl NodeAny {
    fn ty(&self) -> u32 {
        match self {
            NodeAny::A(_) => 0,
            NodeAny::B(_) => 1,
            NodeAny::C(_) => 2,
            NodeAny::D(_) => 3,
            NodeAny::E(_) => 4,
        }
    }
}

#[derive(Clone, Debug)]
pub struct OpRes {
    pub res: &'static str,
    pub c: [usize; 3],
}
pub fn res_of<E: std::fmt::Debug + cfg_noodle_maybe::M>(e: &LoadStoreError<E>) -> &'static str {
    match e {
        LoadStoreError::FlashWrite(_) => "fw",
        LoadStoreError::FlashRead(_) => "fr",
        LoadStoreError::InvalidBufferSize => "ibs",
        LoadStoreError::WriteVerificationFailed => "wvf",
        LoadStoreError::AppError(Error::NeedsFirstRead) => "nfr",
        LoadStoreError::AppError(Error::NeedsGarbageCollect) => "ngc",
        LoadStoreError::AppError(Error::InconsistentFlash) => "inc",
        LoadStoreError::AppError(Error::Serialization) => "ser",
        LoadStoreError::AppError(_) => "oth",
    }
}
mod cfg_noodle_maybe {
    pub trait M {}
    impl<T> M for T {}
}

/// The system under test behind one object, so that the runner is compiled once
pub trait Sys {
    fn attach(&self, node: NodeAny, def: u32) -> BoxFut<Result<Box<dyn AnyHandle>, Error>>;
    fn detach(&self, node: NodeAny) -> BoxFut<Result<(), Error>>;
    /// op on the traced storage (list 1) or on an always empty one (list 2)
    fn op(&self, op: char, empty: bool, buf: usize) -> BoxFut<OpRes>;
    fn wait_read(&self) -> BoxFut<()>;
    fn wait_write(&self) -> BoxFut<()>;
    /// the default worker until `stop`, or the no-op worker
    fn worker(&self, noop: bool, stop: BoxFut<()>, buf: usize) -> BoxFut<()>;
}
pub struct SysImpl<const K: usize, S: NdlDataStorage + Clone + 'static> {
    pub list: &'static StorageList<Raw, K>,
    pub st: S,
}
impl<const K: usize, S: NdlDataStorage + Clone + 'static> SysImpl<K, S>
where
    S::Error: std::fmt::Debug,
{
    pub fn new(st: S) -> Self {
        SysImpl { list: Box::leak(Box::new(StorageList::new())), st }
    }
}
fn att<const TY: u32, const K: usize>(
    n: &'static StorageListNode<Val<TY>>,
    list: &'static StorageList<Raw, K>,
    def: u32,
) -> BoxFut<Result<Box<dyn AnyHandle>, Error>> {
    Box::pin(async move {
        let h = n.attach_with_default(list, move || Val::<TY>::new(def)).await?;
        Ok(Box::new(H(h)) as Box<dyn AnyHandle>)
    })
}
async fn run_op<const K: usize, S: NdlDataStorage>(list: &'static StorageList<Raw, K>, mut st: S, op: char, buf: usize) -> OpRes
where
    S::Error: std::fmt::Debug,
{
    let mut b = vec![0u8; buf];
    let (res, c) = match op {
        'R' => match list.process_reads(&mut st, &mut b).await {
            Ok(c) => ("ok", [c.total_bytes_read, c.current_bytes_read, 0]),
            Err(e) => (res_of(&e), [0; 3]),
        },
        'W' => match list.process_writes(&mut st, &mut b).await {
            Ok(c) => ("ok", [c.total_bytes_read, c.current_bytes_written, 0]),
            Err(e) => (res_of(&e), [0; 3]),
        },
        'G' => match list.process_garbage(&mut st, &mut b).await {
            Ok(c) => ("ok", [c.total_bytes_read, c.post_collection_bytes_read, c.total_bytes_popped]),
            Err(e) => (res_of(&e), [0; 3]),
        },
        _ => {
            list.reset_cache().await;
            ("ok", [0; 3])
        }
    };
    OpRes { res, c }
}
impl<const K: usize, S: NdlDataStorage + Clone + 'static> Sys for SysImpl<K, S>
where
    S::Error: std::fmt::Debug,
{
    fn attach(&self, node: NodeAny, def: u32) -> BoxFut<Result<Box<dyn AnyHandle>, Error>> {
        match node {
            NodeAny::A(n) => att(n, self.list, def),
            NodeAny::B(n) => att(n, self.list, def),
            NodeAny::C(n) => att(n, self.list, def),
            NodeAny::D(n) => att(n, self.list, def),
            NodeAny::E(n) => att(n, self.list, def),
        }
    }
    fn detach(&self, node: NodeAny) -> BoxFut<Result<(), Error>> {
        let l = self.list;
        match node {
            NodeAny::A(n) => Box::pin(n.detach(l)),
            NodeAny::B(n) => Box::pin(n.detach(l)),
            NodeAny::C(n) => Box::pin(n.detach(l)),
            NodeAny::D(n) => Box::pin(n.detach(l)),
            NodeAny::E(n) => Box::pin(n.detach(l)),
        }
    }
    fn op(&self, op: char, empty: bool, buf: usize) -> BoxFut<OpRes> {
        if empty {
            Box::pin(run_op(self.list, AlwaysEmptyFlash, op, 0))
        } else {
            Box::pin(run_op(self.list, self.st.clone(), op, buf))
        }
    }
    fn wait_read(&self) -> BoxFut<()> {
        let l = self.list;
        Box::pin(l.needs_read())
    }
    fn wait_write(&self) -> BoxFut<()> {
        let l = self.list;
        Box::pin(l.needs_write())
    }
    fn worker(&self, noop: bool, stop: BoxFut<()>, buf: usize) -> BoxFut<()> {
        let (l, st) = (self.list, self.st.clone());
        Box::pin(async move {
            if noop {
                cfg_noodle::worker_task::no_op_worker_task(l).await;
            } else {
                let mut b = vec![0u8; buf];
                cfg_noodle::worker_task::default_worker_task(l, st, stop, &mut b).await;
            }
        })
    }
}

pub fn mk_sys<S: NdlDataStorage + Clone + 'static>(k: usize, st: S) -> Box<dyn Sys>
where
    S::Error: std::fmt::Debug,
{
    match k {
        1 => Box::new(SysImpl::<1, S>::new(st)),
        2 => Box::new(SysImpl::<2, S>::new(st)),
        4 => Box::new(SysImpl::<4, S>::new(st)),
        5 => Box::new(SysImpl::<5, S>::new(st)),
        _ => Box::new(SysImpl::<3, S>::new(st)),
    }
}

/// Which backend a scenario runs on
#[derive(Clone, Debug, PartialEq)]
pub enum Be {
    Model,
    /// geometry index and number of pages
    Flash(usize, usize),
}
pub struct Backend {
    pub ctl: Rc<dyn Ctl>,
    mk: Box<dyn Fn(usize) -> Box<dyn Sys>>,
}
impl Backend {
    pub fn new(be: &Be, log: &Log) -> Backend {
        fn f<const W: usize, const R: usize, const E: usize, C: Ca>(log: &Log, pages: usize) -> Backend {
            let s = FStore::<W, R, E, C>::new(log.clone(), pages);
            let s2 = s.clone();
            Backend { ctl: Rc::new(s), mk: Box::new(move |k| mk_sys(k, s2.clone())) }
        }
        match be {
            Be::Model => {
                let s = MStore::new(log.clone());
                let s2 = s.clone();
                Backend { ctl: Rc::new(s), mk: Box::new(move |k| mk_sys(k, s2.clone())) }
            }
            Be::Flash(0, p) => f::<4, 4, 256, NoCache>(log, *p),
            Be::Flash(1, p) => f::<1, 1, 128, NoCache>(log, *p),
            Be::Flash(2, p) => f::<8, 8, 512, NoCache>(log, *p),
            Be::Flash(3, p) => f::<4, 4, 1024, NoCache>(log, *p),
            Be::Flash(4, p) => f::<8, 1, 256, NoCache>(log, *p),
            Be::Flash(5, p) => f::<1, 8, 256, NoCache>(log, *p),
            Be::Flash(6, p) => f::<4, 1, 256, PageStateCache<32>>(log, *p),
            Be::Flash(_, p) => f::<1, 1, 256, PagePointerCache<32>>(log, *p),
        }
    }
    pub fn sys(&self, k: usize) -> Box<dyn Sys> {
        (self.mk)(k)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Att { n: usize, lst: usize, def: u32 },
    Atc { n: usize },
    Hd { n: usize },
    Det { n: usize, lst: usize },
    Dtc { n: usize },
    Wr { n: usize, v: u32 },
    Wrc { n: usize },
    Ld { n: usize },
    Op { op: char, lst: usize, buf: usize },
    Step(u32),
    Fin,
    Opc,
    Flt { k: String, nth: u32 },
    Cut { nth: u32, words: u32 },
    Crash,
    /// replace the flash content (raw items)
    Env(Vec<Vec<u8>>),
    /// damage one item: (index, mode)
    Dmg(usize, u8),
    Watch(char, bool),
    /// start a worker: d default, n no-op
    Wk(char),
    Stop,
    /// drop the worker's future
    Kill,
    /// advance virtual time by ms
    Adv(u64),
    Tick(u64),
    Hold(usize),
    Rel,
    /// close the storage after n more accesses
    Gate(u64),
    Open,
}
impl Cmd {
    pub fn text(&self) -> String {
        match self {
            Cmd::Att { n, lst, def } => format!("att {n} {lst} {def}"),
            Cmd::Atc { n } => format!("atc {n}"),
            Cmd::Hd { n } => format!("hd {n}"),
            Cmd::Det { n, lst } => format!("det {n} {lst}"),
            Cmd::Dtc { n } => format!("dtc {n}"),
            Cmd::Wr { n, v } => format!("wr {n} {v}"),
            Cmd::Wrc { n } => format!("wrc {n}"),
            Cmd::Ld { n } => format!("ld {n}"),
            Cmd::Op { op, lst, buf } => format!("op {op} {lst} {buf}"),
            Cmd::Step(j) => format!("step {j}"),
            Cmd::Fin => "fin".into(),
            Cmd::Opc => "opc".into(),
            Cmd::Flt { k, nth } => format!("flt {k} {nth}"),
            Cmd::Cut { nth, words } => format!("cut {nth} {words}"),
            Cmd::Crash => "crash".into(),
            Cmd::Env(r) => format!("env {}", raws_text(r)),
            Cmd::Dmg(i, m) => format!("dmg {i} {m}"),
            Cmd::Wk(c) => format!("wk {c}"),
            Cmd::Stop => "stop".into(),
            Cmd::Kill => "kill".into(),
            Cmd::Adv(t) => format!("adv {t}"),
            Cmd::Tick(t) => format!("tick {t}"),
            Cmd::Hold(n) => format!("hold {n}"),
            Cmd::Rel => "rel".into(),
            Cmd::Gate(n) => format!("gate {n}"),
            Cmd::Open => "open".into(),
            Cmd::Watch(c, on) => format!("watch {c} {}", *on as u8),
        }
    }
    pub fn parse(s: &str) -> Option<Cmd> {
        let p: Vec<&str> = s.split_whitespace().collect();
        let u = |i: usize| p.get(i).and_then(|x| x.parse::<usize>().ok());
        Some(match *p.first()? {
            "att" => Cmd::Att { n: u(1)?, lst: u(2)?, def: u(3)? as u32 },
            "atc" => Cmd::Atc { n: u(1)? },
            "hd" => Cmd::Hd { n: u(1)? },
            "det" => Cmd::Det { n: u(1)?, lst: u(2)? },
            "dtc" => Cmd::Dtc { n: u(1)? },
            "wr" => Cmd::Wr { n: u(1)?, v: u(2)? as u32 },
            "wrc" => Cmd::Wrc { n: u(1)? },
            "ld" => Cmd::Ld { n: u(1)? },
            "op" => Cmd::Op { op: p.get(1)?.chars().next()?, lst: u(2)?, buf: u(3)? },
            "step" => Cmd::Step(u(1)? as u32),
            "fin" => Cmd::Fin,
            "opc" => Cmd::Opc,
            "flt" => Cmd::Flt { k: p.get(1)?.to_string(), nth: u(2)? as u32 },
            "cut" => Cmd::Cut { nth: u(1)? as u32, words: u(2)? as u32 },
            "crash" => Cmd::Crash,
            "env" => Cmd::Env(parse_raws(p.get(1).unwrap_or(&"-"))),
            "dmg" => Cmd::Dmg(u(1)?, u(2)? as u8),
            "wk" => Cmd::Wk(p.get(1)?.chars().next()?),
            "stop" => Cmd::Stop,
            "kill" => Cmd::Kill,
            "adv" => Cmd::Adv(u(1)? as u64),
            "hold" => Cmd::Hold(u(1)?),
            "rel" => Cmd::Rel,
            "tick" => Cmd::Tick(u(1)? as u64),
            "gate" => Cmd::Gate(u(1)? as u64),
            "open" => Cmd::Open,
            "watch" => Cmd::Watch(p.get(1)?.chars().next()?, u(2)? == 1),
            _ => return None,
        })
    }
}
pub fn raws_text(r: &[Vec<u8>]) -> String {
    if r.is_empty() { "-".into() } else { r.iter().map(|x| crate::util::hex(x)).collect::<Vec<_>>().join(";") }
}
pub fn parse_raws(s: &str) -> Vec<Vec<u8>> {
    if s == "-" { vec![] } else { s.split(';').map(parse_raw).collect() }
}
/// an item in hex, or S3, D6b31:7, E3:6b31=7/6b32=8, X
fn parse_raw(s: &str) -> Vec<u8> {
    use crate::util::*;
    let key = |k: &str| String::from_utf8(unhex(k)).unwrap();
    let t = s.get(1..).unwrap_or("");
    match s.as_bytes().first() {
        Some(b'S') => enc_start(t.parse().unwrap()),
        Some(b'D') => {
            let (k, v) = t.split_once(':').unwrap();
            enc_data(&key(k), &enc_val(v.parse().unwrap()))
        }
        Some(b'E') => {
            let (s, d) = t.split_once(':').unwrap();
            let d: Vec<Vec<u8>> = d
                .split('/')
                .filter(|x| !x.is_empty())
                .map(|x| x.split_once('=').map(|(k, v)| enc_data(&key(k), &enc_val(v.parse().unwrap()))[1..].to_vec()).unwrap())
                .collect();
            enc_end(s.parse().unwrap(), crc_cksum(&d.iter().map(|x| &x[..]).collect::<Vec<_>>()))
        }
        Some(b'X') => vec![7, 7, 7],
        _ => unhex(s),
    }
}

/// Header of a scenario
#[derive(Clone, Debug)]
pub struct Setup {
    pub k: usize,
    pub be: Be,
    /// key text and type of each node
    pub nodes: Vec<(String, u32)>,
    pub flash: Vec<Vec<u8>>,
    /// order in which woken tasks are polled: 0 first-come, else seed
    pub order: u64,
    pub high_seq: bool,
}
impl Setup {
    pub fn text(&self) -> String {
        let be = match &self.be {
            Be::Model => "model".to_string(),
            Be::Flash(g, p) => format!("flash:{g}:{p}"),
        };
        let nodes: Vec<String> = self.nodes.iter().map(|(k, t)| format!("{}:{}", crate::util::hex(k.as_bytes()), t)).collect();
        format!("setup {} {} {} {} {} {}", self.k, be, nodes.join(","), raws_text(&self.flash), self.order, self.high_seq as u8)
    }
    pub fn parse(s: &str) -> Option<Setup> {
        let p: Vec<&str> = s.split_whitespace().collect();
        if *p.first()? != "setup" {
            return None;
        }
        let be = if p[2] == "model" {
            Be::Model
        } else {
            let q: Vec<&str> = p[2].split(':').collect();
            Be::Flash(q[1].parse().ok()?, q[2].parse().ok()?)
        };
        let nodes = p[3]
            .split(',')
            .map(|x| {
                let (k, t) = x.split_once(':').unwrap();
                (String::from_utf8(crate::util::unhex(k)).unwrap(), t.parse().unwrap())
            })
            .collect();
        Some(Setup { k: p[1].parse().ok()?, be, nodes, flash: parse_raws(p[4]), order: p[5].parse().ok()?, high_seq: p[6] == "1" })
    }
}

enum Out {
    Att { n: usize, c: u32, r: Result<Box<dyn AnyHandle>, Error> },
    Det { n: usize, r: Result<(), Error> },
    Wr { n: usize, r: Result<(), Error> },
    Op { op: char, lst: usize, r: OpRes },
}
type Outs = Rc<RefCell<VecDeque<Out>>>;

#[derive(Default)]
pub struct Slot {
    pub handle: Option<Rc<RefCell<Box<dyn AnyHandle>>>>,
    /// tasks: attach (task, call id, list), detach, write
    pub att: Vec<(u32, u32, usize)>,
    pub det: Option<u32>,
    pub wr: Option<u32>,
    /// last known list (0 none), for the generator only
    pub lst: usize,
}
/// What the worker is doing
#[derive(Default)]
struct WState {
    busy: bool,
    over: bool,
}
/// A node object: key and type, leaked once per boot
pub struct World {
    pub setup: Setup,
    pub log: Log,
    pub be: Backend,
    sys: Vec<Box<dyn Sys>>,
    nodes: Vec<NodeAny>,
    pub slots: Vec<Slot>,
    ex: Exec,
    outs: Outs,
    pub op: Option<(u32, char, usize)>,
    calls: u32,
    rng: crate::util::Rng,
    /// running watcher tasks for read / write notifications on list 1
    wt: [Option<u32>; 2],
    /// a running worker: task, kind
    pub wk: Option<(u32, char)>,
    stop: Option<Rc<RefCell<(bool, Option<std::task::Waker>)>>>,
    wst: Rc<RefCell<WState>>,
    /// virtual time last logged, ms
    pub now: u64,
    pub dead: bool,
    pub done_ops: Vec<(char, usize, String)>,
    keys: Vec<&'static str>,
}

/// Keys recur in every scenario of a run, so they are kept; the nth node with a key has its own copy of it
fn leak(s: &str, nth: usize) -> &'static str {
    thread_local!(static T: RefCell<Vec<(&'static str, usize)>> = const { RefCell::new(vec![]) });
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.iter().find(|x| **x == (s, nth)) {
            return x.0;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        t.push((l, nth));
        l
    })
}
fn err_name(e: &Error) -> &'static str {
    match e {
        Error::DuplicateKey => "dup",
        Error::AlreadyTaken => "taken",
        Error::NodeInOtherList => "other",
        _ => "err",
    }
}

impl World {
    pub fn new(setup: Setup) -> World {
        crate::current(|s| {
            s.clear();
            s.push_str(&setup.text());
            s.push('\n');
        });

        let log = Log::new();
        if setup.high_seq {
            log.0.borrow_mut().intern.seq_shift = 1 << 31;
        }
        let be = Backend::new(&setup.be, &log);
        let keys: Vec<&'static str> = (0..setup.nodes.len())
            .map(|i| {
                let k = &setup.nodes[i].0;
                leak(k, setup.nodes[..i].iter().filter(|x| x.0 == *k).count())
            })
            .collect();
        for k in &keys {
            log.0.borrow_mut().intern.key(k);
        }
        be.ctl.set(setup.flash.clone());
        embassy_time::MockDriver::get().reset();
        let mut w = World {
            rng: crate::util::Rng::new(setup.order),
            sys: vec![],
            nodes: vec![],
            slots: vec![],
            ex: Exec::new(),
            outs: Rc::new(RefCell::new(VecDeque::new())),
            op: None,
            calls: 0,
            wt: [None, None],
            wk: None,
            stop: None,
            wst: Rc::new(RefCell::new(WState::default())),
            now: 0,
            dead: false,
            done_ops: vec![],
            be,
            log,
            setup,
            keys,
        };
        w.boot(true);
        w
    }
    fn flash_json(&self) -> String {
        let raws = self.be.ctl.raws();
        self.log.0.borrow_mut().intern.elems(&raws)
    }
    fn boot(&mut self, env: bool) {
        new_generation();
        self.be.ctl.reboot();
        let k = self.setup.k;
        // list 2 uses another type of list only in that its storage is always empty
        self.sys = vec![self.be.sys(k), self.be.sys(k)];
        self.nodes = self.setup.nodes.iter().zip(&self.keys).map(|((_, t), k)| mk_node(k, *t)).collect();
        self.slots = self.setup.nodes.iter().map(|_| Slot::default()).collect();
        let nodes: Vec<String> = self
            .setup
            .nodes
            .iter()
            .map(|(k, t)| format!("{{\"key\":{},\"ty\":{}}}", self.log.0.borrow_mut().intern.key(k), t))
            .collect();
        let fl = self.flash_json();
        self.log.push(format!("{{\"e\":\"boot\",\"k\":{k},\"env\":{},\"nodes\":[{}],\"flash\":{fl}}}", env as u8, nodes.join(",")));
    }
    /// run everything runnable, noting outcomes as they come
    fn drain(&mut self) {
        let ord = self.setup.order;
        let mut rounds = 0;
        loop {
            self.collect();
            let rng = &mut self.rng;
            if !self.ex.step(|n| if ord == 0 { 0 } else { rng.below(n) }) {
                break;
            }
            rounds += 1;
            if rounds > 100_000 {
                panic!("HARNESS: tasks keep waking each other");
            }
        }
    }
    fn collect(&mut self) {
        loop {
            let Some(o) = self.outs.borrow_mut().pop_front() else { return };
            match o {
                Out::Att { n, c, r } => {
                    self.slots[n].att.retain(|x| x.1 != c);
                    match r {
                        Ok(h) => {
                            let key = h.key() == self.keys[n];
                            let v = if key { h.load() as i64 } else { -2 };
                            self.slots[n].handle = Some(Rc::new(RefCell::new(h)));
                            self.log.push(format!("{{\"e\":\"attr\",\"n\":{},\"c\":{c},\"res\":\"ok\",\"v\":{v}}}", n + 1));
                        }
                        Err(e) => {
                            self.log.push(format!("{{\"e\":\"attr\",\"n\":{},\"c\":{c},\"res\":\"{}\",\"v\":-1}}", n + 1, err_name(&e)));
                        }
                    }
                }
                Out::Det { n, r } => {
                    self.slots[n].det = None;
                    let res = match &r {
                        Ok(()) => {
                            self.slots[n].lst = 0;
                            "ok"
                        }
                        Err(e) => err_name(e),
                    };
                    self.log.push(format!("{{\"e\":\"detr\",\"n\":{},\"res\":\"{res}\"}}", n + 1));
                }
                Out::Wr { n, r } => {
                    self.slots[n].wr = None;
                    let res = if r.is_ok() { "ok" } else { "err" };
                    self.log.push(format!("{{\"e\":\"wrr\",\"n\":{},\"res\":\"{res}\"}}", n + 1));
                }
                Out::Op { op, lst, r } => {
                    self.op = None;
                    self.done_ops.push((op, lst, r.res.to_string()));
                    self.log.push(format!(
                        "{{\"e\":\"opr\",\"op\":\"{op}\",\"lst\":{lst},\"res\":\"{}\",\"c1\":{},\"c2\":{},\"c3\":{}}}",
                        r.res, r.c[0], r.c[1], r.c[2]
                    ));
                    if lst == 1 {
                        self.sync();
                    }
                }
            }
        }
    }
    /// for a backend whose content is only known by looking: log what is there
    fn sync(&mut self) {
        if !self.be.ctl.exact() {
            let fl = self.flash_json();
            self.log.push(format!("{{\"e\":\"sync\",\"flash\":{fl}}}"));
        }
    }
    /// drain and log the quiescent state
    fn settle(&mut self) {
        self.drain();
        if self.wk.is_some() && self.wst.borrow().over {
            self.wk = None;
        }
        let mut wait = vec![];
        let mut wrw = vec![];
        let mut dtw = vec![];
        for (i, s) in self.slots.iter().enumerate() {
            if !s.att.is_empty() {
                wait.push((i + 1).to_string());
            }
            if s.wr.is_some() {
                wrw.push((i + 1).to_string());
            }
            if s.det.is_some() {
                dtw.push((i + 1).to_string());
            }
        }
        let idle = self.op.is_none();
        if !idle || self.ex.held_woken() {
            return;
        }
        if self.wk.is_some_and(|w| w.1 == 'd') && self.be.ctl.gate().borrow().stuck() {
            // the worker is in the middle of something
            return;
        }
        self.log.push(format!(
            "{{\"e\":\"q\",\"wait\":[{}],\"wrw\":[{}],\"dtw\":[{}],\"ron\":{},\"won\":{},\"live\":{},\"held\":{}}}",
            wait.join(","),
            wrw.join(","),
            dtw.join(","),
            self.wt[0].is_some() as u8,
            self.wt[1].is_some() as u8,
            live(),
            self.ex.tasks.iter().any(|t| self.ex.held.contains(&t.id)) as u8
        ));
    }
    pub fn max_buf(&self) -> usize {
        self.be.ctl.max_elem()
    }
    /// The smallest buffer that a write-back can do with, if that is known for sure
    pub fn fit_buf(&self) -> Option<usize> {
        let mut most = None;
        for s in &self.slots {
            if !s.att.is_empty() || s.det.is_some() || s.wr.is_some() {
                return None;
            }
            match &s.handle {
                Some(h) => {
                    let h = h.borrow();
                    most = most.max(Some(crate::util::enc_data(h.key(), &enc_val(h.load())).len()));
                }
                None if s.lst == 0 => (),
                None => return None,
            }
        }
        most
    }
    pub fn cmd(&mut self, c: &Cmd) {
        let nn = self.nodes.len();
        match c {
            Cmd::Att { n, lst, def } if *n < nn && (*lst == 1 || *lst == 2) => {
                let n = *n;
                // more than one attach call at a time only while nothing runs
                if !self.slots[n].att.is_empty() && (self.op.is_some() || !self.ex.held.is_empty() || self.slots[n].att.len() > 1) {
                    return;
                }
                if self.slots[n].det.is_some() {
                    return;
                }
                let def = own(self.nodes[n].ty(), *def);
                self.calls += 1;
                let call = self.calls;
                let fut = self.sys[lst - 1].attach(self.nodes[n], def);
                let outs = self.outs.clone();
                let t = self.ex.spawn(Box::pin(async move {
                    let r = fut.await;
                    outs.borrow_mut().push_back(Out::Att { n, c: call, r });
                }));
                self.slots[n].att.push((t, call, *lst));
                self.log.ev("att", &[("n", n as i64 + 1), ("c", call as i64), ("lst", *lst as i64), ("def", def as i64)]);
                self.settle();
                if self.slots[n].handle.is_some() || !self.slots[n].att.is_empty() {
                    self.slots[n].lst = *lst;
                }
            }
            Cmd::Atc { n } if *n < nn => {
                // the oldest call
                if let Some((t, call, _)) = self.slots[*n].att.first().copied() {
                    self.slots[*n].att.remove(0);
                    self.ex.kill(t);
                    self.log.ev("attc", &[("n", *n as i64 + 1), ("c", call as i64)]);
                    self.settle();
                }
            }
            Cmd::Hd { n } if *n < nn => {
                if self.slots[*n].wr.is_none() && self.slots[*n].handle.is_some() {
                    self.slots[*n].handle = None;
                    self.log.ev("hd", &[("n", *n as i64 + 1)]);
                    self.settle();
                }
            }
            Cmd::Det { n, lst } if *n < nn && (*lst == 1 || *lst == 2) => {
                let n = *n;
                if self.slots[n].det.is_some() {
                    return;
                }
                let fut = self.sys[lst - 1].detach(self.nodes[n]);
                let outs = self.outs.clone();
                let t = self.ex.spawn(Box::pin(async move {
                    let r = fut.await;
                    outs.borrow_mut().push_back(Out::Det { n, r });
                }));
                self.slots[n].det = Some(t);
                self.log.ev("det", &[("n", n as i64 + 1), ("lst", *lst as i64)]);
                self.settle();
            }
            Cmd::Dtc { n } if *n < nn => {
                if let Some(t) = self.slots[*n].det.take() {
                    self.ex.kill(t);
                    self.log.ev("detc", &[("n", *n as i64 + 1)]);
                    self.settle();
                }
            }
            Cmd::Wr { n, v } if *n < nn => {
                let n = *n;
                let Some(h) = self.slots[n].handle.clone() else { return };
                if self.slots[n].wr.is_some() {
                    return;
                }
                let v = own(self.nodes[n].ty(), *v);
                let outs = self.outs.clone();
                let t = self.ex.spawn(Box::pin(async move {
                    let r = {
                        let mut g = h.borrow_mut();
                        g.write(v).await
                    };
                    outs.borrow_mut().push_back(Out::Wr { n, r });
                }));
                self.slots[n].wr = Some(t);
                self.log.ev("wr", &[("n", n as i64 + 1), ("v", v as i64)]);
                self.settle();
            }
            Cmd::Wrc { n } if *n < nn => {
                if let Some(t) = self.slots[*n].wr.take() {
                    self.ex.kill(t);
                    self.log.ev("wrc", &[("n", *n as i64 + 1)]);
                    self.settle();
                }
            }
            Cmd::Ld { n } if *n < nn => {
                if self.slots[*n].wr.is_some() {
                    return;
                }
                if let Some(h) = self.slots[*n].handle.clone() {
                    let v = h.borrow().load();
                    self.log.ev("ld", &[("n", *n as i64 + 1), ("v", v as i64)]);
                }
            }
            Cmd::Op { op, lst, buf } if "RWGX".contains(*op) && (*lst == 1 || *lst == 2) => {
                if self.op.is_some() || self.wk.is_some() {
                    return;
                }
                let (op, lst) = (*op, *lst);
                let b = if *buf == 0 { self.max_buf() } else { *buf };
                let gate = self.be.ctl.gate();
                set_unlimited(&gate, false);
                gate.borrow_mut().steps = 0;
                self.be.ctl.begin();
                let fut = self.sys[lst - 1].op(op, lst == 2, b);
                let outs = self.outs.clone();
                let t = self.ex.spawn(Box::pin(async move {
                    let r = fut.await;
                    outs.borrow_mut().push_back(Out::Op { op, lst, r });
                }));
                self.op = Some((t, op, lst));
                // may some value not fit the buffer?
                let small = b != self.max_buf() && !(op == 'W' && self.fit_buf().is_some_and(|f| b >= f));
                self.log.push(format!("{{\"e\":\"op\",\"op\":\"{op}\",\"lst\":{lst},\"small\":{}}}", small as u8));
                if lst == 2 {
                    set_unlimited(&gate, true);
                }
                self.settle();
            }
            Cmd::Step(j) => {
                if self.op.is_some() {
                    grant(&self.be.ctl.gate(), *j as u64);
                    self.settle();
                }
            }
            // a busy system: the pending calls of a node are not polled for a while
            Cmd::Hold(n) if *n < nn => {
                let s = &self.slots[*n];
                let ids: Vec<u32> = s.att.iter().map(|a| a.0).chain(s.wr).chain(s.det).collect();
                if !ids.is_empty() {
                    self.ex.held.extend(ids);
                    self.log.ev("hold", &[("n", *n as i64 + 1)]);
                }
            }
            Cmd::Rel => {
                self.ex.held.clear();
                self.settle();
            }
            Cmd::Fin => {
                if self.op.is_some() {
                    set_unlimited(&self.be.ctl.gate(), true);
                    self.settle();
                    if self.op.is_some() && !self.be.ctl.torn() {
                        // a call that holds the list must be allowed to go on
                        self.ex.held.clear();
                        self.settle();
                    }
                    if self.op.is_some() && !self.be.ctl.torn() {
                        // it is waiting for something else than storage
                        self.log.push("{\"e\":\"ph\",\"why\":\"operation blocked\"}".into());
                        self.dead = true;
                    } else if self.op.is_some() {
                        // power was cut
                        self.crash();
                    }
                }
            }
            Cmd::Opc => {
                if let Some((t, op, lst)) = self.op.take() {
                    self.ex.kill(t);
                    self.log.push(format!("{{\"e\":\"opc\",\"op\":\"{op}\",\"lst\":{lst}}}"));
                    if lst == 1 {
                        self.sync();
                    }
                    self.settle();
                }
            }
            Cmd::Flt { k, .. } if k == "none" => self.be.ctl.clear_plan(),
            Cmd::Flt { k, nth } => {
                if let Some(k) = Fk::parse(k) {
                    self.be.ctl.plan(k, *nth);
                }
            }
            Cmd::Cut { nth, words } => self.be.ctl.cut(*nth, *words),
            Cmd::Crash => self.crash(),
            Cmd::Env(r) => {
                if self.op.is_none() {
                    self.be.ctl.set(r.clone());
                    self.env();
                }
            }
            Cmd::Dmg(i, m) => {
                // at-rest damage, only meaningful while the flash is not in use
                if self.op.is_none() && self.be.ctl.exact() {
                    let mut raws: Vec<Vec<u8>> = self.be.ctl.raws().into_iter().map(|x| x.0).collect();
                    if raws.is_empty() {
                        return;
                    }
                    let i = i % raws.len();
                    match m {
                        0 => {
                            raws.remove(i);
                        }
                        1 => {
                            let n = raws[i].len();
                            raws[i][n - 1] ^= 0x01;
                        }
                        2 => raws[i][0] = 0xfe,
                        _ => {
                            let n = raws[i].len();
                            raws[i].truncate(n - 1);
                        }
                    }
                    self.be.ctl.set(raws);
                    self.env();
                }
            }
            Cmd::Watch(c, on) => {
                let i = if *c == 'r' { 0 } else { 1 };
                if *on && self.wt[i].is_none() {
                    let log = self.log.clone();
                    // one future per wait, from the same list
                    let sys: *const dyn Sys = &*self.sys[0];
                    let tag = if i == 0 { "wkr" } else { "wkw" };
                    let t = self.ex.spawn(Box::pin(async move {
                        loop {
                            // SAFETY: the task is killed before the system object is replaced
                            let f = unsafe { if i == 0 { (*sys).wait_read() } else { (*sys).wait_write() } };
                            f.await;
                            log.ev(tag, &[]);
                        }
                    }));
                    self.wt[i] = Some(t);
                    self.settle();
                } else if !*on && let Some(t) = self.wt[i].take() {
                    self.ex.kill(t);
                    self.log.ev("wof", &[("w", i as i64)]);
                }
            }
            Cmd::Wk(c) => {
                if self.wk.is_some() || self.op.is_some() {
                    return;
                }
                set_unlimited(&self.be.ctl.gate(), true);
                self.be.ctl.begin();
                let flag = Rc::new(RefCell::new((false, None::<std::task::Waker>)));
                let f2 = flag.clone();
                let stopper: BoxFut<()> = Box::pin(std::future::poll_fn(move |cx| {
                    let mut f = f2.borrow_mut();
                    if f.0 {
                        std::task::Poll::Ready(())
                    } else {
                        f.1 = Some(cx.waker().clone());
                        std::task::Poll::Pending
                    }
                }));
                let noop = *c == 'n';
                let b = self.max_buf();
                // the no-op worker serves the list without storage
                let mut fut = self.sys[noop as usize].worker(noop, stopper, b);
                let (log, gate, wst) = (self.log.clone(), self.be.ctl.gate(), self.wst.clone());
                *wst.borrow_mut() = WState::default();
                let nk = self.setup.k;
                self.log.push(format!("{{\"e\":\"wk\",\"noop\":{},\"k\":{nk}}}", noop as u8));
                let t = self.ex.spawn(Box::pin(std::future::poll_fn(move |cx| {
                    use std::task::Poll;
                    let s0 = gate.borrow().seen;
                    if noop {
                        // what it does happens at once
                        log.push("{\"e\":\"op\",\"op\":\"R\",\"lst\":2,\"small\":0}".into());
                    }
                    let r = fut.as_mut().poll(cx);
                    if noop {
                        log.push("{\"e\":\"opr\",\"op\":\"R\",\"lst\":2,\"res\":\"ok\",\"c1\":0,\"c2\":0,\"c3\":0}".into());
                    }
                    let mut w = wst.borrow_mut();
                    let s1 = gate.borrow().seen;
                    if s1 != s0 {
                        w.busy = true;
                    }
                    match r {
                        Poll::Ready(()) => {
                            w.over = true;
                            log.ev("ret", &[]);
                            Poll::Ready(())
                        }
                        Poll::Pending => {
                            if gate.borrow().stuck() {
                                w.busy = true;
                                log.ev("wb", &[]);
                            } else if w.busy {
                                w.busy = false;
                                log.ev("wi", &[]);
                                gate.borrow_mut().steps = 0;
                            }
                            Poll::Pending
                        }
                    }
                })));
                self.stop = Some(flag);
                self.wk = Some((t, *c));
                self.settle();
            }
            Cmd::Stop => {
                if let (Some(_), Some(f)) = (self.wk, self.stop.clone()) {
                    if f.borrow().0 {
                        return;
                    }
                    self.log.ev("stop", &[]);
                    f.borrow_mut().0 = true;
                    let w = f.borrow_mut().1.take();
                    if let Some(w) = w {
                        w.wake();
                    }
                    self.settle();
                }
            }
            Cmd::Kill => {
                if let Some((t, _)) = self.wk.take() {
                    self.ex.kill(t);
                    self.log.ev("kill", &[]);
                    self.settle();
                }
            }
            Cmd::Adv(ms) => {
                let mut left = *ms;
                while left > 0 && !self.dead {
                    let d = left.min(10);
                    left -= d;
                    embassy_time::MockDriver::get().advance(embassy_time::Duration::from_millis(d));
                    self.now += d;
                    if self.ex.woken() || left == 0 {
                        let t = self.now as i64;
                        self.log.ev("tm", &[("t", t)]);
                        self.settle();
                    }
                }
            }
            Cmd::Tick(ms) => {
                // time passes, and something else happens before any task notices
                embassy_time::MockDriver::get().advance(embassy_time::Duration::from_millis(*ms));
                self.now += ms;
                let t = self.now as i64;
                self.log.ev("tm", &[("t", t)]);
            }
            Cmd::Gate(n) => {
                if self.op.is_none() {
                    let g = self.be.ctl.gate();
                    set_unlimited(&g, false);
                    grant(&g, *n);
                    self.settle();
                }
            }
            Cmd::Open => {
                set_unlimited(&self.be.ctl.gate(), true);
                self.settle();
            }
            _ => {}
        }
    }
    fn env(&mut self) {
        let fl = self.flash_json();
        self.log.push(format!("{{\"e\":\"env\",\"flash\":{fl}}}"));
    }
    pub fn crash(&mut self) {
        // nothing of the old world may run again: forget, do not drop
        let old = std::mem::replace(&mut self.ex, Exec::new());
        std::mem::forget(old);
        std::mem::forget(std::mem::take(&mut self.slots));
        std::mem::forget(std::mem::take(&mut self.sys));
        self.outs.borrow_mut().clear();
        self.op = None;
        self.wt = [None, None];
        self.wk = None;
        self.log.ev("crash", &[]);
        set_unlimited(&self.be.ctl.gate(), true);
        self.boot(false);
    }
    pub fn end(self) -> Vec<String> {
        let ev = std::mem::take(&mut self.log.0.borrow_mut().ev);
        let ev = {
            let mut l = self.log.0.borrow_mut();
            ev.iter().map(|e| l.intern.resolve(e)).collect()
        };
        std::mem::forget(self);
        ev
    }
    pub fn n_nodes(&self) -> usize {
        self.nodes.len()
    }
    /// encoded length of a node's element with value v
    pub fn elem_len(&self, n: usize, v: u32) -> usize {
        crate::util::enc_data(self.keys[n], &enc_val(v)).len()
    }
}

/// Run a script; a panic of the code under test becomes an event.
pub fn run_script(setup: &Setup, cmds: &[Cmd]) -> Vec<String> {
    let mut w = World::new(setup.clone());
    for c in cmds {
        if w.dead || !step_guarded(&mut w, c) {
            break;
        }
    }
    w.end()
}
pub fn step_guarded(w: &mut World, c: &Cmd) -> bool {
    crate::current(|s| {
        s.push_str(&c.text());
        s.push('\n');
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.cmd(c)));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if std::env::var("HARNESS_DEBUG").is_ok() {
            eprintln!("panic in {}: {m}", c.text());
        }
        let m: String = m.chars().map(|c| if c.is_ascii_alphanumeric() || " :_-".contains(c) { c } else { '.' }).take(120).collect();
        w.log.push(format!("{{\"e\":\"ph\",\"why\":\"{m}\"}}"));
        w.dead = true;
        return false;
    }
    true
}
