//! Value types stored in nodes, with live-instance accounting.
use crate::util::{SUB, TYB, dec_val, enc_val};
use minicbor::{CborLen, Decode, Encode, decode, encode};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

thread_local! {
    static GEN: Cell<u32> = const { Cell::new(0) };
    static LIVE: RefCell<HashMap<u32, i64>> = RefCell::new(HashMap::new());
}
pub fn new_generation() {
    GEN.with(|g| g.set(g.get() + 1));
}
pub fn live() -> i64 {
    let g = GEN.with(|g| g.get());
    LIVE.with(|l| *l.borrow().get(&g).unwrap_or(&0))
}
fn count(g: u32, d: i64) {
    LIVE.with(|l| *l.borrow_mut().entry(g).or_insert(0) += d);
}
const ALIVE: u32 = 0xA11CE;

/// One type for both encodings, parametrised by the encoding it accepts
pub struct Val<const TY: u32> {
    pub v: u32,
    g: u32,
    canary: u32,
}
impl<const TY: u32> Val<TY> {
    pub fn new(v: u32) -> Self {
        let g = GEN.with(|g| g.get());
        count(g, 1);
        Val { v, g, canary: ALIVE }
    }
    fn check(&self) {
        assert!(self.canary == ALIVE, "HARNESS: value used that is not alive");
    }
}
impl<const TY: u32> Clone for Val<TY> {
    fn clone(&self) -> Self {
        self.check();
        count(self.g, 1);
        Val { v: self.v, g: self.g, canary: ALIVE }
    }
}
impl<const TY: u32> Drop for Val<TY> {
    fn drop(&mut self) {
        let c = self.canary;
        self.canary = 0xDEAD;
        if c == ALIVE {
            count(self.g, -1);
        } else {
            // double drop or drop of garbage: make the books wrong for good
            let g = GEN.with(|g| g.get());
            count(g, -1000);
        }
    }
}
// what minicbor's derive makes of the documented ways to change a type
#[derive(Encode, Decode)]
struct W0<'b> {
    #[n(0)]
    x: u32,
    #[b(1)]
    #[cbor(with = "minicbor::bytes")]
    p: &'b [u8],
}
/// added: an optional field
#[derive(Encode, Decode)]
struct W2<'b> {
    #[n(0)]
    x: u32,
    #[b(1)]
    #[cbor(with = "minicbor::bytes")]
    p: &'b [u8],
    #[n(2)]
    o: Option<u8>,
}
/// removed: a field
#[derive(Encode, Decode)]
struct W3 {
    #[n(0)]
    x: u32,
}
/// added: a field with a default
#[derive(Encode, Decode)]
struct W4<'b> {
    #[n(0)]
    x: u32,
    #[b(1)]
    #[cbor(with = "minicbor::bytes")]
    p: &'b [u8],
    #[n(2)]
    #[cbor(default)]
    o: u8,
}
impl<const TY: u32, C> Encode<C> for Val<TY> {
    fn encode<W: encode::Write>(&self, e: &mut minicbor::Encoder<W>, _: &mut C) -> Result<(), encode::Error<W::Error>> {
        self.check();
        let x = if self.v < TYB { self.v } else { self.v % SUB };
        let b = enc_val(x);
        let w: W0 = minicbor::decode(&b).unwrap();
        let o = if self.v < TYB { None } else if self.v < 700_000 { Some((x % 7 + 1) as u8) } else { Some(0) };
        match TY {
            0 => e.encode(w)?,
            1 => e.str(&format!("b{}", self.v - TYB))?,
            2 => e.encode(W2 { x, p: w.p, o })?,
            3 => e.encode(W3 { x })?,
            _ => e.encode(W4 { x, p: w.p, o: o.unwrap() })?,
        };
        Ok(())
    }
}
impl<const TY: u32, C> CborLen<C> for Val<TY> {
    fn cbor_len(&self, _: &mut C) -> usize {
        enc_val(self.v).len()
    }
}
impl<'b, const TY: u32, C> Decode<'b, C> for Val<TY> {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<Self, decode::Error> {
        let start = d.position();
        d.skip()?;
        let bytes = &d.input()[start..d.position()];
        let no = || decode::Error::message("not of this type");
        let raw = dec_val(bytes).ok_or_else(no)?;
        let sub = |x: u32| if x < SUB { Ok(x) } else { Err(no()) };
        let v = match TY {
            0 => minicbor::decode::<W0>(bytes)?.x,
            1 => if raw / SUB == 5 { raw } else { return Err(no()) },
            2 => {
                let w: W2 = minicbor::decode(bytes)?;
                match w.o {
                    None => w.x,
                    Some(0) => 700_000 + sub(w.x)?,
                    Some(_) => 600_000 + sub(w.x)?,
                }
            }
            3 => 800_000 + sub(minicbor::decode::<W3>(bytes)?.x)?,
            _ => {
                let w: W4 = minicbor::decode(bytes)?;
                if w.o == 0 { 700_000 + sub(w.x)? } else { 600_000 + sub(w.x)? }
            }
        };
        Ok(Val::new(v))
    }
}
