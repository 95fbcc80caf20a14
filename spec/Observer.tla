------------------------------ MODULE Observer ------------------------------
(***************************************************************************)
(* What every history of cfg-noodle has to look like from outside.         *)
(*                                                                         *)
(* Step(o, ev) is a deterministic state machine: o is everything that      *)
(* follows from the observable events so far (content of the flash, which  *)
(* records were acknowledged, what each node may hold, what each running   *)
(* call may still do), ev the next observable event.  o.bad collects the   *)
(* names of the properties (C01..C24 of properties.jsonl) the history has  *)
(* broken.  The same module judges                                         *)
(*   - the design model Noodle.tla, exhaustively, and                      *)
(*   - traces recorded from the real code, through Trace.tla.              *)
(* Where the observable events leave something open (for example whether  *)
(* a cancelled write took effect) o keeps the set of possibilities.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Room

INF  == 1000000
TYB  == 500000          \* values below are of type 0, see Conv
JUNK == 1000000         \* values from here on are of no type
BIG  == 400000          \* values of type 0 from here on may be too large to store

ALLP == {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12",
         "C13","C14","C15","C16","C17","C18","C23","C24","C25"}

Maxi(a, b) == IF a >= b THEN a ELSE b
Mini(a, b) == IF a <= b THEN a ELSE b

----------------------------------------------------------------------------
(* Records on flash.  An element is                                        *)
(*   [k |-> "S"|"D"|"E"|"X", s, key, v, c, l, f, w]                        *)
(* k: start marker, data, end marker, undecodable; s: sequence number;     *)
(* c: for an end marker the data list its checksum covers (in traces v is  *)
(*    the checksum itself, as far as it fits); l: bytes;                   *)
(* f: on a start marker 1 while the write-back that wrote it is not known  *)
(*    to have succeeded, 2 if that may have been forgotten by the list;    *)
(* w: position in the stream of all bytes ever appended.                   *)

PStep(acc, e) ==
  CASE e.k = "S" -> [acc EXCEPT !.i = @ + 1, !.a = acc.i + 1, !.s = e.s, !.f = e.f, !.d = <<>>, !.n = 0, !.w = e.w]
    [] e.k = "D" -> IF acc.a = 0 THEN [acc EXCEPT !.i = @ + 1]
                    ELSE [acc EXCEPT !.i = @ + 1, !.d = Append(@, <<e.key, e.v>>), !.n = @ + e.l]
    [] e.k = "E" /\ acc.a # 0 /\ acc.s = e.s /\ acc.d = e.c ->
                    [acc EXCEPT !.i = @ + 1, !.a = 0,
                       !.out = Append(@, [a |-> acc.a, b |-> acc.i + 1, s |-> acc.s, f |-> acc.f, d |-> acc.d, n |-> acc.n, w |-> acc.w])]
    [] OTHER     -> [acc EXCEPT !.i = @ + 1, !.a = 0]

\* the valid records of a flash content, in storage order
Recs(flash) == FoldLeft(PStep, [i |-> 0, a |-> 0, s |-> 0, f |-> 0, d |-> <<>>, n |-> 0, w |-> 0, out |-> <<>>], flash).out

RECSET(rs) == {rs[i] : i \in 1..Len(rs)}
\* the newest of a set of records, as a set (empty or singleton)
NewestOf(S) == {r \in S : \A q \in S : q.s <= r.s}
\* what a read may regard as the current record, with NOREC for none: the record of a write-back that was
\* reported as failed may be known, may be unknown, and may be forgotten
NOREC == [a |-> 0, b |-> 0, s |-> -1, f |-> 0, d |-> <<>>, n |-> 0, w |-> 0]
NewestIn(S) == IF S = {} THEN {NOREC} ELSE NewestOf(S)
Cands(rs) == NewestIn(RECSET(rs)) \cup NewestIn({r \in RECSET(rs) : r.f = 0}) \cup NewestIn({r \in RECSET(rs) : r.f # 1})

\* values stored under a key: the first data element with that key
RECURSIVE FirstVal(_, _)
FirstVal(d, key) == IF d = <<>> THEN -1 ELSE IF Head(d)[1] = key THEN Head(d)[2] ELSE FirstVal(Tail(d), key)

\* What a node of type ty makes of the stored value v; -1: it cannot be decoded.  With x below 100000, v is
\*   x: fields x and padding (type 0);  500000 + x: a value of type 1;  600000 + x: x, padding and an extra field;
\*   700000 + x: x, padding and an extra field with its default;  800000 + x: x only (type 3).
\* Type 2 is type 0 with an added optional field, type 4 with an added defaulted field, type 3 lacks the padding.
Conv(v, ty) ==
  LET x == v % 100000 IN
  IF v < 0 \/ v >= JUNK THEN -1
  ELSE CASE ty = 0 -> IF v < TYB THEN v ELSE IF v >= 600000 /\ v < 800000 THEN x ELSE -1
         [] ty = 1 -> IF v >= TYB /\ v < 600000 THEN v ELSE -1
         [] ty = 2 -> IF v < TYB \/ (v >= 600000 /\ v < 800000) THEN v ELSE -1
         [] ty = 3 -> IF v < 100000 \/ v >= 600000 THEN 800000 + x ELSE -1
         [] ty = 4 -> IF v < 100000 THEN 700000 + x ELSE IF v >= 600000 /\ v < 800000 THEN v ELSE -1
         [] OTHER  -> -1

II == <<"I", 0, 0>>     \* attached or not, nothing looked up yet
NN == <<"N", 0, 0>>     \* looked up: no usable value on flash
VV(v, p) == <<"V", v, p>>  \* holds v; p = 1: has to be written back

\* what looking up a node in a set of candidate records gives
Hydrate(nd, cands) ==
  IF cands = {} THEN {NN}   \* storage that is always empty
  ELSE {LET x == Conv(FirstVal(r.d, nd.key), nd.ty) IN IF x # -1 THEN VV(x, 0) ELSE NN : r \in cands}
\* ... when the look may have ended early: found values count, absence does not
HydratePart(nd, cands) ==
  UNION {LET x == FirstVal(r.d, nd.key)
             y == Conv(x, nd.ty)
         IN IF x = -1 THEN {} ELSE IF y # -1 THEN {VV(y, 0)} ELSE {NN} : r \in cands}

\* a stored record has a value of another type for the node
Foreign(rs, nd) == \E i \in 1..Len(rs) : LET x == FirstVal(rs[i].d, nd.key) IN x # -1 /\ Conv(x, nd.ty) # x

\* elements that are in no valid record; one of them would give the node this value
InRec(o, i) == \E r \in RECSET(o.recs) : r.a <= i /\ i <= r.b
Remains(o) == \E i \in 1..Len(o.flash) : ~InRec(o, i)
Loose(o, nd, v) == \E i \in 1..Len(o.flash) : /\ o.flash[i].k = "D" /\ o.flash[i].key = nd.key
                                               /\ Conv(o.flash[i].v, nd.ty) = v /\ ~InRec(o, i)

SumLen(fl) == FoldLeft(LAMBDA a, e : a + e.l, 0, fl)
MaxLen(fl) == FoldLeft(LAMBDA a, e : Maxi(a, e.l), 0, fl)

Core(e) == <<e.k, e.s, e.key, e.v, IF e.v = 0 THEN e.c ELSE <<>>, e.l>>
Same(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Core(x[i]) = Core(y[i])
Without(fl, i) == SubSeq(fl, 1, i - 1) \o SubSeq(fl, i + 1, Len(fl))

\* number the bytes of a content found on the medium
Place(fl) ==
  FoldLeft(LAMBDA a, e : [n |-> a.n + e.l,
                          out |-> Append(a.out, [k |-> e.k, s |-> e.s, key |-> e.key, v |-> e.v, c |-> e.c, l |-> e.l, f |-> 0, w |-> a.n])],
           [n |-> 0, out |-> <<>>], fl)

----------------------------------------------------------------------------
Node0(nd) ==
  [key |-> nd.key, ty |-> nd.ty, lst |-> 0, lk |-> "n", plk |-> "n", h |-> 0,
   at |-> 0, alst |-> 0, def |-> -1, aex |-> {},
   a2 |-> 0, a2x |-> {},
   poss |-> {II}, wv |-> -1, ov |-> FALSE, det |-> 0, dex |-> {}, ever |-> FALSE,
   ab |-> {},    \* values of writes that were given up
   hist |-> {}]

Op0 == [on |-> "", lst |-> 0, small |-> 0, flt |-> {}, mut |-> 0, rb |-> 0, pb |-> 0, rn |-> 0, wb |-> 0, gb |-> 0,
        sc |-> "n", gc |-> "n", ini |-> FALSE, maini |-> FALSE, rec |-> "", rs |-> 0, rd |-> <<>>, si |-> 0,
        nv |-> 0]

Fresh(ev) ==
  LET p == Place(ev.flash) IN
  [k |-> ev.k, flash |-> p.out, pos |-> p.n, recs |-> Recs(p.out),
   acked |-> [s |-> -1, d |-> <<>>],
   nd |-> [i \in 1..Len(ev.nodes) |-> Node0(ev.nodes[i])],
   op |-> Op0, t |-> 0, sc |-> "n", gc |-> "n",
   needR |-> {}, needW |-> {}, infl |-> [t |-> "", el |-> <<>>, i |-> 0], hold |-> FALSE,
   rst |-> FALSE, cxl |-> FALSE, dirty |-> FALSE, bad |-> {}, why |-> ""]

NIL == [k |-> 0, flash |-> <<>>, pos |-> 0, recs |-> <<>>, acked |-> [s |-> -1, d |-> <<>>], nd |-> <<>>,
        op |-> Op0, t |-> 0, sc |-> "n", gc |-> "n", needR |-> {}, needW |-> {},
        infl |-> [t |-> "", el |-> <<>>, i |-> 0],
        hold |-> FALSE,  \* some calls are not polled, and may keep others waiting for the lock
        rst |-> FALSE, cxl |-> FALSE, dirty |-> FALSE, bad |-> {}, why |-> ""]

Bad(o, labs, why) ==
  [o EXCEPT !.bad = @ \cup labs \cup (IF o.rst THEN {"C23"} ELSE {}) \cup (IF o.cxl THEN {"C14"} ELSE {}),
            !.why = IF @ = "" THEN why ELSE @]
\* a condition that has to hold; suspended while the medium was changed from outside and nobody was told
Must(o, c, labs, why) == IF c \/ o.dirty THEN o ELSE Bad(o, labs, why)

ND(o) == 1..Len(o.nd)
\* nodes that are / may be on list x
On(o, x) == {n \in ND(o) : o.nd[n].lk = "y" /\ o.nd[n].lst = x}
May(o, x) == {n \in ND(o) : o.nd[n].lk # "n" /\ o.nd[n].lst = x}

----------------------------------------------------------------------------
(* Attach and detach: which outcomes the situation allows                  *)

DupOut(o, n, x) ==
  LET others == {m \in ND(o) \ {n} : o.nd[m].key = o.nd[n].key /\ o.nd[m].lk # "n" /\ o.nd[m].lst = x}
  IN IF others = {} THEN {"ok"}
     ELSE IF \E m \in others : o.nd[m].lk = "y" /\ o.nd[m].det = 0 THEN {"dup"} ELSE {"dup", "ok"}

AttOut(o, n, x) ==
  LET d == o.nd[n] IN
  IF d.h = 1 THEN (IF d.lst = x THEN {"taken"} ELSE {"other"})
  ELSE (IF d.lk # "n" THEN (IF d.lst = x THEN {"ok"} ELSE {"other"}) ELSE {})
       \cup (IF d.lk # "y" \/ d.det # 0 THEN DupOut(o, n, x) ELSE {})

\* the outcome of a second call while the first one waits
Att2Out(o, n, x) ==
  LET d == o.nd[n] IN
  IF d.lk = "y" \/ d.h = 1 THEN (IF d.alst = x THEN {"taken"} ELSE {"other"})
  ELSE {"taken", "other", "dup", "ok"}

DetOut(o, n, x) ==
  LET d == o.nd[n] IN
  IF d.h = 1 THEN (IF d.lst = x THEN {"taken"} ELSE {"other"})
  ELSE LET linked == IF d.at # 0
                     THEN (IF d.lst = x THEN {"taken"} ELSE {"other"})
                          \cup (IF d.plk = "y" /\ o.op.on # "" THEN (IF d.lst = x THEN {"ok"} ELSE {"other"}) ELSE {})
                     ELSE (IF d.lst = x THEN {"ok"} ELSE {"other"})
       IN (IF d.lk # "n" THEN linked ELSE {}) \cup (IF d.lk # "y" THEN {"ok"} ELSE {})

\* calls that wait for the lock may find any situation that arises until they get it
Spread(o) ==
  IF o.op.on = "" /\ ~o.hold THEN o ELSE
  [o EXCEPT !.nd = [n \in ND(o) |->
     LET d == o.nd[n] IN
     IF d.at = 0 /\ d.det = 0 THEN d
     ELSE [d EXCEPT !.aex = IF d.at # 0 THEN @ \cup AttOut(o, n, d.alst) ELSE @,
                    !.dex = IF d.det # 0 THEN @ \cup DetOut(o, n, d.det) ELSE @]]]

EvAtt(o, ev) ==
  LET d == o.nd[ev.n] IN
  IF d.at # 0
  THEN [o EXCEPT !.nd[ev.n].a2 = ev.c, !.nd[ev.n].a2x = Att2Out(o, ev.n, ev.lst)]
  ELSE LET ex == AttOut(o, ev.n, ev.lst)
           fresh == d.lk = "n"
           \* a node that may turn out to be attached to the new list now
           nlk == IF d.lk = "y" THEN "y" ELSE IF "ok" \in ex THEN "m" ELSE d.lk
           nlst == IF d.lk = "n" /\ "ok" \in ex THEN ev.lst
                   ELSE IF d.lk = "m" /\ "ok" \in ex /\ d.lst # ev.lst THEN ev.lst ELSE d.lst
           hist == IF o.op.on = "W" THEN d.hist \cup {[v |-> ev.def, lo |-> o.t, hi |-> INF]} ELSE d.hist
       IN [o EXCEPT !.nd[ev.n] = [d EXCEPT !.at = ev.c, !.alst = ev.lst, !.def = ev.def, !.aex = ex,
                                           !.plk = d.lk, !.lk = nlk, !.lst = nlst, !.hist = hist],
                    !.needR = IF ev.lst = 1 /\ d.h = 0 THEN @ \cup {ev.n} ELSE @]

EvAttr(o, ev) ==
  LET n == ev.n
      d == o.nd[n]
  IN
  IF ev.c = d.a2 /\ d.a2 # 0 THEN
    LET o1 == [o EXCEPT !.nd[n].a2 = 0] IN
    Must(o1, ev.res \in d.a2x /\ ev.res # "ok", {"C12"}, "second attach: " \o ev.res)
  ELSE IF ev.res # "ok" THEN
    LET \* the refusal tells where a node is whose earlier calls were dropped
        lk == IF d.plk # "m" \/ d.det # 0 THEN d.plk ELSE IF ev.res = "other" THEN "y" ELSE "n"
        lst == IF lk = "n" THEN 0 ELSE IF d.plk = "m" /\ ev.res = "other" THEN 3 - d.alst ELSE d.lst
        o1 == [o EXCEPT !.nd[n].at = 0, !.nd[n].aex = {}, !.nd[n].lk = lk, !.nd[n].lst = lst,
                        !.nd[n].poss = IF lk = "n" THEN {II} ELSE @, !.needR = @ \ {n}]
    IN Must(o1, ev.res \in d.aex, {"C12"}, "attach refused: " \o ev.res)
  ELSE
    LET vals == {x \in d.poss : x[1] = "V"}
        okv == {x[2] : x \in vals} \cup (IF NN \in d.poss THEN {d.def} ELSE {})
        np  == {x \in vals : x[2] = ev.v} \cup (IF NN \in d.poss /\ ev.v = d.def THEN {VV(d.def, 1)} ELSE {})
        np2 == IF np = {} THEN {VV(ev.v, 1), VV(ev.v, 0)} ELSE np
        hist == IF o.op.on = "W" THEN {[x EXCEPT !.hi = Mini(@, o.t + 1)] : x \in d.hist} \cup {[v |-> ev.v, lo |-> 0, hi |-> INF]} ELSE {}
        o1 == [o EXCEPT !.nd[n] = [d EXCEPT !.at = 0, !.aex = {}, !.h = 1, !.lk = "y", !.lst = d.alst, !.poss = np2,
                                            !.hist = hist, !.ever = TRUE],
                        !.t = IF o.op.on = "W" THEN @ + 1 ELSE @,
                        !.needR = @ \ {n}]
        o2 == Must(o1, "ok" \in d.aex, {"C12"}, "attach accepted")
        first == d.plk = "n"
        lab == IF ~first THEN {"C11"}
               ELSE {"C03"} \cup (IF d.ever THEN {"C13"} ELSE {})
                    \cup (IF Foreign(o.recs, d) THEN {"C25"} ELSE {})
                    \cup (IF Loose(o, d, ev.v) THEN {"C02"} ELSE {})
                    \cup (IF o.acked.s # -1 /\ Conv(FirstVal(o.acked.d, d.key), d.ty) # -1 THEN {"C01"} ELSE {})
        o3 == Must(o2, ev.v \in okv, lab, "attach gave a wrong value")
    IN o3

EvAttc(o, ev) ==
  LET n == ev.n
      d == o.nd[n]
  IN IF ev.c = d.a2 /\ d.a2 # 0 THEN [o EXCEPT !.nd[n].a2 = 0, !.cxl = TRUE]
     ELSE [o EXCEPT !.nd[n].at = 0, !.nd[n].aex = {}, !.needR = @ \ {n}, !.cxl = TRUE]

EvDet(o, ev) == [o EXCEPT !.nd[ev.n].det = ev.lst, !.nd[ev.n].dex = DetOut(o, ev.n, ev.lst)]

EvDetr(o, ev) ==
  LET n == ev.n
      d == o.nd[n]
      o0 == [o EXCEPT !.nd[n].det = 0, !.nd[n].dex = {}]
      o1 == Must(o0, ev.res \in d.dex, {"C12"}, "detach: " \o ev.res)
      gone == IF d.h = 1 THEN o1
              ELSE [o1 EXCEPT !.nd[n].lk = IF d.at = 0 THEN "n" ELSE "m",
                              !.nd[n].plk = "n", !.nd[n].ever = TRUE,
                              !.nd[n].lst = IF d.at = 0 THEN 0 ELSE d.alst,
                              !.nd[n].poss = {II}, !.nd[n].ab = {},
                              !.nd[n].hist = IF o.op.on = "W"
                                 THEN {[x EXCEPT !.hi = Mini(@, o.t + 1)] : x \in d.hist} \cup {[v |-> -1, lo |-> 0, hi |-> INF]} ELSE {},
                              !.t = IF o.op.on = "W" THEN @ + 1 ELSE @]
  IN IF ev.res = "ok" THEN gone ELSE o1

EvDetc(o, ev) ==
  LET d == o.nd[ev.n] IN
  [o EXCEPT !.nd[ev.n].det = 0, !.nd[ev.n].dex = {}, !.cxl = TRUE,
            \* it may have happened
            !.nd[ev.n].lk = IF d.h = 1 \/ d.lk = "n" \/ d.at # 0 \/ d.lst # d.det THEN @ ELSE "m",
            !.nd[ev.n].poss = IF d.h = 1 \/ d.lk = "n" \/ d.at # 0 \/ d.lst # d.det THEN @ ELSE @ \cup {II}]

EvWr(o, ev) ==
  LET n == ev.n IN
  [o EXCEPT !.nd[n].wv = ev.v, !.nd[n].poss = @ \cup {VV(ev.v, 1)}, !.nd[n].ov = (o.op.on = "W"),
            !.nd[n].hist = IF o.op.on = "W" THEN @ \cup {[v |-> ev.v, lo |-> o.t, hi |-> INF]} ELSE @,
            !.needW = IF o.nd[n].lst = 1 THEN @ \cup {n} ELSE @]

EvWrr(o, ev) ==
  LET n == ev.n
      d == o.nd[n]
      keep == IF d.ov THEN {x \in d.poss : x[1] = "V" /\ x[2] = d.wv} ELSE {}
      o1 == [o EXCEPT !.nd[n].wv = -1, !.nd[n].ab = {}, !.nd[n].poss = IF keep = {} THEN {VV(d.wv, 1)} ELSE keep,
                      !.nd[n].hist = IF o.op.on = "W"
                        THEN {IF x.v = d.wv THEN x ELSE [x EXCEPT !.hi = Mini(@, o.t + 1)] : x \in d.hist} ELSE {},
                      !.t = IF o.op.on = "W" THEN @ + 1 ELSE @]
  IN Must(o1, ev.res = "ok", {"C15", "C11"}, "node write failed")

EvWrc(o, ev) ==
  LET d == o.nd[ev.n] IN
  [o EXCEPT !.nd[ev.n].wv = -1, !.nd[ev.n].ab = @ \cup {d.wv}, !.needW = @ \ {ev.n}, !.cxl = TRUE]

EvLd(o, ev) ==
  LET d == o.nd[ev.n]
      hit == {x \in d.poss : x[1] = "V" /\ x[2] = ev.v}
  IN IF hit # {} THEN [o EXCEPT !.nd[ev.n].poss = hit] ELSE Bad(o, {"C11"}, "load gave a wrong value")

----------------------------------------------------------------------------
(* Storage operations                                                      *)

EvOp(o, ev) ==
  LET on1 == On(o, ev.lst)
      may1 == May(o, ev.lst)
      w == ev.op = "W" /\ ev.lst = 1
      nds == IF ~w THEN o.nd ELSE
        [n \in ND(o) |->
           LET d == o.nd[n]
               vs == {x[2] : x \in {y \in d.poss : y[1] = "V"}}
               here == d.lk # "n" /\ d.lst = 1
           IN [d EXCEPT !.ov = (d.wv # -1),
                        !.hist = (IF here THEN {[v |-> v, lo |-> 0, hi |-> INF] : v \in vs} ELSE {})
                                 \cup (IF ~here \/ d.lk # "y" \/ d.det # 0 \/ \E x \in d.poss : x[1] # "V"
                                       THEN {[v |-> -1, lo |-> 0, hi |-> INF]} ELSE {})]]
  IN [o EXCEPT !.op = [Op0 EXCEPT !.on = ev.op, !.lst = ev.lst, !.small = ev.small, !.sc = o.sc, !.gc = o.gc,
                         !.ini = \E n \in on1 : o.nd[n].poss = {II},
                         !.maini = \E n \in may1 : II \in o.nd[n].poss,
                         !.nv = Cardinality({r \in RECSET(o.recs) : r.f = 0})],
               !.nd = nds, !.t = 0]

\* anything to write back, as far as can be told?
Due(o) ==
  \/ \E n \in May(o, 1) : \E x \in o.nd[n].poss : x[1] = "V" /\ x[3] = 1
  \/ \A r \in RECSET(o.recs) : r.f # 0

\* an acknowledged record, or a newer one, is still there
Durable(o) ==
  LET o1 == Must(o, o.acked.s = -1 \/ \E r \in RECSET(o.recs) : r.s > o.acked.s \/ (r.s = o.acked.s /\ r.d = o.acked.d),
                 {"C01"}, "acknowledged record lost")
  IN o1

EvPsh(o, ev) ==
  LET e == ev.el
      p == o.op
      inW == p.on = "W" /\ p.lst = 1
      o0 == Must(o, inW, {"C08"}, "append outside a write-back")
      o1 == Must(o0, ~inW \/ p.mut > 0 \/ Due(o), {"C08"}, "append without need")
      o2 == Must(o1, ~inW \/ (p.sc # "n" /\ p.gc # "y" /\ ~p.ini), {"C09"}, "append although the write-back has to be refused")
      holders == {n \in ND(o) : o.nd[n].key = e.key /\ \E x \in o.nd[n].hist : x.v = e.v}
      o3 == CASE ~inW -> o2
              [] e.k = "S" ->
                   LET a == Must(o2, p.rec = "", {"C02"}, "second start marker")
                   IN Must(a, \A r \in RECSET(o.recs) : r.s < e.s, {"C06"}, "sequence number not above all valid records")
              [] e.k = "D" ->
                   LET a == Must(o2, p.rec = "open", {"C02"}, "data outside a record")
                       b == Must(a, \A i \in 1..Len(p.rd) : p.rd[i][1] # e.key, {"C02", "C12"}, "key twice in a record")
                       gone == \E n \in ND(o) : o.nd[n].key = e.key /\ o.nd[n].ever /\ o.nd[n].lk = "n"
                       old == \E n \in May(o, 1) : o.nd[n].key = e.key /\ Foreign(o.recs, o.nd[n])
                   IN Must(b, holders # {}, {"C02"} \cup (IF gone THEN {"C13"} ELSE {}) \cup (IF old THEN {"C25"} ELSE {}), "data element that no attached node holds")
              [] e.k = "E" ->
                   LET keys == {o.nd[n].key : n \in ND(o)}
                       val(k) == FirstVal(p.rd, k)
                       ent(k) == UNION {{x \in o.nd[n].hist : x.v = val(k)} : n \in {m \in ND(o) : o.nd[m].key = k}}
                       allabs(k) == \A n \in ND(o) : o.nd[n].key = k => \E x \in o.nd[n].hist : x.v = -1
                       there(k) == ent(k) # {} /\ (val(k) = -1 => allabs(k))
                       lo(k) == CHOOSE y \in {x.lo : x \in ent(k)} : \A x \in ent(k) : y <= x.lo
                       hi(k) == CHOOSE y \in {x.hi : x \in ent(k)} : \A x \in ent(k) : y >= x.hi
                       a == Must(o2, p.rec = "open", {"C02"}, "end marker without start")
                       b == Must(a, e.s = p.rs /\ e.c = p.rd, {"C02"}, "end marker does not match its record")
                       c == Must(b, \A k \in keys : there(k), {"C02"}, "a node with a value is missing from the record")
                   IN IF \A k \in keys : there(k)
                      THEN Must(c, \A k, m \in keys : lo(k) < hi(m), {"C02"}, "values of different instants in one record")
                      ELSE c
              [] OTHER -> Bad(o2, {"C02"}, "undecodable element written")
      st == ev.st
      stored == [k |-> st.k, s |-> st.s, key |-> st.key, v |-> st.v, c |-> st.c, l |-> st.l,
                 f |-> IF st.k = "S" THEN 1 ELSE 0, w |-> IF o.infl.t = "p" THEN o.pos - e.l ELSE o.pos]
      \* storage that alters what it is given may store something else as well
      ex == [i \in 1..Len(ev.ex) |-> [k |-> ev.ex[i].k, s |-> ev.ex[i].s, key |-> ev.ex[i].key, v |-> ev.ex[i].v, c |-> ev.ex[i].c,
                                      l |-> ev.ex[i].l, f |-> stored.f, w |-> stored.w]]
      fl == IF ev.sto = 1 THEN Append(o.flash, stored) \o ex ELSE o.flash
      p2 == [p EXCEPT !.mut = @ + 1, !.wb = @ + e.l,
                      !.rec = CASE e.k = "S" -> "open" [] e.k = "E" -> "done" [] OTHER -> @,
                      !.rs = IF e.k = "S" THEN e.s ELSE @,
                      !.rd = CASE e.k = "S" -> <<>> [] e.k = "D" -> Append(@, <<e.key, e.v>>) [] OTHER -> @,
                      !.si = IF e.k = "S" /\ ev.sto = 1 THEN Len(fl) ELSE @]
      o4 == [o3 EXCEPT !.op = p2, !.flash = fl, !.pos = IF o.infl.t = "p" THEN @ ELSE @ + e.l, !.infl.t = "",
                       !.recs = IF e.k = "E" \/ o.recs = <<>> THEN Recs(fl) ELSE @]
  IN Durable(o4)

\* is the element at index i part of a record that has to stay?
Protected(o, i) ==
  \E r \in RECSET(o.recs) : r.a <= i /\ i <= r.b /\ r.f = 0
      /\ Cardinality({q \in RECSET(o.recs) : q # r /\ q.f # 1 /\ q.s >= r.s}) < o.k

InvOk(o, i) ==
  LET inG == o.op.on = "G" /\ o.op.lst = 1
      o1 == Must(o, inG, {"C08"}, "invalidation outside a collection")
      o2 == Must(o1, ~inG \/ o.op.gc # "n", {"C08"}, "invalidation although no collection is due")
  IN Must(o2, ~Protected(o, i), {"C04"}, "element of one of the newest K records invalidated")

DropElem(o, i) ==
  LET fl == Without(o.flash, i) IN
  Durable([o EXCEPT !.flash = fl, !.recs = Recs(fl)])

EvInv(o, ev) ==
  IF ev.i < 1 \/ ev.i > Len(o.flash) THEN Bad(o, {"C16"}, "an element was invalidated that is not stored") ELSE
  LET o1 == IF o.infl.t = "i" THEN o ELSE InvOk(o, ev.i)
      o2 == [o1 EXCEPT !.op.mut = @ + 1, !.op.gb = @ + o.flash[ev.i].l, !.infl.t = ""]
  IN DropElem(o2, ev.i)

EvRd(o, ev) ==
  LET o1 == [o EXCEPT !.op.rb = @ + ev.b, !.op.rn = @ + ev.n, !.op.pb = IF ev.it = 1 THEN ev.bl ELSE @ + ev.b]
  IN Must(o1, ev.m = 0, {"C16"}, "stored items presented differently")

EvFlt(o, ev) ==
  IF ev.w = "none" THEN Bad(o, {"C15", "C17"}, "storage backend failed without a cause")
  ELSE [o EXCEPT !.op.flt = @ \cup {ev.w}]

EvFull(o, ev) ==
  LET S == RECSET(o.recs)
      keep == {r \in S : Cardinality({q \in S : q.s > r.s}) < o.k}
      from == IF keep = {} THEN (IF o.op.si > 0 /\ o.op.si <= Len(o.flash) THEN o.flash[o.op.si].w ELSE o.pos)
              ELSE CHOOSE x \in {r.w : r \in keep} : \A r \in keep : x <= r.w
      span == o.pos - from
      eff == ev.page - 24 - Maxi(ev.need, MaxLen(o.flash))
      pages == ev.cap \div ev.page
  IN Must(o, ~Room(span, pages, eff), {"C18"}, "out of space although there is room")

\* After an operation or a power cycle the backend shows what is stored: exactly the expected elements, but
\* the one being appended or invalidated may be there or not.
Adopt(o, fl, lab) ==
  LET el == o.infl.el
      plus == IF o.infl.t = "p"
              THEN Append(o.flash, [k |-> el.k, s |-> el.s, key |-> el.key, v |-> el.v, c |-> el.c, l |-> el.l,
                                    f |-> IF el.k = "S" THEN 1 ELSE 0, w |-> o.pos - el.l])
              ELSE o.flash
  IN IF Same(fl, o.flash) THEN [o EXCEPT !.infl.t = ""]
     ELSE IF o.infl.t = "p" /\ Same(fl, plus)
          THEN [o EXCEPT !.infl.t = "", !.flash = plus, !.recs = Recs(plus)]
     ELSE IF o.infl.t = "i" /\ o.infl.i <= Len(o.flash) /\ Same(fl, Without(o.flash, o.infl.i))
          THEN DropElem([o EXCEPT !.infl.t = ""], o.infl.i)
     ELSE LET p == Place(fl)
              o1 == [o EXCEPT !.infl.t = "", !.flash = p.out, !.recs = Recs(p.out)]
          IN Durable(Must(o1, FALSE, lab, "stored elements changed by themselves"))

\* common to the end of every operation
Off(o) == [o EXCEPT !.op = Op0, !.t = 0,
                    !.nd = [n \in ND(o) |-> [o.nd[n] EXCEPT !.hist = {}]]]

\* debris and unacknowledged records after a failure whose traces the list may forget
Forget(o) == [o EXCEPT !.flash = [i \in 1..Len(o.flash) |-> IF o.flash[i].f = 1 THEN [o.flash[i] EXCEPT !.f = 2] ELSE o.flash[i]],
                       !.recs = [i \in 1..Len(o.recs) |-> IF o.recs[i].f = 1 THEN [o.recs[i] EXCEPT !.f = 2] ELSE o.recs[i]]]
AllGood(o) ==
  LET fl == [i \in 1..Len(o.flash) |-> IF o.flash[i].f # 0 THEN [o.flash[i] EXCEPT !.f = 0] ELSE o.flash[i]]
  IN [o EXCEPT !.flash = fl, !.recs = Recs(fl)]

Join(a, b) == IF a = b THEN a ELSE "m"

ReadDone(o, lst) ==
  LET cands == IF lst = 1 THEN Cands(o.recs) ELSE {}
      nds == [n \in ND(o) |->
        LET d == o.nd[n] IN
        IF d.lst # lst \/ d.lk = "n" \/ II \notin d.poss THEN d
        ELSE [d EXCEPT !.poss = (@ \ {II}) \cup Hydrate(d, cands) \cup (IF d.lk = "m" \/ d.det # 0 THEN {II} ELSE {})]]
  IN [o EXCEPT !.nd = nds]
ReadPart(o) ==
  LET cands == Cands(o.recs)
      nds == [n \in ND(o) |->
        LET d == o.nd[n] IN
        IF d.lst # 1 \/ d.lk = "n" \/ II \notin d.poss THEN d
        ELSE [d EXCEPT !.poss = @ \cup HydratePart(d, cands)]]
  IN [o EXCEPT !.nd = nds]

EndR(oo, ev) ==
  LET p == oo.op
      \* a scan of everything finds every valid record
      o == IF ev.res = "ok" /\ p.sc = "n" THEN AllGood(oo) ELSE oo
      fgc == IF o.flash = <<>> THEN "n" ELSE "y"
      curs == {r.n : r \in Cands(o.recs)}
  IN CASE ev.res = "ok" ->
       LET o1 == ReadDone(o, 1)
           o2 == [o1 EXCEPT !.sc = "y",
                            !.gc = CASE p.sc = "y" -> @ [] p.sc = "n" -> fgc [] OTHER -> Join(@, fgc)]
           o3 == Must(o2, ev.c1 = p.rb, {"C24"}, "bytes read by a read")
           o4 == Must(o3, ev.c2 \in curs, {"C24"}, "bytes of current data")
       IN o4
     [] OTHER ->
       LET o1 == ReadPart(o)
           o2 == [o1 EXCEPT !.sc = IF @ = "n" THEN "m" ELSE @, !.gc = IF p.sc = "y" THEN @ ELSE Join(@, fgc)]
           o3 == Must(o2, ev.res \in {"fr", "inc"} /\ p.flt \cap {"read", "silent"} # {},
                           {"C15", "C03"} \cup (IF Remains(o) THEN {"C02"} ELSE {})
                             \cup (IF \E n \in May(o, 1) : Foreign(o.recs, o.nd[n]) THEN {"C25"} ELSE {}), "read failed without a cause: " \o ev.res)
       IN o3

\* effects of a write-back that did not succeed
WFail(o) == [o EXCEPT !.gc = IF o.op.mut > 0 THEN "y" ELSE IF o.op.flt # {} \/ o.op.on = "C" THEN (IF @ = "y" THEN "y" ELSE "m") ELSE @]

EndW(o, ev) ==
  LET p == o.op
      nodes == On(o, 1)
  IN
  CASE ev.res = "ok" ->
       LET wrote == p.mut > 0
           fl == IF p.si = 0 THEN o.flash ELSE [o.flash EXCEPT ![p.si].f = 0]
           o0 == [o EXCEPT !.flash = fl, !.recs = IF p.si = 0 THEN @ ELSE Recs(fl)]
           good == {r \in RECSET(o0.recs) : r.f = 0}
           new == NewestOf(good)
           data == IF new = {} THEN <<>> ELSE (CHOOSE r \in new : TRUE).d
           o1 == Must(o0, p.sc # "n" /\ p.gc # "y" /\ ~p.ini, {"C09"}, "write-back accepted although it has to be refused")
           o2 == Must(o1, new # {}, {"C07"}, "no valid record after a successful write-back")
           o3 == Must(o2, ~wrote \/ (p.rec = "done" /\ \E r \in new : r.s = p.rs /\ r.d = p.rd), {"C07", "C15"},
                      "successful write-back left no such valid record")
           persisted(d) == \E x \in d.poss : x[1] = "V" /\ FirstVal(data, d.key) = x[2]
           o4 == Must(o3, \A n \in nodes : LET d == o.nd[n] IN
                            (d.det = 0 /\ ~d.ov /\ \A x \in d.poss : x[1] = "V" /\ x[3] = 1) => persisted(d),
                      {"C07"} \cup (IF \E n \in nodes : o.nd[n].ab # {} /\ ~persisted(o.nd[n]) THEN {"C11"} ELSE {})
                        \cup (IF \E n \in nodes : Foreign(o.recs, o.nd[n]) /\ ~persisted(o.nd[n]) THEN {"C25"} ELSE {}), "pending value not in the newest record after a successful write-back")
           np(d) == LET r == FirstVal(data, d.key)
                        vs == {x \in d.poss : x[1] = "V"}
                    IN (d.poss \ vs)
                       \cup (IF wrote
                             THEN {VV(x[2], IF x[2] = r THEN 0 ELSE 1) : x \in vs}
                                  \cup (IF d.ov THEN {VV(x[2], 1) : x \in vs} ELSE {})
                             ELSE IF d.ov THEN vs
                             ELSE LET z == {x \in vs : x[3] = 0} IN IF z = {} THEN vs ELSE z)
           o5 == [o4 EXCEPT !.nd = [n \in ND(o) |->
                              LET d == o.nd[n] IN
                              IF d.lst # 1 \/ d.lk = "n" THEN d ELSE [d EXCEPT !.poss = np(d), !.ab = {}]],
                            !.acked = IF new = {} THEN @ ELSE LET r == CHOOSE r \in new : TRUE IN [s |-> r.s, d |-> r.d],
                            !.gc = IF wrote THEN "y" ELSE IF @ = "m" THEN "n" ELSE @,
                            !.sc = "y"]
           o6 == Must(o5, ev.c1 = p.rb /\ ev.c2 = p.wb, {"C24"}, "byte counts of a write-back")
       IN o6
    [] ev.res = "nfr" ->
       LET o1 == Must(o, p.sc # "y" \/ p.maini, {"C09"}, "refused as needing a read without reason")
       IN Must(o1, p.mut = 0, {"C08", "C09"}, "refused write-back changed the flash")
    [] ev.res = "ngc" ->
       LET o1 == Must(o, p.sc # "n" /\ p.gc # "n", {"C09"}, "refused as needing a collection without reason")
       IN Must(o1, p.mut = 0, {"C08", "C09"}, "refused write-back changed the flash")
    [] OTHER ->
       LET big == p.small = 1 \/ \E n \in May(o, 1) : \E x \in o.nd[n].poss : x[1] = "V" /\ x[2] >= BIG /\ x[2] < TYB
           just == CASE ev.res = "fw" -> "push" \in p.flt
                     [] ev.res = "fr" -> "read" \in p.flt
                     [] ev.res = "ser" -> big
                     [] ev.res \in {"wvf", "inc"} -> p.flt \cap {"silent", "read"} # {}
                     [] OTHER -> FALSE
           o1 == Must(o, just, {"C15"}, "write-back failed without a cause: " \o ev.res)
       IN WFail(o1)

EndG(o, ev) ==
  LET p == o.op
      S == RECSET(o.recs)
  IN
  CASE ev.res = "ok" ->
       LET real == p.rn > 0
           due == p.sc = "y" /\ p.gc = "y"
           o1 == Must(o, ~due \/ (/\ \A i \in 1..Len(o.flash) : \E r \in S : r.a <= i /\ i <= r.b
                                  /\ Cardinality(S) <= o.k),
                      {"C05", "C18"}, "collection left something it should remove")
           o2 == Must(o1, ~due \/ Cardinality(S) >= Mini(o.k, p.nv), {"C05", "C04"}, "collection removed too many records")
           o3 == [(IF real THEN AllGood(o2) ELSE o2) EXCEPT !.gc = "n", !.sc = IF real THEN "y" ELSE @]
           o4 == Must(o3, IF real THEN ev.c1 = p.rb /\ ev.c3 = p.gb /\ ev.c2 = SumLen(o.flash) /\ ev.c2 = p.pb
                          ELSE ev.c1 = 0 /\ ev.c2 = 0 /\ ev.c3 = 0, {"C24"}, "byte counts of a collection")
       IN o4
    [] OTHER ->
       LET just == CASE ev.res = "fr" -> "read" \in p.flt
                     [] ev.res = "fw" -> "inv" \in p.flt \/ "push" \in p.flt
                     [] OTHER -> FALSE
           o1 == Must(o, just, {"C15"}, "collection failed without a cause: " \o ev.res)
       IN IF p.gc = "n" THEN o1 ELSE Forget([o1 EXCEPT !.sc = "m", !.gc = "m"])

ResetDone(o) == AllGood([o EXCEPT !.sc = "n", !.gc = "n", !.rst = TRUE, !.dirty = FALSE])

EvOpr(o, ev) ==
  IF ev.lst # 1 THEN
    LET o1 == IF ev.op \in {"R", "G", "X"} THEN Must(o, ev.res = "ok", {"C15", "C22"}, "failure on empty storage") ELSE o
        o2 == IF ev.op = "R" /\ ev.res = "ok" THEN ReadDone(o1, 2) ELSE o1
    IN Off(o2)
  ELSE Off(CASE ev.op = "R" -> EndR(o, ev)
             [] ev.op = "W" -> EndW(o, ev)
             [] ev.op = "G" -> EndG(o, ev)
             [] OTHER       -> ResetDone(o))

EvOpc(o, ev) ==
  LET c == [o EXCEPT !.cxl = TRUE] IN
  IF ev.lst # 1 THEN Off(c) ELSE
  Off(CASE ev.op = "R" ->
             LET o1 == ReadPart(c) IN
             [o1 EXCEPT !.sc = IF @ = "n" THEN "m" ELSE @,
                        !.gc = IF o.op.sc = "y" THEN @ ELSE Join(@, IF o.flash = <<>> THEN "n" ELSE "y")]
        [] ev.op = "W" -> [c EXCEPT !.gc = IF o.op.mut > 0 THEN "y" ELSE IF @ = "y" THEN "y" ELSE "m"]
        [] ev.op = "G" -> IF o.op.gc = "n" THEN c ELSE Forget([c EXCEPT !.sc = "m", !.gc = "m"])
        [] OTHER -> [c EXCEPT !.sc = "m", !.gc = "m", !.rst = TRUE])

EvBoot(o, ev) ==
  IF ev.env = 1 THEN Fresh(ev)
  ELSE LET o1 == AllGood(Adopt(o, ev.flash, {"C17"}))
           f == Fresh(ev)
       IN [f EXCEPT !.flash = o1.flash, !.pos = o1.pos, !.recs = o1.recs, !.acked = o1.acked,
                    !.bad = o1.bad, !.why = o1.why]

EvEnv(o, ev) ==
  LET p == Place(ev.flash) IN
  [o EXCEPT !.flash = p.out, !.pos = p.n, !.recs = Recs(p.out), !.acked = [s |-> -1, d |-> <<>>], !.dirty = TRUE]

\* nothing runs and nothing can run
EvQ(o, ev) ==
  LET wait == {ev.wait[i] : i \in 1..Len(ev.wait)}
      o0 == [o EXCEPT !.nd = [n \in ND(o) |->
               IF n \in wait /\ o.nd[n].at # 0 THEN [o.nd[n] EXCEPT !.lk = "y", !.lst = o.nd[n].alst, !.plk = "n"] ELSE o.nd[n]]]
      o1 == Must(o0, \A n \in wait : II \in o0.nd[n].poss, {"C10"}, "an attach still waits although it was served")
      o2 == Must(o1, ev.wrw = <<>> /\ ev.dtw = <<>>, {"C10", "C14"}, "a node write or detach is blocked")
      o3 == Must(o2, ev.ron = 0 \/ o.needR \cap wait = {}, {"C10"}, "needs-read signal lost")
      wdone == {n \in o.needW : o.nd[n].wv = -1}
      o4 == Must(o3, ev.won = 0 \/ wdone = {}, {"C10"}, "needs-write signal lost")
      sure == {n \in ND(o) : \A x \in o.nd[n].poss : x[1] = "V"}
      may  == {n \in ND(o) : \E x \in o.nd[n].poss : x[1] = "V"}
      infl == Len(ev.wrw)
      o5 == Must(o4, ev.live >= Cardinality(sure) + infl /\ ev.live <= Cardinality(may) + infl, {"C13"}, "values leaked or dropped twice")
  IN [o5 EXCEPT !.needW = IF ev.won = 1 THEN {} ELSE @]

Step(o, ev) ==
  CASE ev.e = "boot" -> EvBoot(o, ev)
    [] ev.e = "q"    -> [EvQ(o, ev) EXCEPT !.hold = (ev.held = 1)]
    [] ev.e = "hold" -> [o EXCEPT !.hold = TRUE]
    [] ev.e = "rd"   -> EvRd(o, ev)
    [] ev.e = "psh"  -> EvPsh(o, ev)
    [] ev.e = "inv"  -> EvInv(o, ev)
    [] ev.e = "op"   -> Spread(EvOp(o, ev))
    [] ev.e = "opr"  -> EvOpr(o, ev)
    [] ev.e = "opc"  -> EvOpc(o, ev)
    [] ev.e = "att"  -> Spread(EvAtt(o, ev))
    [] ev.e = "attr" -> Spread(EvAttr(o, ev))
    [] ev.e = "attc" -> Spread(EvAttc(o, ev))
    [] ev.e = "hd"   -> Spread([o EXCEPT !.nd[ev.n].h = 0])
    [] ev.e = "det"  -> Spread(EvDet(o, ev))
    [] ev.e = "detr" -> Spread(EvDetr(o, ev))
    [] ev.e = "detc" -> Spread(EvDetc(o, ev))
    [] ev.e = "wr"   -> EvWr(o, ev)
    [] ev.e = "wrr"  -> EvWrr(o, ev)
    [] ev.e = "wrc"  -> EvWrc(o, ev)
    [] ev.e = "ld"   -> EvLd(o, ev)
    [] ev.e = "wkr"  -> [o EXCEPT !.needR = {}]
    [] ev.e = "wkw"  -> [o EXCEPT !.needW = {}]
    [] ev.e = "wof"  -> o
    [] ev.e = "flt"  -> EvFlt(o, ev)
    [] ev.e = "pst"  -> [o EXCEPT !.infl = [t |-> "p", el |-> ev.el, i |-> 0], !.pos = @ + ev.el.l]
    [] ev.e = "ist"  -> [InvOk(o, ev.i) EXCEPT !.infl = [t |-> "i", el |-> <<>>, i |-> ev.i]]
    [] ev.e = "io"   -> Must(Must(o, ev.kept = 1, {"C17", "C01", "C16"}, "storing or removing an element disturbed others"),
                             ev.ok = 1, {"C16"}, "stored bytes or reported length wrong")
    [] ev.e = "ioi"  -> Must(o, ev.ok = 1, {"C17", "C01", "C16", "C18", "C05"}, "removing an element left it or disturbed others")
    [] ev.e = "full" -> EvFull(o, ev)
    [] ev.e = "sync" -> Adopt(o, ev.flash, {"C17", "C16"})
    [] ev.e = "env"  -> EvEnv(o, ev)
    [] ev.e = "crash" -> o
    [] ev.e = "ph"   -> [o EXCEPT !.bad = ALLP, !.why = IF @ = "" THEN ev.why ELSE @]
    [] OTHER         -> Bad(o, ALLP, "unknown event")
=============================================================================
