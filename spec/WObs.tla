-------------------------------- MODULE WObs --------------------------------
(***************************************************************************)
(* What every history of the worker tasks has to look like from outside    *)
(* (properties C19..C22).  WStep(w, ev) follows the history of a list that *)
(* is served by the default worker: who waits for what since when, what    *)
(* the storage holds, and which storage activity the requests made so far  *)
(* explain.  Time is virtual, in milliseconds.  "Eventually" is judged by  *)
(* deadlines well above what the debounce times and the order of the       *)
(* requests explain.                                                       *)
(***************************************************************************)
EXTENDS Observer

WALL == {"C19", "C20", "C21", "C22"}
RD == 100          \* debounce of reads
WD == 10000        \* debounce of writes
GD == 120000       \* delay of the first collection
\* deadlines for what has to happen eventually
RDL == 3 * RD
WDL == WD + 2000
GDL == GD + 15000
FAR == 1000000000

WNode(nd) == [key |-> nd.key, ty |-> nd.ty, lk |-> FALSE, h |-> FALSE, c |-> 0, ct |-> 0,
              v |-> -1, wv |-> -1, sv |-> -1, acc |-> {}]

WNIL == [k |-> 0, i |-> 0, t |-> 0, flash |-> <<>>, recs |-> <<>>, infl |-> [t |-> "", el |-> <<>>, i |-> 0], nd |-> <<>>,
         mode |-> "", run |-> FALSE, stopped |-> FALSE, stopi |-> 0,
         busy |-> FALSE, clear |-> 0, rA |-> FALSE, wA |-> FALSE, gA |-> FALSE, newR |-> FALSE, newW |-> FALSE, cr |-> -FAR, cw |-> -FAR, bt |-> 0, be |-> -FAR, ract |-> FALSE,
         \* a request for a read or a write-back may be waiting for a worker
         rp |-> FALSE, rq |-> -FAR, rqi |-> 0, rq0 |-> -FAR,
         wp |-> FALSE, wq |-> -FAR, wqi |-> 0, wq0 |-> -FAR,
         gp |-> FALSE, gq |-> 0, gdue |-> FALSE, gt |-> 0, gmay |-> FALSE, bf |-> FALSE,
         \* since when the first collection is to come, the end of the last operation that took time, and whether all was clean then
         fg |-> 0, lb |-> 0, gone |-> FALSE,
         flti |-> 0, ever |-> FALSE, bad |-> {}, why |-> ""]

WBad(w, labs, why) == [w EXCEPT !.bad = @ \cup labs, !.why = IF @ = "" THEN why ELSE @]
WMust(w, c, labs, why) == IF c THEN w ELSE WBad(w, labs, why)
WN(w) == 1..Len(w.nd)

WBoot(w, ev) ==
  LET p == Place(ev.flash) IN
  [WNIL EXCEPT !.k = ev.k, !.i = w.i, !.t = w.t, !.flash = p.out, !.recs = Recs(p.out),
               !.nd = [n \in 1..Len(ev.nodes) |-> WNode(ev.nodes[n])],
               !.mode = w.mode, !.flti = IF ev.env = 1 THEN 0 ELSE w.i,
               !.bad = w.bad, !.why = w.why]

\* requests of old can no longer be relied upon
Forgotten(w) == [w EXCEPT !.flti = w.i, !.gdue = FALSE]

----------------------------------------------------------------------------
(* Storage activity: each needs a reason                                   *)
\* a request in the very moment in which the waiting time is over may come too late to extend it
OkR(w) == w.rp /\ (w.t - w.rq >= RD \/ (w.rq = w.t /\ w.t - w.rq0 >= RD))
OkW(w) == w.wp /\ (w.t - w.wq >= WD \/ (w.wq = w.t /\ w.t - w.wq0 >= WD))
OkG(w) == w.gp /\ w.t - w.gq >= GD

Active(w) ==
  LET o0 == IF w.busy THEN w
            \* it only waited for the lock of the list
            ELSE IF w.be = w.t THEN [w EXCEPT !.busy = TRUE]
            ELSE [w EXCEPT !.busy = TRUE, !.bt = w.t, !.rA = FALSE, !.wA = FALSE, !.gA = FALSE,
                                            !.newR = w.cr = w.t, !.newW = w.cw = w.t, !.ract = FALSE, !.bf = FALSE]
      o1 == [o0 EXCEPT !.rA = @ \/ OkR(w), !.wA = @ \/ OkW(w), !.gA = @ \/ OkG(w)]
      o2 == WMust(o1, w.run, {"C21"}, "storage accessed although no worker runs")
  IN WMust(o2, o1.rA \/ o1.wA \/ o1.gA \/ w.stopped, {"C21"}, "storage accessed too early or without a request")

WPsh(w, ev) ==
  LET a == Active(w)
      b == WMust(a, a.wA \/ w.stopped, {"C21"}, "write-back too early or without a request")
      e == ev.st
      stored == [k |-> e.k, s |-> e.s, key |-> e.key, v |-> e.v, c |-> e.c, l |-> e.l, f |-> 0, w |-> 0]
      ex == [i \in 1..Len(ev.ex) |-> [stored EXCEPT !.k = ev.ex[i].k, !.s = ev.ex[i].s, !.key = ev.ex[i].key, !.v = ev.ex[i].v, !.c = ev.ex[i].c, !.l = ev.ex[i].l]]
      fl == IF ev.sto = 1 THEN Append(w.flash, stored) \o ex ELSE w.flash
  IN [b EXCEPT !.flash = fl, !.infl.t = "", !.recs = IF e.k = "E" \/ w.recs = <<>> THEN Recs(fl) ELSE @]

WInv(w, ev) ==
  LET a == Active(w)
      b == WMust(a, a.wA \/ a.gA \/ w.stopped, {"C21"}, "collection too early or without a request")
  IN IF ev.i < 1 \/ ev.i > Len(w.flash) THEN b
     ELSE LET fl == Without(w.flash, ev.i) IN [b EXCEPT !.flash = fl, !.recs = Recs(fl), !.infl.t = ""]

\* the storage shows what it holds: after an error on a real flash the last element may be there or not
WSync(w, fl) == LET p == Place(fl) IN [w EXCEPT !.flash = p.out, !.recs = Recs(p.out), !.infl.t = ""]

Newest(w) == LET s == NewestOf(RECSET(w.recs)) IN IF s = {} THEN NOREC ELSE CHOOSE r \in s : TRUE
Kept(w) == {r \in RECSET(w.recs) : Cardinality({q \in RECSET(w.recs) : q.s > r.s}) < w.k}
Clean(w) == /\ \A i \in 1..Len(w.flash) : \E r \in Kept(w) : r.a <= i /\ i <= r.b

WIdle(w) ==
  LET only == IF w.wA THEN (IF w.rA \/ w.gA THEN "" ELSE "w") ELSE IF w.rA THEN (IF w.gA THEN "" ELSE "r") ELSE "g"
      rd == w.rA \/ w.wA
  IN IF ~w.busy THEN [w EXCEPT !.clear = w.t]
     ELSE [w EXCEPT !.busy = FALSE, !.clear = w.t, !.be = w.t,
                    !.rp = IF only = "r" /\ ~w.newR THEN FALSE ELSE @,
                    !.wp = IF only = "w" /\ ~w.newW THEN FALSE ELSE @,
                    !.gp = IF only = "g" THEN FALSE ELSE IF rd THEN TRUE ELSE @,
                    !.gq = IF rd /\ ~w.gp THEN w.bt ELSE @,
                    \* the first collection may have succeeded, unless it is all that was done and there was an error
                    !.gmay = @ \/ (w.gA /\ ~(only = "g" /\ w.bf)),
                    !.fg = IF w.gdue THEN @ ELSE w.t, !.lb = IF w.t > w.bt THEN w.t ELSE @, !.gone = @ \/ (w.gA /\ Clean(w)),
                    !.gdue = TRUE, !.gt = w.t]

----------------------------------------------------------------------------
(* Requests                                                                *)

\* an attach took effect: it is a request for a read from its call on
Counted(w, n) == [w EXCEPT !.rq = Maxi(@, w.nd[n].ct), !.rqi = w.i, !.rq0 = IF w.nd[n].ct > w.rq THEN w.rq ELSE @]

WAtt(w, ev) ==
  IF ev.lst # 1 THEN w
  ELSE [w EXCEPT !.nd[ev.n].c = ev.c, !.nd[ev.n].ct = w.t, !.rp = TRUE, !.newR = TRUE, !.cr = w.t]
WAttr(w, ev) ==
  IF ev.c # w.nd[ev.n].c THEN w
  ELSE IF ev.res # "ok" THEN [w EXCEPT !.nd[ev.n].c = 0]
  ELSE Counted([w EXCEPT !.nd[ev.n].c = 0, !.nd[ev.n].h = TRUE, !.nd[ev.n].lk = TRUE], ev.n)
WDetr(w, ev) ==
  IF ev.res # "ok" THEN w
  ELSE [w EXCEPT !.nd[ev.n].lk = FALSE, !.nd[ev.n].v = -1, !.nd[ev.n].sv = -1, !.nd[ev.n].acc = {}]
WWr(w, ev) == [w EXCEPT !.nd[ev.n].wv = ev.v, !.nd[ev.n].acc = @ \cup {ev.v}, !.wp = TRUE, !.newW = TRUE, !.cw = w.t]
WWrr(w, ev) ==
  IF ev.res # "ok" THEN [w EXCEPT !.nd[ev.n].wv = -1]
  ELSE [w EXCEPT !.nd[ev.n].v = w.nd[ev.n].wv, !.nd[ev.n].wv = -1, !.wq = w.t, !.wqi = w.i, !.wq0 = IF w.wq = w.t THEN @ ELSE w.wq]

----------------------------------------------------------------------------
(* Deadlines                                                               *)

Persisted(w) == \A n \in WN(w) : (w.nd[n].lk /\ w.nd[n].v # -1) => FirstVal(Newest(w).d, w.nd[n].key) \in {w.nd[n].v, w.nd[n].wv}

\* nothing runs: everything that is overdue?
WQ(w, ev) ==
  LET wait == {ev.wait[i] : i \in 1..Len(ev.wait)}
      \* attaches seen waiting are linked: they are requests
      ws == {n \in wait : w.nd[n].c # 0}
      o1 == IF ws = {} THEN w
            ELSE LET m == CHOOSE m \in ws : \A n \in ws : w.nd[n].ct <= w.nd[m].ct
                 IN IF w.nd[m].ct > w.rq THEN Counted(w, m) ELSE w
      live == w.run /\ ~w.stopped /\ ~w.busy
      o2 == WMust(o1, ~live \/ ws = {} \/ o1.flti > o1.rqi \/ w.t <= Maxi(o1.rq, w.clear) + RDL, {"C19"}, "an attach is not served")
      o3 == WMust(o2, ~live \/ w.flti > w.wqi \/ w.t <= Maxi(w.wq, w.clear) + WDL \/ Persisted(w), {"C19"}, "a node write is not stored")
      \* after an error the next write-back collects, and the next read is followed by the first collection if that
      \* has not happened yet
      again == w.wqi > w.flti \/ (o1.rqi > w.flti /\ ~w.gmay)
      o4 == WMust(o3, ~live \/ ~w.gdue \/ (w.flti > 0 /\ ~again) \/ w.t <= Maxi(Maxi(w.wq, w.gt), Maxi(o1.rq, w.clear)) + GDL \/ Clean(w), {"C19"},
                  "old records or remains are not collected")
      \* later requests do not put off the first collection
      o6 == WMust(o4, ~live \/ ~w.gdue \/ w.flti > 0 \/ w.gone \/ w.t <= Maxi(w.fg, w.lb) + GDL \/ Clean(w), {"C19"},
                  "old records or remains are not collected: the first collection is put off")
      o5 == WMust(o6, ~(w.run /\ w.stopped), {"C20"}, "the worker did not return after it was stopped")
      \* a read for which everything is known already is not to be seen, but it is followed by the first collection as well
      rt == Maxi(w.rq, w.clear) + RD
      o7 == IF live /\ ~w.gp /\ w.rp /\ rt <= w.t THEN [o5 EXCEPT !.gp = TRUE, !.gq = rt] ELSE o5
  \* a collection that is not needed is not to be seen
  IN [o7 EXCEPT !.gmay = @ \/ (live /\ OkG(w)), !.gone = @ \/ (live /\ OkG(w) /\ Clean(w))]

WStop(w) == [w EXCEPT !.stopped = TRUE, !.stopi = w.i,
                      !.nd = [n \in WN(w) |-> LET d == w.nd[n] IN
                                [d EXCEPT !.sv = IF d.lk THEN d.v ELSE -1, !.acc = {d.v} \cup (IF d.wv = -1 THEN {} ELSE {d.wv})]]]
WRet(w) ==
  LET lost == {n \in WN(w) : w.nd[n].lk /\ w.nd[n].sv # -1 /\ FirstVal(Newest(w).d, w.nd[n].key) \notin w.nd[n].acc}
      o1 == WMust(w, w.stopped, {"C19", "C20"}, "the worker ended although it was not stopped")
      o2 == WMust(o1, ~w.stopped \/ w.flti > w.stopi \/ lost = {}, {"C20"}, "a node write was not stored when the worker was stopped")
  IN Forgotten([o2 EXCEPT !.run = FALSE, !.stopped = FALSE, !.busy = FALSE, !.rp = TRUE, !.wp = TRUE, !.gp = FALSE])

WStep(w0, ev) ==
  LET w == [w0 EXCEPT !.i = @ + 1] IN
  CASE ev.e = "boot" -> WBoot(w, ev)
    [] ev.e = "q"    -> WQ(w, ev)
    [] ev.e = "tm"   -> [w EXCEPT !.t = ev.t]
    [] ev.e = "wk"   -> [w EXCEPT !.mode = IF ev.noop = 1 THEN "n" ELSE "d", !.run = TRUE, !.stopped = FALSE, !.busy = FALSE,
                                  !.clear = w.t, !.gp = FALSE, !.gdue = FALSE, !.gmay = FALSE, !.gone = FALSE]
    [] ev.e = "rd"   -> [Active(w) EXCEPT !.ract = TRUE]
    [] ev.e = "psh"  -> WPsh(w, ev)
    [] ev.e = "inv"  -> WInv(w, ev)
    [] ev.e \in {"pst", "ist"} -> Active(w)
    [] ev.e = "flt"  -> [Active(w) EXCEPT !.flti = w.i, !.bf = TRUE]
    [] ev.e = "full" -> [Active(w) EXCEPT !.flti = w.i, !.bf = TRUE]
    [] ev.e = "sync" -> WSync(w, ev.flash)
    [] ev.e = "wb"   -> IF w.busy THEN w ELSE [w EXCEPT !.busy = TRUE, !.bt = w.t, !.rA = OkR(w), !.wA = OkW(w), !.gA = OkG(w), !.newR = w.cr = w.t, !.newW = w.cw = w.t, !.ract = FALSE, !.bf = FALSE]
    [] ev.e = "wi"   -> WIdle(w)
    [] ev.e = "stop" -> WStop(w)
    [] ev.e = "ret"  -> WRet(w)
    [] ev.e = "kill" -> Forgotten([w EXCEPT !.run = FALSE, !.stopped = FALSE, !.busy = FALSE, !.rp = TRUE, !.wp = TRUE])
    [] ev.e = "att"  -> WAtt(w, ev)
    [] ev.e = "attr" -> WAttr(w, ev)
    [] ev.e = "attc" -> IF ev.c = w.nd[ev.n].c THEN [w EXCEPT !.nd[ev.n].c = 0] ELSE w
    [] ev.e = "hd"   -> [w EXCEPT !.nd[ev.n].h = FALSE]
    [] ev.e = "detr" -> WDetr(w, ev)
    [] ev.e = "wr"   -> WWr(w, ev)
    [] ev.e = "wrr"  -> WWrr(w, ev)
    [] ev.e = "wrc"  -> [w EXCEPT !.nd[ev.n].wv = -1]
    [] ev.e = "env"  -> WBad(w, {}, "")
    [] ev.e = "ph"   -> [w EXCEPT !.bad = WALL, !.why = IF @ = "" THEN ev.why ELSE @]
    [] OTHER         -> w
=============================================================================
