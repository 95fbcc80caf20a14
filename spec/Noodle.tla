------------------------------- MODULE Noodle -------------------------------
(***************************************************************************)
(* Design model of cfg-noodle: one storage list with its nodes on one      *)
(* storage, following the structure of storage_list.rs/storage_node.rs.    *)
(*                                                                         *)
(* Every action also produces the observable events of the step and feeds  *)
(* them to Observer; the invariant Clean says that no behaviour of the     *)
(* design breaks a property.  The operations advance one storage access    *)
(* at a time, so that other calls, cancellation, storage errors and power  *)
(* loss can come in between.                                               *)
(*                                                                         *)
(* With SCRIPT = TRUE a behaviour also spells out the commands that make   *)
(* the test harness drive the real code through the same history.          *)
(*                                                                         *)
(* VARIANT # "none" reintroduces a defect that was found and repaired in   *)
(* the code, to show that the properties exclude it.                       *)
(***************************************************************************)
EXTENDS Store

CONSTANTS KEYS,       \* key of each node
          TYPES,      \* type of each node's value, see Conv
          INITS,      \* initial contents of the flash, see Init0
          MAXOPS, MAXATT, MAXWR, MAXDET, MAXHD, MAXFLT, MAXCXL, MAXCRASH, MAXRST, MAXHOLD,
          SCRIPT

VARIABLES
  fl,    \* content of the flash
  ss,    \* what the list remembers of it
  nd,    \* the nodes
  ord,   \* the linked nodes, front first
  lq,    \* calls waiting for the lock of the list, in order of arrival: <<call, node>>
  op,    \* the running storage operation
  bud,   \* what may still happen
  vc,    \* next fresh value
  dq,    \* something happened since the last quiescent point
  o,     \* the observer
  cmds, pp, \* commands for the harness; gate passes since the last one
  log    \* the events of the last step, with SCRIPT
vars == <<fl, ss, nd, ord, lq, op, bud, vc, dq, o, cmds, pp, log>>

NS == 1..Len(KEYS)
\* the value that node n makes of number v
Own(n, v) == CASE TYPES[n] = 0 -> v
               [] TYPES[n] = 1 -> 500000 + v
               [] TYPES[n] = 2 -> IF v % 2 = 1 THEN v ELSE 600000 + v
               [] TYPES[n] = 3 -> 800000 + v
               [] OTHER        -> IF v % 2 = 1 THEN 700000 + v ELSE 600000 + v

----------------------------------------------------------------------------
\* events
NodesJ == [n \in NS |-> [key |-> KEYS[n], ty |-> TYPES[n]]]
EvBootM(env, flash) == [e |-> "boot", k |-> K, env |-> env, nodes |-> NodesJ, flash |-> flash]
EvRdM(n, it) == [e |-> "rd", b |-> n, bl |-> n, n |-> n + it, m |-> 0, it |-> it]
EvOprM(x, res, c1, c2, c3) == [e |-> "opr", op |-> x, lst |-> 1, res |-> res, c1 |-> c1, c2 |-> c2, c3 |-> c3]
EvOpM(x) == [e |-> "op", op |-> x, lst |-> 1, small |-> 0]
EvFltM(w) == [e |-> "flt", w |-> w]
EvAttrM(n, c, res, v) == [e |-> "attr", n |-> n, c |-> c, res |-> res, v |-> v]

Emit(evs) == o' = FoldLeft(Step, o, evs) /\ log' = IF SCRIPT THEN evs ELSE <<>>

\* commands for the harness; passes: how often the operation has passed the gate since the last command
S0(x) == ToString(x)
Flush == IF pp = 0 THEN <<>> ELSE <<"step " \o S0(pp)>>
Say(c) == /\ cmds' = IF SCRIPT THEN Flush \o c ELSE <<>>
          /\ pp' = 0
Pass(k) == /\ pp' = IF SCRIPT THEN pp + k ELSE 0
           /\ cmds' = <<>>
PassF(pre, c, k) ==
  /\ cmds' = IF SCRIPT THEN (IF pp + pre = 0 THEN <<>> ELSE <<"step " \o S0(pp + pre)>>) \o c ELSE <<>>
  /\ pp' = IF SCRIPT THEN k ELSE 0

Idle == op.on = ""
Op00 == [on |-> "", pc |-> "", i |-> 0, items |-> <<>>, sv |-> New, b |-> 0, c |-> 0, p |-> 0, tgt |-> 0]
Locked == op.on \in {"R", "W"} \/ (op.on = "G" /\ op.pc = "scan")

Nd0 == [lk |-> 0, st |-> "I", v |-> 0, tk |-> 0, h |-> 0, at |-> "", def |-> 0, wr |-> -1, det |-> 0, hold |-> 0]

Init ==
  /\ \E i \in INITS : fl = Init0(i) /\ o = Step(NIL, EvBootM(1, Init0(i))) /\ cmds = <<"init " \o S0(i)>>
  /\ ss = New /\ nd = [n \in NS |-> Nd0] /\ ord = <<>> /\ lq = <<>> /\ op = Op00
  /\ bud = [ops |-> MAXOPS, att |-> MAXATT, wr |-> MAXWR, det |-> MAXDET, hd |-> MAXHD, flt |-> MAXFLT, cxl |-> MAXCXL,
            crash |-> MAXCRASH, rst |-> MAXRST, hold |-> MAXHOLD]
  /\ vc = 10 /\ dq = FALSE /\ pp = 0 /\ log = <<>>

----------------------------------------------------------------------------
(* Node calls                                                              *)

\* what an attach does once it holds the lock; result: "wait" or a refusal
Link(n) ==
  LET d == nd[n] IN
  IF d.tk = 1 THEN "taken"
  ELSE IF d.lk = 0 /\ \E m \in NS : nd[m].lk = 1 /\ KEYS[m] = KEYS[n] THEN "dup"
  ELSE "wait"
DoLink(n, d) ==
  /\ nd' = [nd EXCEPT ![n] = [d EXCEPT !.at = IF d.st = "I" THEN "wait" ELSE "woken", !.tk = 1, !.lk = 1]]
  /\ ord' = IF nd[n].lk = 1 THEN ord ELSE <<n>> \o ord

Turn(c, n) == ~Locked /\ lq # <<>> /\ Head(lq) = <<c, n>>
Queue(c, n) == lq' = Append(lq, <<c, n>>)
UAtt(n) == Turn("a", n)
UEnd(n) == nd[n].at = "woken" /\ nd[n].hold = 0 /\ (nd[n].st \in {"V", "W"} \/ (nd[n].st = "N" /\ ~Locked))
UWr(n)  == Turn("w", n)
UDet(n) == Turn("d", n)
Urgent == \E n \in NS : UAtt(n) \/ UEnd(n) \/ UWr(n) \/ UDet(n)

\* a task that is not polled although it could go on
Held == \E n \in NS : nd[n].hold = 1
Late == \E n \in NS : nd[n].hold = 1 /\ nd[n].at = "woken"
\* a new command may be given
Free == ~Urgent /\ (~Idle \/ ~dq \/ Late)

Att(n) ==
  /\ Free /\ bud.att > 0 /\ nd[n].at = "" /\ nd[n].h = 0 /\ nd[n].det = 0
  /\ bud' = [bud EXCEPT !.att = @ - 1] /\ vc' = vc + 1 /\ dq' = TRUE
  /\ Say(<<"att " \o S0(n - 1) \o " 1 " \o S0(vc)>>)
  /\ LET ev == [e |-> "att", n |-> n, c |-> 1, lst |-> 1, def |-> Own(n, vc)]
         d == [nd[n] EXCEPT !.def = Own(n, vc)]
     IN IF Locked THEN /\ nd' = [nd EXCEPT ![n] = [d EXCEPT !.at = "lock"]] /\ Queue("a", n) /\ Emit(<<ev>>) /\ UNCHANGED ord
        ELSE /\ UNCHANGED lq
             /\ IF Link(n) = "wait" THEN DoLink(n, d) /\ Emit(<<ev>>)
                ELSE Emit(<<ev, EvAttrM(n, 1, Link(n), -1)>>) /\ UNCHANGED <<nd, ord>>
  /\ UNCHANGED <<fl, ss, op>>

\* a second caller
Att2(n) ==
  /\ Free /\ Idle /\ bud.att > 0 /\ nd[n].tk = 1 /\ nd[n].det = 0 /\ (nd[n].at = "" \/ ~Held)
  /\ bud' = [bud EXCEPT !.att = @ - 1] /\ dq' = TRUE
  /\ Say(<<"att " \o S0(n - 1) \o " 1 " \o S0(vc)>>)
  /\ Emit(<<[e |-> "att", n |-> n, c |-> 2, lst |-> 1, def |-> Own(n, vc)], EvAttrM(n, 2, "taken", -1)>>)
  /\ UNCHANGED <<lq, fl, ss, op, nd, ord, vc>>

AttGo(n) ==
  /\ UAtt(n) /\ lq' = Tail(lq)
  /\ IF Link(n) = "wait" THEN DoLink(n, nd[n]) /\ Emit(<<>>)
     ELSE /\ nd' = [nd EXCEPT ![n].at = ""] /\ Emit(<<EvAttrM(n, 1, Link(n), -1)>>) /\ UNCHANGED ord
  /\ dq' = TRUE /\ Pass(0) /\ UNCHANGED <<fl, ss, op, bud, vc>>

AttEnd(n) ==
  /\ UEnd(n)
  /\ LET d == nd[n]
         v == IF d.st = "N" THEN d.def ELSE d.v
     IN /\ nd' = [nd EXCEPT ![n] = [d EXCEPT !.at = "", !.h = 1, !.v = v, !.st = IF d.st = "N" THEN "W" ELSE d.st]]
        /\ Emit(<<EvAttrM(n, 1, "ok", v)>>)
  /\ dq' = TRUE /\ Pass(0) /\ UNCHANGED <<lq, fl, ss, op, ord, bud, vc>>

Wr(n) ==
  /\ Free /\ bud.wr > 0 /\ nd[n].h = 1 /\ nd[n].wr = -1
  /\ bud' = [bud EXCEPT !.wr = @ - 1] /\ vc' = vc + 1 /\ dq' = TRUE
  /\ Say(<<"wr " \o S0(n - 1) \o " " \o S0(vc)>>)
  /\ LET ev == [e |-> "wr", n |-> n, v |-> Own(n, vc)] IN
     IF Locked THEN nd' = [nd EXCEPT ![n].wr = Own(n, vc)] /\ Queue("w", n) /\ Emit(<<ev>>)
     ELSE UNCHANGED lq /\ nd' = [nd EXCEPT ![n].v = Own(n, vc), ![n].st = "W"] /\ Emit(<<ev, [e |-> "wrr", n |-> n, res |-> "ok"]>>)
  /\ UNCHANGED <<fl, ss, op, ord>>
WrGo(n) ==
  /\ UWr(n) /\ lq' = Tail(lq)
  /\ nd' = [nd EXCEPT ![n].v = nd[n].wr, ![n].st = "W", ![n].wr = -1]
  /\ Emit(<<[e |-> "wrr", n |-> n, res |-> "ok"]>>)
  /\ dq' = TRUE /\ Pass(0) /\ UNCHANGED <<fl, ss, op, ord, bud, vc>>

Hd(n) ==
  /\ Free /\ bud.hd > 0 /\ nd[n].h = 1 /\ nd[n].wr = -1
  /\ bud' = [bud EXCEPT !.hd = @ - 1] /\ dq' = TRUE
  /\ nd' = [nd EXCEPT ![n].h = 0, ![n].tk = 0]
  /\ Say(<<"hd " \o S0(n - 1)>>) /\ Emit(<<[e |-> "hd", n |-> n]>>)
  /\ UNCHANGED <<lq, fl, ss, op, ord, vc>>

DetRes(n) == IF nd[n].tk = 1 THEN "taken" ELSE "ok"
DoDet(n) ==
  IF nd[n].tk = 1 \/ nd[n].lk = 0 THEN nd' = [nd EXCEPT ![n].det = 0] /\ UNCHANGED ord
  ELSE /\ nd' = [nd EXCEPT ![n] = [@ EXCEPT !.det = 0, !.lk = 0, !.st = "I", !.v = 0]]
       /\ ord' = SelectSeq(ord, LAMBDA m : m # n)
Det(n) ==
  /\ Free /\ bud.det > 0 /\ nd[n].det = 0
  /\ bud' = [bud EXCEPT !.det = @ - 1] /\ dq' = TRUE
  /\ Say(<<"det " \o S0(n - 1) \o " 1">>)
  /\ LET ev == [e |-> "det", n |-> n, lst |-> 1] IN
     IF Locked THEN nd' = [nd EXCEPT ![n].det = 1] /\ Queue("d", n) /\ Emit(<<ev>>) /\ UNCHANGED ord
     ELSE UNCHANGED lq /\ DoDet(n) /\ Emit(<<ev, [e |-> "detr", n |-> n, res |-> DetRes(n)]>>)
  /\ UNCHANGED <<fl, ss, op, vc>>
DetGo(n) ==
  /\ UDet(n) /\ lq' = Tail(lq) /\ DoDet(n) /\ Emit(<<[e |-> "detr", n |-> n, res |-> DetRes(n)]>>)
  /\ dq' = TRUE /\ Pass(0) /\ UNCHANGED <<fl, ss, op, bud, vc>>

\* dropping the future of a node call
CxlCall(n) ==
  /\ Free /\ bud.cxl > 0 /\ bud' = [bud EXCEPT !.cxl = @ - 1] /\ dq' = TRUE
  /\ \/ /\ nd[n].at # "" /\ lq' = SelectSeq(lq, LAMBDA x : x # <<"a", n>>)
        /\ nd' = [nd EXCEPT ![n].at = "", ![n].hold = 0, ![n].tk = IF nd[n].at # "lock" /\ VARIANT # "taken" THEN 0 ELSE @]
        /\ Say(<<"atc " \o S0(n - 1)>>) /\ Emit(<<[e |-> "attc", n |-> n, c |-> 1]>>)
     \/ /\ nd[n].wr # -1 /\ lq' = SelectSeq(lq, LAMBDA x : x # <<"w", n>>)
        /\ nd' = [nd EXCEPT ![n].wr = -1]
        /\ Say(<<"wrc " \o S0(n - 1)>>) /\ Emit(<<[e |-> "wrc", n |-> n]>>)
     \/ /\ nd[n].det = 1 /\ lq' = SelectSeq(lq, LAMBDA x : x # <<"d", n>>)
        /\ nd' = [nd EXCEPT ![n].det = 0]
        /\ Say(<<"dtc " \o S0(n - 1)>>) /\ Emit(<<[e |-> "detc", n |-> n]>>)
  /\ UNCHANGED <<fl, ss, op, ord, vc>>

\* a busy system does not poll a waiting attach for a while
Hold(n) ==
  /\ Free /\ bud.hold > 0 /\ nd[n].at = "wait" /\ nd[n].hold = 0 /\ nd[n].det = 0
  /\ bud' = [bud EXCEPT !.hold = @ - 1]
  /\ nd' = [nd EXCEPT ![n].hold = 1] /\ UNCHANGED dq
  /\ Say(<<"hold " \o S0(n - 1)>>) /\ Emit(<<[e |-> "hold", n |-> n]>>)
  /\ UNCHANGED <<lq, fl, ss, op, ord, vc>>
Rel ==
  /\ Free /\ Held
  /\ nd' = [n \in NS |-> [nd[n] EXCEPT !.hold = 0]] /\ dq' = TRUE
  /\ Say(<<"rel">>) /\ Emit(<<>>)
  /\ UNCHANGED <<lq, fl, ss, op, ord, bud, vc>>

----------------------------------------------------------------------------
(* Storage operations                                                      *)

Ordered(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Quiet(nds) ==
  [e |-> "q", wait |-> Ordered({n \in NS : nds[n].at # ""}), wrw |-> Ordered({n \in NS : nds[n].wr # -1}),
   dtw |-> Ordered({n \in NS : nds[n].det = 1}), ron |-> 0, won |-> 0,
   live |-> Cardinality({n \in NS : nds[n].st \in {"V", "W"}}), held |-> IF Held THEN 1 ELSE 0]
Quiesce ==
  /\ Idle /\ dq /\ ~Urgent /\ ~Late
  /\ Emit(<<Quiet(nd)>>) /\ dq' = FALSE /\ Pass(0)
  /\ UNCHANGED <<lq, fl, ss, nd, ord, op, bud, vc>>

End == op' = Op00 /\ dq' = TRUE
Begin(x) == Free /\ Idle /\ bud.ops > 0 /\ bud' = [bud EXCEPT !.ops = @ - 1] /\ Say(<<"fin", "op " \o x \o " 1 0">>)

Linked == {n \in NS : nd[n].lk = 1}
HasI == \E n \in Linked : nd[n].st = "I"

\* a finished read: what was not found is not there, and all waiting attaches are woken
Finished(nds) ==
  [n \in NS |-> LET d == nds[n] IN [d EXCEPT !.st = IF d.lk = 1 /\ d.st = "I" THEN "N" ELSE @,
                                             !.at = IF @ = "wait" THEN "woken" ELSE @]]

OpR ==
  /\ Begin("R")
  /\ IF ss.next # 0 /\ ss.last = <<>>
     THEN /\ nd' = Finished(nd)
          /\ Emit(<<EvOpM("R"), EvOprM("R", "ok", 0, 0, 0)>>) /\ End
     ELSE /\ op' = [Op00 EXCEPT !.on = "R", !.pc = IF ss.next = 0 THEN "scan" ELSE "ext"]
          /\ Emit(<<EvOpM("R")>>) /\ UNCHANGED <<nd, dq>>
  /\ UNCHANGED <<lq, fl, ss, ord, vc>>

\* the scan of the whole flash, as part of a read or of a collection
FinishR(nds, c1, c2, evs) ==
  /\ nd' = Finished(nds)
  /\ Emit(evs \o <<EvOprM("R", "ok", c1, c2, 0)>>) /\ End
Scan ==
  /\ op.pc = "scan" /\ ~Urgent
  /\ LET L == Len(fl)
         s == ScanOf(ss, fl)
     IN /\ Pass(L + 2)
        /\ IF op.on = "R"
           THEN /\ ss' = s
                /\ IF s.last = <<>> THEN FinishR(nd, op.b + L, 0, <<EvRdM(L, 1)>>)
                   ELSE op' = [op EXCEPT !.pc = "ext", !.b = @ + L] /\ Emit(<<EvRdM(L, 1)>>) /\ UNCHANGED <<nd, dq>>
           ELSE /\ ss' = [s EXCEPT !.gc = FALSE]
                /\ Emit(<<EvRdM(L, 1), EvOprM("G", "ok", op.b + L, L, op.p)>>) /\ End /\ UNCHANGED nd
  /\ UNCHANGED <<lq, fl, ord, bud, vc>>
\* what an interrupted scan leaves behind
Part(j) == IF VARIANT = "scan" /\ Recs(SubSeq(fl, 1, j)) # <<>> THEN ScanOf(ss, SubSeq(fl, 1, j)) ELSE ss
ScanFail ==
  /\ op.pc = "scan" /\ ~Urgent /\ bud.flt > 0 /\ bud' = [bud EXCEPT !.flt = @ - 1]
  /\ \E j \in 0..Len(fl) :
       /\ PassF(0, <<"flt re " \o S0(j + 1)>>, j + 2)
       /\ ss' = Part(j)
       /\ Emit(<<EvRdM(j, 1), EvFltM("read"), EvOprM(op.on, "fr", 0, 0, 0)>>)
  /\ End /\ UNCHANGED <<lq, fl, nd, ord, vc>>

\* reading the newest record element by element
Newest == ss.last[Len(ss.last)]
Ext ==
  /\ op.pc = "ext" /\ ~Urgent
  /\ IF op.i = 0
     THEN /\ op' = [op EXCEPT !.i = Newest.a + 1, !.b = @ + Newest.a] /\ Emit(<<EvRdM(Newest.a, 1)>>)
          /\ Pass(1 + Newest.a) /\ UNCHANGED <<nd, dq>>
     ELSE LET e == fl[op.i] IN
          /\ Pass(1)
          /\ IF e.k = "E" THEN FinishR(nd, op.b + 1, op.c, <<EvRdM(1, 0)>>)
             ELSE /\ nd' = [n \in NS |-> IF nd[n].lk = 1 /\ nd[n].st = "I" /\ KEYS[n] = e.key
                                         THEN IF Conv(e.v, TYPES[n]) # -1 THEN [nd[n] EXCEPT !.st = "V", !.v = Conv(e.v, TYPES[n])]
                                              ELSE [nd[n] EXCEPT !.st = "N"]
                                         ELSE nd[n]]
                  /\ op' = [op EXCEPT !.i = @ + 1, !.b = @ + 1, !.c = @ + 1]
                  /\ Emit(<<EvRdM(1, 0)>>) /\ UNCHANGED dq
  /\ UNCHANGED <<lq, fl, ss, ord, bud, vc>>
ExtFail ==
  /\ op.pc = "ext" /\ ~Urgent /\ bud.flt > 0 /\ bud' = [bud EXCEPT !.flt = @ - 1]
  /\ IF op.i = 0
     THEN \E j \in 0..(Newest.a - 1) :
            /\ PassF(0, <<"flt re " \o S0(j + 1)>>, j + 2)
            /\ Emit(<<EvRdM(j, 1), EvFltM("read"), EvOprM("R", IF j = Newest.a - 1 THEN "inc" ELSE "fr", 0, 0, 0)>>)
     ELSE PassF(0, <<"flt re 1">>, 1) /\ Emit(<<EvFltM("read"), EvOprM("R", "fr", 0, 0, 0)>>)
  /\ End /\ UNCHANGED <<lq, fl, ss, nd, ord, vc>>

Holders == SelectSeq(ord, LAMBDA n : nd[n].st \in {"V", "W"})
OpW ==
  /\ Begin("W")
  /\ LET refuse == IF ss.next = 0 THEN "nfr" ELSE IF ss.gc THEN "ngc" ELSE IF HasI THEN "nfr" ELSE ""
         need == ss.last = <<>> \/ \E n \in Linked : nd[n].st = "W"
         data == [i \in 1..Len(Holders) |-> <<KEYS[Holders[i]], nd[Holders[i]].v>>]
     IN IF refuse # "" THEN Emit(<<EvOpM("W"), EvOprM("W", refuse, 0, 0, 0)>>) /\ End /\ UNCHANGED ss
        ELSE IF ~need THEN Emit(<<EvOpM("W"), EvOprM("W", "ok", 0, 0, 0)>>) /\ End /\ UNCHANGED ss
        ELSE /\ op' = [Op00 EXCEPT !.on = "W", !.pc = "push", !.i = 1, !.items = MkRec(ss.next, data), !.tgt = ss.next]
             /\ ss' = [ss EXCEPT !.gc = IF VARIANT = "retry" THEN @ ELSE TRUE]
             /\ Emit(<<EvOpM("W")>>) /\ UNCHANGED dq
  /\ UNCHANGED <<lq, fl, nd, ord, vc>>
PshM(el, st, sto) == [e |-> "psh", el |-> el, st |-> st, sto |-> sto, ex |-> <<>>]
PushNext == op' = [op EXCEPT !.i = @ + 1, !.pc = IF op.i = Len(op.items) THEN "verify" ELSE "push"]
Push ==
  /\ op.pc = "push" /\ ~Urgent
  /\ fl' = Append(fl, op.items[op.i]) /\ PushNext
  /\ Emit(<<PshM(op.items[op.i], op.items[op.i], 1)>>) /\ Pass(2)
  /\ UNCHANGED <<lq, ss, nd, ord, bud, vc, dq>>
\* an append that fails without or with effect, or silently goes wrong
PushFail ==
  /\ op.pc = "push" /\ ~Urgent /\ bud.flt > 0 /\ bud' = [bud EXCEPT !.flt = @ - 1]
  /\ LET el == op.items[op.i]
         ill == [el EXCEPT !.v = JUNK + 1]
     IN \/ /\ Emit(<<EvFltM("push"), EvOprM("W", "fw", 0, 0, 0)>>) /\ End /\ UNCHANGED fl
           /\ PassF(0, <<"flt pn 1">>, 2)
        \/ /\ fl' = Append(fl, el) /\ End
           /\ Emit(<<PshM(el, el, 1), EvFltM("push"), EvOprM("W", "fw", 0, 0, 0)>>)
           /\ PassF(0, <<"flt pe 1">>, 2)
        \/ /\ PushNext /\ UNCHANGED <<fl, dq>> /\ Emit(<<EvFltM("silent"), PshM(el, el, 0)>>)
           /\ PassF(0, <<"flt pl 1">>, 2)
        \/ /\ el.k = "D" /\ fl' = Append(fl, ill) /\ PushNext /\ UNCHANGED dq
           /\ Emit(<<EvFltM("silent"), PshM(el, ill, 1)>>)
           /\ PassF(0, <<"flt ps 1">>, 2)
  /\ UNCHANGED <<lq, ss, nd, ord, vc>>

\* reading back what was written
RECURSIVE VerEnd(_)
VerEnd(i) == IF i > Len(fl) THEN 0 ELSE IF fl[i].k = "D" THEN VerEnd(i + 1) ELSE i
VStart == {i \in 1..Len(fl) : fl[i].k = "S" /\ fl[i].s = op.tgt}
VI == IF VStart = {} THEN 0 ELSE CHOOSE i \in VStart : \A j \in VStart : i <= j
VE == VerEnd(VI + 1)
VData == [i \in 1..(VE - VI - 1) |-> <<fl[VI + i].key, fl[VI + i].v>>]
VGood == VI # 0 /\ VE # 0 /\ fl[VE].k = "E" /\ fl[VE].s = op.tgt /\ VData = fl[VE].c /\ fl[VE] = op.items[Len(op.items)]
VRead == IF VI = 0 \/ VE = 0 THEN Len(fl) ELSE VE
Verify ==
  /\ op.pc = "verify" /\ ~Urgent
  /\ IF VGood
     THEN /\ ss' = Insert(ss, [s |-> op.tgt, a |-> VI, b |-> VE])
          /\ nd' = [n \in NS |-> IF nd[n].lk = 1 /\ nd[n].st = "W" THEN [nd[n] EXCEPT !.st = "V"] ELSE nd[n]]
          /\ Emit(<<EvRdM(VRead, 1), EvOprM("W", "ok", VRead, Len(op.items), 0)>>)
     ELSE /\ Emit(<<EvRdM(VRead, 1), EvOprM("W", IF VI = 0 THEN "inc" ELSE "wvf", 0, 0, 0)>>) /\ UNCHANGED <<ss, nd>>
  /\ End /\ Pass(VRead + 1 + (IF VI = 0 \/ VE = 0 THEN 1 ELSE 0)) /\ UNCHANGED <<lq, fl, ord, bud, vc>>
VerifyFail ==
  /\ op.pc = "verify" /\ ~Urgent /\ bud.flt > 0 /\ bud' = [bud EXCEPT !.flt = @ - 1]
  /\ \E j \in 0..(VRead - 1) :
       /\ PassF(0, <<"flt re " \o S0(j + 1)>>, j + 2)
       /\ Emit(<<EvRdM(j, 1), EvFltM("read"), EvOprM("W", "fr", 0, 0, 0)>>)
  /\ End /\ UNCHANGED <<lq, fl, ss, nd, ord, vc>>

OpG ==
  /\ Begin("G")
  /\ IF ~ss.gc THEN Emit(<<EvOpM("G"), EvOprM("G", "ok", 0, 0, 0)>>) /\ End /\ UNCHANGED ss
     ELSE /\ op' = [Op00 EXCEPT !.on = "G", !.pc = "walk", !.sv = ss, !.i = 1]
          /\ ss' = New /\ Emit(<<EvOpM("G")>>) /\ UNCHANGED dq
  /\ UNCHANGED <<lq, fl, nd, ord, vc>>
\* op.c elements were looked at, op.p of them removed, op.i is the next one
Drop1(i) == SubSeq(fl, 1, i - 1) \o SubSeq(fl, i + 1, Len(fl))
Pop == op.i <= Len(fl) /\ (fl[op.i].k = "X" \/ ~Kept(op.sv, op.c + 1))
It == IF op.c = 0 THEN 1 ELSE 0
Walk ==
  /\ op.pc = "walk" /\ ~Urgent
  /\ IF op.i > Len(fl)
     THEN /\ op' = [op EXCEPT !.pc = "scan"] /\ Pass(1 + It) /\ Emit(<<>>) /\ UNCHANGED fl
     ELSE IF Pop
     THEN /\ fl' = Drop1(op.i) /\ op' = [op EXCEPT !.c = @ + 1, !.b = @ + 1, !.p = @ + 1]
          /\ Emit(<<EvRdM(1, It), [e |-> "inv", i |-> op.i]>>) /\ Pass(3 + It)
     ELSE /\ op' = [op EXCEPT !.c = @ + 1, !.b = @ + 1, !.i = @ + 1]
          /\ Emit(<<EvRdM(1, It)>>) /\ Pass(1 + It) /\ UNCHANGED fl
  /\ UNCHANGED <<lq, ss, nd, ord, bud, vc, dq>>
WalkFail ==
  /\ op.pc = "walk" /\ ~Urgent /\ bud.flt > 0 /\ bud' = [bud EXCEPT !.flt = @ - 1]
  /\ \/ /\ Emit(<<EvFltM("read"), EvOprM("G", "fr", 0, 0, 0)>>) /\ UNCHANGED fl
        /\ PassF(It, <<"flt re 1">>, 1)
     \/ /\ Pop /\ UNCHANGED fl
        /\ Emit(<<EvRdM(1, It), EvFltM("inv"), EvOprM("G", "fw", 0, 0, 0)>>)
        /\ PassF(0, <<"flt in 1">>, 3 + It)
     \/ /\ Pop /\ fl' = Drop1(op.i)
        /\ Emit(<<EvRdM(1, It), [e |-> "inv", i |-> op.i], EvFltM("inv"), EvOprM("G", "fw", 0, 0, 0)>>)
        /\ PassF(0, <<"flt ie 1">>, 3 + It)
  /\ End /\ UNCHANGED <<lq, ss, nd, ord, vc>>

OpX ==
  /\ Free /\ Idle /\ bud.rst > 0 /\ bud' = [bud EXCEPT !.rst = @ - 1]
  /\ ss' = New /\ Emit(<<EvOpM("X"), EvOprM("X", "ok", 0, 0, 0)>>) /\ End
  /\ Say(<<"fin", "op X 1 0">>) /\ UNCHANGED <<lq, fl, nd, ord, vc>>

\* dropping the future of a storage operation, also in the middle of a scan
OpCxl ==
  /\ ~Idle /\ ~Urgent /\ bud.cxl > 0 /\ bud' = [bud EXCEPT !.cxl = @ - 1]
  /\ Emit(<<[e |-> "opc", op |-> op.on, lst |-> 1]>>) /\ End
  /\ \E j \in (IF op.pc = "scan" THEN 0..Len(fl) ELSE {0}) :
       /\ ss' = IF op.pc = "scan" THEN Part(j) ELSE ss
       /\ PassF(IF op.pc = "scan" /\ j > 0 THEN j + 1 ELSE 0, <<"opc">>, 0)
  /\ UNCHANGED <<lq, fl, nd, ord, vc>>

Crash ==
  /\ bud.crash > 0 /\ ~Urgent /\ bud' = [bud EXCEPT !.crash = @ - 1]
  /\ Emit(<<[e |-> "crash"], EvBootM(0, fl)>>)
  /\ ss' = New /\ nd' = [n \in NS |-> Nd0] /\ ord' = <<>> /\ lq' = <<>> /\ op' = Op00 /\ dq' = FALSE
  /\ Say(<<"crash">>) /\ UNCHANGED <<fl, vc>>

Next ==
  \/ \E n \in NS : Att(n) \/ Att2(n) \/ AttGo(n) \/ AttEnd(n) \/ Wr(n) \/ WrGo(n) \/ Hd(n) \/ Det(n) \/ DetGo(n) \/ CxlCall(n)
  \/ (\E n \in NS : Hold(n)) \/ Rel
  \/ Quiesce
  \/ OpR \/ OpW \/ OpG \/ OpX
  \/ Scan \/ ScanFail \/ Ext \/ ExtFail \/ Push \/ PushFail \/ Verify \/ VerifyFail \/ Walk \/ WalkFail
  \/ OpCxl \/ Crash
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties                                                              *)

\* no behaviour breaks a property
Clean == o.bad = {}

\* the observer knows the flash and what every handle holds
Faithful == /\ Same(o.flash, fl)
            /\ \A n \in NS : nd[n].h = 1 => \E x \in o.nd[n].poss : x[1] = "V" /\ x[2] = nd[n].v

\* what the list remembers is true
Known == Idle /\ ss.next # 0 =>
           /\ \A i \in 1..Len(ss.last) : \E r \in RECSET(Recs(fl)) : r.s = ss.last[i].s /\ r.a = ss.last[i].a /\ r.b = ss.last[i].b
           /\ \A r \in RECSET(Recs(fl)) : r.f = 0 /\ ~ss.gc => r.s < ss.next

\* C15: from every state in which nothing runs, a read, a collection and a write-back without disturbance store everything
Recovers ==
  Idle => LET s1 == IF ss.next = 0 THEN ScanOf(New, fl) ELSE ss
              g == Gone(s1, fl)
              f2 == IF s1.gc THEN [i \in 1..Len(g) |-> g[i].e] ELSE fl
              s2 == IF s1.gc THEN ScanOf(New, f2) ELSE s1
              vals == {n \in Linked : nd[n].st \in {"V", "W"}}
              need == s2.last = <<>> \/ \E n \in Linked : nd[n].st = "W"
              hs == SelectSeq(ord, LAMBDA n : n \in vals)
              rec == MkRec(s2.next, [i \in 1..Len(hs) |-> <<KEYS[hs[i]], nd[hs[i]].v>>])
              f3 == IF need THEN f2 \o rec ELSE f2
              top == NewestOf(RECSET(Recs(f3)))
          IN /\ s2.next # 0
             /\ top # {}
             /\ Cardinality(top) = 1
             /\ \A n \in vals : nd[n].st = "W" => \E r \in top : FirstVal(r.d, KEYS[n]) = nd[n].v
             /\ \A i \in 1..Len(f2) : ~s1.gc \/ \E r \in RECSET(Recs(f2)) : r.a <= i /\ i <= r.b
=============================================================================
