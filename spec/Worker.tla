------------------------------- MODULE Worker -------------------------------
(***************************************************************************)
(* Design model of the default worker (worker_task.rs): one list, one      *)
(* storage, one worker in virtual time.                                    *)
(*                                                                         *)
(* The worker waits for read requests, write requests and the delayed      *)
(* collection at the same time, each with its own waiting time, and then   *)
(* works through a list of tasks.  Other calls, the passing of time, a     *)
(* storage error or the stop can come at every point in between (SLOW), or *)
(* only while the worker waits.                                            *)
(*                                                                         *)
(* With SCRIPT = TRUE a behaviour also spells out the commands that make   *)
(* the harness drive the real worker through the same history.             *)
(***************************************************************************)
EXTENDS Store

CONSTANTS KEYS, INITS,
          RD, WD, GD,   \* debounce of reads and of writes, delay of the collection
          STEPS,        \* how far the time may advance at once
          MAXATT, MAXWR, MAXDET, MAXHD, MAXFLT, MAXSTOP, MAXADV,
          SLOW, SCRIPT

VARIABLES
  fl, ss, nd, ord,  \* as in Noodle
  sg,    \* requests that were not yet noticed: r, w
  du,    \* what is left of the waiting times: r, w, g; -1: not waiting
  wk,    \* the worker
  arm,   \* storage error that is about to come: kind and distance (with SCRIPT)
  bud, vc, cmds, log
vars == <<fl, ss, nd, ord, sg, du, wk, arm, bud, vc, cmds, log>>

NS == 1..Len(KEYS)
Nd0 == [lk |-> 0, st |-> "I", v |-> 0, h |-> 0, at |-> 0, def |-> 0, ra |-> FALSE, wr |-> FALSE]
NoDu == [r |-> -1, w |-> -1, g |-> -1]
WkOff == [on |-> FALSE, stop |-> FALSE, first |-> FALSE, todo |-> <<>>, op |-> "", sv |-> New, items |-> <<>>, save |-> <<>>, lost |-> FALSE]

Emit(evs) == log' = IF SCRIPT THEN evs ELSE <<>>
Say(c) == cmds' = IF SCRIPT THEN c ELSE <<>>
S0(x) == ToString(x)

Init ==
  /\ \E i \in INITS : fl = Init0(i) /\ cmds = <<"init " \o S0(i)>>
  /\ ss = New /\ nd = [n \in NS |-> Nd0] /\ ord = <<>>
  /\ sg = [r |-> FALSE, w |-> FALSE] /\ du = NoDu /\ wk = WkOff /\ arm = [k |-> "", n |-> 0]
  /\ bud = [att |-> MAXATT, wr |-> MAXWR, det |-> MAXDET, hd |-> MAXHD, flt |-> MAXFLT, stop |-> MAXSTOP, adv |-> MAXADV]
  /\ vc = 10 /\ log = <<>>

Locked == wk.op \in {"R", "W"}
Linked == {n \in NS : nd[n].lk = 1}
HasI == \E n \in Linked : nd[n].st = "I"

----------------------------------------------------------------------------
(* Waiting                                                                 *)

AnyDue == du.r = 0 \/ du.w = 0 \/ du.g = 0
Ready == wk.todo = <<>> /\ wk.op = "" /\ (sg.r \/ sg.w \/ AnyDue \/ wk.stop)
Busy == wk.on /\ (wk.todo # <<>> \/ wk.op # "" \/ Ready)

\* one poll of the select
RStill == sg.r \/ du.r # 0
WStill == sg.w \/ du.w # 0
Dropping(d) == IF VARIANT = "drop" THEN NoDu ELSE d
Select ==
  /\ wk.on /\ ~wk.stop /\ wk.todo = <<>> /\ wk.op = "" /\ Ready
  /\ LET d1 == [du EXCEPT !.r = IF sg.r THEN RD ELSE @]
         d2 == [d1 EXCEPT !.w = IF sg.w THEN WD ELSE @]
     IN IF ~RStill
        THEN /\ wk' = [wk EXCEPT !.todo = <<"R", "r">>] /\ du' = Dropping([du EXCEPT !.r = -1]) /\ UNCHANGED sg
        ELSE IF ~WStill
        THEN /\ wk' = [wk EXCEPT !.todo = <<"G", "W", "G">>] /\ du' = Dropping([d1 EXCEPT !.w = -1]) /\ sg' = [sg EXCEPT !.r = FALSE]
        ELSE /\ sg' = [r |-> FALSE, w |-> FALSE]
             /\ IF du.g = 0
                THEN wk' = [wk EXCEPT !.todo = <<"Gf">>] /\ du' = Dropping([d2 EXCEPT !.g = -1])
                ELSE du' = d2 /\ UNCHANGED wk
  /\ Emit(<<>>) /\ Say(<<>>) /\ UNCHANGED <<fl, ss, nd, ord, arm, bud, vc>>

\* the waiting, and what the worker is just doing, is given up
Elems(n) == SubSeq(wk.items, 1, n)
Unkept == SetToSortSeq({i \in 1..Len(fl) : fl[i].k = "X" \/ ~Kept(wk.sv, i)}, LAMBDA a, b : a < b)
GoneN(n) == LET u == {Unkept[i] : i \in 1..n}
            IN [i \in 1..(Len(fl) - n) |-> fl[SetToSortSeq((1..Len(fl)) \ u, LAMBDA a, b : a < b)[i]]]
\* after part of the running operation
Partly(n) == IF wk.op = "W" THEN fl \o Elems(n) ELSE IF wk.op = "G" THEN GoneN(n) ELSE fl
Parts == IF wk.op = "W" THEN 0..Len(wk.items) ELSE IF wk.op = "G" THEN 0..Len(Unkept) ELSE {0}

StopSeen ==
  /\ wk.on /\ wk.stop /\ wk.todo # <<"ret">>
  /\ wk.save = <<>>
  /\ \E n \in Parts : fl' = Partly(n)
  /\ wk' = [wk EXCEPT !.todo = <<"W", "ret">>, !.op = "", !.lost = FALSE, !.save = [n \in NS |-> IF nd[n].lk = 1 /\ nd[n].wr THEN nd[n].v ELSE 0]]
  /\ Emit(<<>>) /\ Say(<<>>) /\ UNCHANGED <<ss, nd, ord, sg, du, arm, bud, vc>>
Stopping == wk.stop /\ wk.save = <<>>

----------------------------------------------------------------------------
(* Working                                                                 *)

Then(x) == [wk EXCEPT !.op = "", !.items = <<>>, !.sv = New, !.todo = x \o Tail(@)]
\* a failed operation: what it was to serve is lost, the rest goes on
Failed == [Then(<<>>) EXCEPT !.lost = TRUE]
Lost(nds) == [n \in NS |-> [nds[n] EXCEPT !.ra = FALSE, !.wr = FALSE]]
\* after an operation that a write-back needed it is tried again
Again == IF wk.todo[1] \in {"Rw", "Gw"} THEN <<"W">> ELSE <<>>

Finished == [n \in NS |-> [nd[n] EXCEPT !.st = IF nd[n].lk = 1 /\ @ = "I" THEN "N" ELSE @]]
Filled(st) ==
  LET r == IF st.last = <<>> THEN NOREC ELSE CHOOSE q \in RECSET(Recs(fl)) : q.s = st.last[Len(st.last)].s
  IN [n \in NS |-> IF nd[n].lk = 1 /\ nd[n].st = "I"
                   THEN LET v == FirstVal(r.d, KEYS[n]) IN
                        IF v \in {-1, 0} THEN [nd[n] EXCEPT !.st = "N"] ELSE [nd[n] EXCEPT !.st = "V", !.v = v]
                   ELSE nd[n]]

IsR == wk.todo[1] \in {"R", "Rw"}
IsG == wk.todo[1] \in {"G", "Gw", "Gf"}
Start == wk.on /\ ~Stopping /\ wk.todo # <<>> /\ wk.op = ""
Holders == SelectSeq(ord, LAMBDA n : nd[n].st \in {"V", "W"})
Begin ==
  /\ Start
  /\ \/ /\ IsR /\ ss.next # 0 /\ ss.last = <<>>
        /\ nd' = Finished /\ wk' = Then(Again) /\ UNCHANGED <<ss, du>>
     \/ /\ IsR /\ ~(ss.next # 0 /\ ss.last = <<>>)
        /\ wk' = [wk EXCEPT !.op = "R"] /\ UNCHANGED <<ss, nd, du>>
     \/ /\ IsG /\ ~ss.gc
        /\ wk' = [Then(Again) EXCEPT !.first = @ \/ wk.todo[1] = "Gf"] /\ UNCHANGED <<ss, nd, du>>
     \/ /\ IsG /\ ss.gc
        /\ wk' = [wk EXCEPT !.op = "G", !.sv = ss] /\ ss' = New /\ UNCHANGED <<nd, du>>
     \/ /\ wk.todo[1] = "W"
        /\ LET refuse == IF ss.next = 0 THEN "nfr" ELSE IF ss.gc THEN "ngc" ELSE IF HasI THEN "nfr" ELSE ""
               need == ss.last = <<>> \/ \E n \in Linked : nd[n].st = "W"
           IN IF refuse # "" THEN /\ wk' = Then(IF VARIANT = "refuse" THEN <<>> ELSE IF refuse = "nfr" THEN <<"Rw">> ELSE <<"Gw">>) /\ UNCHANGED ss
              ELSE IF ~need THEN wk' = Then(<<>>) /\ UNCHANGED ss
              ELSE /\ wk' = [wk EXCEPT !.op = "W", !.items = MkRec(ss.next, [i \in 1..Len(Holders) |-> <<KEYS[Holders[i]], nd[Holders[i]].v>>])]
                   /\ ss' = [ss EXCEPT !.gc = TRUE]
        /\ UNCHANGED <<nd, du>>
     \/ /\ wk.todo[1] = "r"
        /\ du' = IF ~wk.first /\ du.g = -1 THEN [du EXCEPT !.g = GD] ELSE du
        /\ wk' = Then(<<>>) /\ UNCHANGED <<ss, nd>>
     \/ /\ wk.todo[1] = "ret"
        /\ wk' = [wk EXCEPT !.on = FALSE, !.todo = <<>>, !.op = "end"] /\ UNCHANGED <<ss, nd>> /\ du' = NoDu
  /\ Emit(IF wk.todo[1] = "ret" THEN <<[e |-> "ret"]>> ELSE <<>>) /\ Say(<<>>)
  /\ UNCHANGED <<fl, ord, sg, arm, bud, vc>>

PshM(el) == [e |-> "psh", el |-> el, st |-> el, sto |-> 1, ex |-> <<>>]
\* events of the removal of the first n elements that are not kept
InvEvs(n) == [i \in 1..n |-> [e |-> "inv", i |-> Unkept[i] - (i - 1)]]
PshEvs(n) == [i \in 1..n |-> PshM(wk.items[i])]
\* the armed error comes at which of m storage writes, 0: not yet
Hits(kinds, m) == IF arm.k \in kinds /\ arm.n <= m THEN arm.n ELSE 0
Less(kinds, m) == arm' = IF arm.k \in kinds THEN [arm EXCEPT !.n = @ - m] ELSE arm
PK == {"pn", "pe"}
IK == {"in", "ie"}

Done ==
  /\ wk.on /\ ~Stopping
  /\ \/ /\ wk.op = "R"
        /\ LET s == IF ss.next = 0 THEN ScanOf(ss, fl) ELSE ss IN ss' = s /\ nd' = Filled(s)
        /\ wk' = Then(Again) /\ Emit(<<>>) /\ UNCHANGED <<fl, arm>>
     \/ /\ wk.op = "W" /\ Hits(PK, Len(wk.items)) = 0 /\ Less(PK, Len(wk.items))
        /\ fl' = fl \o wk.items
        /\ ss' = Insert(ss, [s |-> wk.items[1].s, a |-> Len(fl) + 1, b |-> Len(fl) + Len(wk.items)])
        /\ nd' = [n \in NS |-> IF nd[n].lk = 1 /\ nd[n].st = "W" THEN [nd[n] EXCEPT !.st = "V", !.wr = FALSE] ELSE nd[n]]
        /\ wk' = Then(<<>>) /\ Emit(PshEvs(Len(wk.items)))
     \/ /\ wk.op = "G" /\ Hits(IK, Len(Unkept)) = 0 /\ Less(IK, Len(Unkept))
        /\ fl' = GoneN(Len(Unkept))
        /\ ss' = [ScanOf(New, GoneN(Len(Unkept))) EXCEPT !.gc = FALSE]
        /\ wk' = [Then(Again) EXCEPT !.first = @ \/ wk.todo[1] = "Gf"]
        /\ Emit(InvEvs(Len(Unkept))) /\ UNCHANGED nd
  /\ Say(<<>>) /\ UNCHANGED <<ord, sg, du, bud, vc>>

\* a storage error somewhere in the operation
Flt(w) == [e |-> "flt", w |-> w]
Fail ==
  /\ wk.on /\ ~Stopping /\ wk.op \in {"R", "W", "G"}
  /\ IF SCRIPT
     THEN /\ UNCHANGED bud /\ arm' = [k |-> "", n |-> 0]
          /\ \/ /\ wk.op = "W" /\ Hits(PK, Len(wk.items)) # 0
                /\ LET m == IF arm.k = "pe" THEN arm.n ELSE arm.n - 1 IN fl' = Partly(m) /\ Emit(PshEvs(m) \o <<Flt("push")>>)
             \/ /\ wk.op = "G" /\ Hits(IK, Len(Unkept)) # 0
                /\ LET m == IF arm.k = "ie" THEN arm.n ELSE arm.n - 1 IN fl' = Partly(m) /\ Emit(InvEvs(m) \o <<Flt("inv")>>)
     ELSE /\ bud.flt > 0 /\ bud' = [bud EXCEPT !.flt = @ - 1] /\ Emit(<<>>) /\ UNCHANGED arm
          /\ \E n \in Parts : fl' = Partly(n)
  /\ wk' = Failed /\ nd' = Lost(nd)
  /\ Say(<<>>) /\ UNCHANGED <<ss, ord, sg, du, vc>>

----------------------------------------------------------------------------
(* Node calls                                                              *)
EvAttrW(n, v) == [e |-> "attr", n |-> n, c |-> 1, res |-> "ok", v |-> v]
CanEnd(n) == nd[n].at = 1 /\ (nd[n].st \in {"V", "W"} \/ (nd[n].st = "N" /\ ~Locked))
AttEnd(n) ==
  /\ CanEnd(n) /\ (SLOW \/ ~Busy)
  /\ LET d == nd[n]
         v == IF d.st = "N" THEN d.def ELSE d.v
     IN /\ nd' = [nd EXCEPT ![n] = [d EXCEPT !.at = 0, !.h = 1, !.v = v, !.ra = FALSE, !.st = IF d.st = "N" THEN "W" ELSE d.st]]
        /\ Emit(<<EvAttrW(n, v)>>)
  /\ Say(<<>>) /\ UNCHANGED <<fl, ss, ord, sg, du, wk, arm, bud, vc>>

Free == IF SLOW THEN ~Locked ELSE ~Busy /\ \A n \in NS : ~CanEnd(n)

Att(n) ==
  /\ Free /\ bud.att > 0 /\ nd[n].at = 0 /\ nd[n].h = 0
  /\ bud' = [bud EXCEPT !.att = @ - 1] /\ vc' = vc + 1
  /\ nd' = [nd EXCEPT ![n] = [@ EXCEPT !.at = 1, !.lk = 1, !.def = vc, !.ra = TRUE]]
  /\ ord' = IF nd[n].lk = 1 THEN ord ELSE <<n>> \o ord
  /\ sg' = [sg EXCEPT !.r = TRUE]
  /\ Say(<<"att " \o S0(n - 1) \o " 1 " \o S0(vc)>>) /\ Emit(<<[e |-> "att", n |-> n, c |-> 1, lst |-> 1, def |-> vc]>>)
  /\ UNCHANGED <<fl, ss, du, wk, arm>>
Wr(n) ==
  /\ Free /\ bud.wr > 0 /\ nd[n].h = 1
  /\ bud' = [bud EXCEPT !.wr = @ - 1] /\ vc' = vc + 1
  /\ nd' = [nd EXCEPT ![n].v = vc, ![n].st = "W", ![n].wr = TRUE]
  /\ sg' = [sg EXCEPT !.w = TRUE]
  /\ Say(<<"wr " \o S0(n - 1) \o " " \o S0(vc)>>) /\ Emit(<<[e |-> "wr", n |-> n, v |-> vc], [e |-> "wrr", n |-> n, res |-> "ok"]>>)
  /\ UNCHANGED <<fl, ss, ord, du, wk, arm>>
Hd(n) ==
  /\ Free /\ bud.hd > 0 /\ nd[n].h = 1 /\ bud' = [bud EXCEPT !.hd = @ - 1]
  /\ nd' = [nd EXCEPT ![n].h = 0]
  /\ Say(<<"hd " \o S0(n - 1)>>) /\ Emit(<<[e |-> "hd", n |-> n]>>)
  /\ UNCHANGED <<fl, ss, ord, sg, du, wk, arm, vc>>
Det(n) ==
  /\ Free /\ bud.det > 0 /\ nd[n].h = 0 /\ nd[n].at = 0 /\ nd[n].lk = 1 /\ bud' = [bud EXCEPT !.det = @ - 1]
  /\ nd' = [nd EXCEPT ![n] = [Nd0 EXCEPT !.def = nd[n].def]] /\ ord' = SelectSeq(ord, LAMBDA m : m # n)
  /\ Say(<<"det " \o S0(n - 1) \o " 1">>)
  /\ Emit(<<[e |-> "det", n |-> n, lst |-> 1], [e |-> "detr", n |-> n, res |-> "ok"]>>)
  /\ wk' = [wk EXCEPT !.save = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![n] = 0]]
  /\ UNCHANGED <<fl, ss, sg, du, arm, vc>>

Pos == {x \in {du.r, du.w, du.g} : x > 0}
Less1(x, d) == IF x > 0 THEN x - d ELSE x
Tick(d) ==
  /\ IF SLOW THEN Pos # {} ELSE Free /\ bud.adv > 0
  /\ \A x \in Pos : d <= x
  /\ bud' = IF SLOW THEN bud ELSE [bud EXCEPT !.adv = @ - 1]
  /\ du' = [r |-> Less1(du.r, d), w |-> Less1(du.w, d), g |-> Less1(du.g, d)]
  /\ Say(<<"adv " \o S0(d)>>) /\ Emit(<<>>) /\ UNCHANGED <<fl, ss, nd, ord, sg, wk, arm, vc>>
Time == \E d \in STEPS : Tick(d)
\* straight to the next point in time at which something is due
Jump == SCRIPT /\ Pos # {} /\ Tick(CHOOSE x \in Pos : \A y \in Pos : x <= y)

Run ==
  /\ ~wk.on /\ (~SLOW => Free) /\ bud.stop >= 0 /\ (SCRIPT \/ wk.op = "")
  /\ bud' = [bud EXCEPT !.stop = @ - 1]
  /\ wk' = [WkOff EXCEPT !.on = TRUE]
  /\ Say(<<"wk d">>) /\ Emit(<<[e |-> "wk"]>>) /\ UNCHANGED <<fl, ss, nd, ord, sg, du, arm, vc>>
Stop ==
  /\ wk.on /\ ~wk.stop /\ (~SLOW => Free) /\ MAXSTOP > 0 /\ bud.stop >= 0
  /\ wk' = [wk EXCEPT !.stop = TRUE]
  /\ Say(<<"stop">>) /\ Emit(<<[e |-> "stop"]>>) /\ UNCHANGED <<fl, ss, nd, ord, sg, du, arm, bud, vc>>
Arm ==
  /\ SCRIPT /\ Free /\ bud.flt > 0 /\ arm.k = "" /\ bud' = [bud EXCEPT !.flt = @ - 1]
  /\ \E k \in PK \cup IK, n \in 1..3 : arm' = [k |-> k, n |-> n] /\ Say(<<"flt " \o k \o " " \o S0(n)>>)
  /\ Emit(<<>>) /\ UNCHANGED <<fl, ss, nd, ord, sg, du, wk, vc>>

Work == Select \/ StopSeen \/ Begin \/ Done \/ Fail
Ends == \E n \in NS : AttEnd(n)
Calls == \E n \in NS : Att(n) \/ Wr(n) \/ Hd(n) \/ Det(n)
Next == Work \/ Ends \/ Calls \/ Time \/ Jump \/ Run \/ Stop \/ Arm
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Work) /\ WF_vars(Ends) /\ WF_vars(Time) /\ WF_vars(Run)

----------------------------------------------------------------------------
(* Properties                                                              *)

NewestRec == LET s == NewestOf(RECSET(Recs(fl))) IN IF s = {} THEN NOREC ELSE CHOOSE r \in s : TRUE
Doing(S) == \E i \in 1..Len(wk.todo) : wk.todo[i] \in S

\* C19: a request that was not hit by a storage error is not forgotten as long as the worker runs
NoLostRead == \A n \in NS : (nd[n].ra /\ nd[n].st = "I" /\ wk.on /\ ~wk.stop) => sg.r \/ du.r # -1 \/ Doing({"R", "Rw"}) \/ Doing({"W"})
NoLostWrite == \A n \in NS : (nd[n].wr /\ wk.on) => sg.w \/ du.w # -1 \/ Doing({"W", "Rw", "Gw"}) \/ wk.stop
\* C20: when the worker has returned, what was written before the stop is stored
Flushed == (wk.op = "end" /\ ~wk.on /\ ~wk.lost) => \A n \in NS : wk.save[n] > 0 /\ nd[n].lk = 1 => FirstVal(NewestRec.d, KEYS[n]) >= wk.save[n]
\* a single record never has other than current or former values, and the newest record survives
Sane == Cardinality(NewestOf(RECSET(Recs(fl)))) <= 1
\* C21: nothing is running without a request that has been debounced: by construction of Select; nothing is due too late
Early == du.r <= RD /\ du.w <= WD /\ du.g <= GD

\* C19: liveness without storage errors and without stop
Served == \A n \in NS : (nd[n].at = 1) ~> (nd[n].at = 0)
Stored == \A n \in NS : nd[n].wr ~> ~nd[n].wr
Swept == <>[](ss.next = 0 \/ Len(fl) = Len(Gone(ScanOf(New, fl), fl)))
\* C20: the worker returns
Returns == wk.stop ~> ~wk.on
=============================================================================
