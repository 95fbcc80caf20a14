------------------------------- MODULE WTrace -------------------------------
(***************************************************************************)
(* Judges histories of the worker tasks recorded from the real code: the   *)
(* default worker by WObs, the no-op worker by Observer (a list whose      *)
(* storage is always empty and that is read whenever the worker runs).     *)
(***************************************************************************)
EXTENDS WObs, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
NT == Len(Traces)
Label == IOEnv.LABEL
VARIABLES tr, i, w, o
vars == <<tr, i, w, o>>

\* the no-op worker must have served everybody whenever nothing can run
NoopQ(w0, ev, o0) ==
  IF w0.mode = "n" /\ ev.e = "q" /\ w0.run /\ Len(ev.wait) > 0
  THEN WBad(w0, {"C22"}, "an attach is not served by the no-op worker")
  ELSE IF w0.mode = "n" /\ ev.e = "ret" THEN WBad(w0, {"C22"}, "the no-op worker ended")
  ELSE IF w0.mode = "n" /\ ev.e \in {"psh", "inv", "rd"} THEN WBad(w0, {"C22"}, "the no-op worker accessed storage")
  ELSE IF w0.mode = "n" /\ o0.bad # {} THEN WBad(w0, {"C22"}, o0.why)
  ELSE w0

KeepBad(a, b) == [b EXCEPT !.bad = a.bad, !.why = a.why]
Init == tr \in 1..NT /\ i = 0 /\ w = WNIL /\ o = NIL
Next == /\ i < Len(Traces[tr].ev)
        /\ i' = i + 1
        /\ LET ev == Traces[tr].ev[i + 1]
               o1 == IF w.mode = "d" \/ ev.e \in {"wk", "tm", "wb", "wi", "kill", "stop", "ret"} THEN (IF w.mode = "d" THEN NIL ELSE o) ELSE Step(o, ev)
               w1 == WStep(w, ev)
           IN /\ o' = IF w1.mode = "d" THEN NIL ELSE o1
              /\ w' = IF w1.mode = "n" THEN NoopQ(KeepBad(w, w1), ev, o1) ELSE w1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Broken == IF Label = "any" THEN w.bad # {} ELSE IF Label = "all" THEN w.bad # {} /\ i = Len(Traces[tr].ev) ELSE Label \in w.bad
Report == ~Broken \/ (PrintT(<<"BAD", Traces[tr].id, i, w.why, w.bad>>) /\ FALSE)
=============================================================================
