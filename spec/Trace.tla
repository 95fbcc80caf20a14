------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Judges histories recorded from the real code with Observer: TRACES     *)
(* names a file with one history per line.  A history is followed until it *)
(* breaks the property LABEL (with LABEL "any", until it breaks any), then *)
(* it is reported.                                                         *)
(***************************************************************************)
EXTENDS Observer, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
NT == Len(Traces)
Label == IOEnv.LABEL
VARIABLES tr, i, o
vars == <<tr, i, o>>
Init == tr \in 1..NT /\ i = 0 /\ o = NIL
Next == /\ i < Len(Traces[tr].ev)
        /\ i' = i + 1
        /\ o' = Step(o, Traces[tr].ev[i + 1])
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Broken == IF Label = "any" THEN o.bad # {} ELSE IF Label = "all" THEN o.bad # {} /\ i = Len(Traces[tr].ev) ELSE Label \in o.bad
Report == ~Broken \/ (PrintT(<<"BAD", Traces[tr].id, i, o.why, o.bad>>) /\ FALSE)
=============================================================================
