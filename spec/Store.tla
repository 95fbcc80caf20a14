------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Elements on a storage and what a list remembers of them: shared by the  *)
(* design models of the list (Noodle) and of the worker (Worker).          *)
(***************************************************************************)
EXTENDS Observer

CONSTANTS K,          \* kept records
          VARIANT     \* "none", or a defect that is reintroduced

----------------------------------------------------------------------------
\* elements
MkS(s)    == [k |-> "S", s |-> s, key |-> 0, v |-> 0, c |-> <<>>, l |-> 1, f |-> 0, w |-> 0]
MkD(k, v) == [k |-> "D", s |-> 0, key |-> k, v |-> v, c |-> <<>>, l |-> 1, f |-> 0, w |-> 0]
MkE(s, d) == [k |-> "E", s |-> s, key |-> 0, v |-> 0, c |-> d, l |-> 1, f |-> 0, w |-> 0]
MkX       == [k |-> "X", s |-> 0, key |-> 0, v |-> 0, c |-> <<>>, l |-> 1, f |-> 0, w |-> 0]
MkRec(s, d) == <<MkS(s)>> \o [i \in 1..Len(d) |-> MkD(d[i][1], d[i][2])] \o <<MkE(s, d)>>

\* 1 empty; 2 one record; 3 torn record, then a record; 4 two records, the newer one first, debris between;
\* 5 only debris; 6 three records, the newest damaged
Init0(i) ==
  CASE i = 1 -> <<>>
    [] i = 2 -> MkRec(1, <<<<1, 1>>>>)
    [] i = 3 -> <<MkS(3), MkD(1, 2)>> \o MkRec(1, <<<<1, 1>>, <<2, 3>>>>)
    [] i = 4 -> MkRec(2, <<<<1, 1>>>>) \o <<MkX>> \o MkRec(1, <<<<1, 2>>, <<2, 3>>>>)
    [] i = 5 -> <<MkD(1, 1), MkE(1, <<>>), MkS(1)>>
    [] i = 6 -> MkRec(1, <<<<1, 1>>>>) \o MkRec(2, <<<<1, 2>>>>) \o <<MkS(3), MkD(1, 3), MkE(3, <<<<1, 4>>>>)>>

----------------------------------------------------------------------------
(* What the list remembers of the flash.                                   *)
New == [next |-> 0, last |-> <<>>, gc |-> FALSE]

SortIn(last, r) ==
  LET p == Cardinality({i \in 1..Len(last) : last[i].s <= r.s}) IN SubSeq(last, 1, p) \o <<r>> \o SubSeq(last, p + 1, Len(last))

Insert(st, r) ==
  IF Len(st.last) = K /\ st.last[1].s > r.s THEN st
  ELSE LET l == SortIn(IF Len(st.last) = K THEN Tail(st.last) ELSE st.last, r)
       IN [next |-> l[Len(l)].s + 1, last |-> l, gc |-> TRUE]

ScanOf(st, flash) ==
  LET s == FoldLeft(LAMBDA a, r : Insert(a, [s |-> r.s, a |-> r.a, b |-> r.b]), st, Recs(flash))
  IN IF s.last = <<>> THEN [s EXCEPT !.next = 1, !.gc = IF VARIANT = "junk" THEN FALSE ELSE flash # <<>>] ELSE s

Kept(st, i) == \E j \in 1..Len(st.last) : st.last[j].a <= i /\ i <= st.last[j].b


\* the elements that a collection leaves
Gone(st, flash) == SelectSeq([i \in 1..Len(flash) |-> [e |-> flash[i], keep |-> flash[i].k # "X" /\ Kept(st, i)]], LAMBDA x : x.keep)
=============================================================================
