------------------------------- MODULE Space -------------------------------
\* How much of the flash is in use: the page ring of the storage queue under any number of write-backs (complete, failed,
\* cut off), collections (complete, cut off) and reboots.  Decides that "out of space" needs a kept span as large as the
\* flash (Bound, the condition Observer!EvFull puts on the real code) and that it never happens if what is kept, what is
\* being written and the remains in between fit (Never), for histories of any length: the state space is finite because
\* pages are counted from the oldest one in use and records by their age.
EXTENDS Integers, Sequences, FiniteSets, Room
CONSTANTS PAGES, \* pages of the ring
          E,     \* usable size of a page
          M,     \* size of the largest element; the smallest one has size 1
          K,     \* records kept
          RMAX,  \* size of a record
          DMAX,  \* remains of interrupted write-backs between two successful ones (0: unlimited)
          VARIANT  \* "none" or a fault put in
VARIABLES pages, \* what each used page holds that is not yet removed: 0 the record being written, a > 0 the a-th newest record,
                 \* -1 remains
          fill,  \* used part of the youngest page
          b,     \* b[a]: bytes appended since the a-th newest record (0: the one being written) began; 0: there is none
          w,     \* bytes of the record being written, 0: none is
          deb,   \* remains since the last successful write-back
          dirty, \* a collection is needed before the next write-back
          full   \* kept span when it ran out of space (0: it did not)
vars == <<pages, fill, b, w, deb, dirty, full>>

Ages == 0..(K + 1)
Tags == {-1} \cup Ages
Kept == {a \in 1..K : b[a] > 0}
Span == IF Kept = {} THEN b[0] ELSE b[CHOOSE a \in Kept : \A x \in Kept : x <= a]

Init == /\ pages = <<{}>> /\ fill = 0 /\ b = [a \in Ages |-> 0] /\ w = 0 /\ deb = 0 /\ dirty = FALSE /\ full = 0

\* The write-back ends without a valid record
Given == /\ pages' = [p \in 1..Len(pages) |-> IF 0 \in pages[p] THEN (pages[p] \ {0}) \cup {-1} ELSE pages[p]]
         /\ w' = 0
         /\ deb' = (IF DMAX = 0 THEN 0 ELSE deb + w)
         /\ b' = [b EXCEPT ![0] = 0]
         /\ dirty' = (VARIANT # "norecord" \/ Kept # {})

\* An element of size z is appended; done: it is the last one of its record
Add(z, done) ==
  LET fits == fill + z <= E
      pg == IF fits THEN [pages EXCEPT ![Len(pages)] = @ \cup {0}] ELSE pages \o <<{0}>>
      up == [a \in Ages |-> IF a = 0 THEN b[0] + z ELSE IF b[a] > 0 THEN b[a] + z ELSE 0]
  IN IF ~fits /\ Len(pages) >= PAGES
     THEN /\ full' = Span
          /\ Given
          /\ UNCHANGED fill
     ELSE /\ fill' = IF fits THEN fill + z ELSE z
          /\ full' = 0
          /\ IF done
             THEN /\ pages' = [p \in 1..Len(pg) |-> {IF t = -1 THEN -1 ELSE t + 1 : t \in pg[p] \ {K + 1}} \cup (pg[p] \cap {K + 1})]
                  /\ b' = [a \in Ages |-> IF a = 0 THEN 0 ELSE up[a - 1]]
                  /\ w' = 0
                  /\ deb' = 0
                  /\ dirty' = TRUE
             ELSE /\ pages' = pg
                  /\ b' = up
                  /\ w' = w + z
                  /\ UNCHANGED <<deb, dirty>>

MayFail == DMAX = 0 \/ deb + w <= DMAX

Begin == w = 0 /\ ~dirty /\ Add(1, FALSE)
Data(z) == w > 0 /\ w + z < RMAX /\ Add(z, FALSE)
End == w > 0 /\ Add(1, TRUE)
Fail == w > 0 /\ MayFail /\ Given /\ full' = 0 /\ UNCHANGED fill

RECURSIVE Lead(_)
Lead(p) == IF Len(p) > 1 /\ Head(p) = {} THEN Lead(Tail(p)) ELSE p
Junk(t) == CASE VARIANT = "remains" -> t = K + 1
             [] VARIANT = "old" -> t = -1
             [] OTHER -> t = K + 1 \/ t = -1
\* A collection that gets as far as page n; cut off (~ok) it has to be done again
Collect(n, ok) ==
  /\ w = 0 /\ dirty
  /\ pages' = Lead([p \in 1..Len(pages) |-> IF p <= n THEN {t \in pages[p] : ~Junk(t)} ELSE pages[p]])
  /\ b' = [b EXCEPT ![K + 1] = 0]
  /\ dirty' = ~ok
  /\ full' = 0
  /\ UNCHANGED <<fill, w, deb>>
\* after a reboot a collection is due whenever there is anything at all
Reboot == /\ w = 0 /\ dirty' = (dirty \/ fill > 0) /\ full' = 0 /\ UNCHANGED <<pages, fill, b, w, deb>>

Next == \/ Begin \/ End \/ Fail \/ Reboot
        \/ \E z \in 1..M : Data(z)
        \/ \E n \in 1..Len(pages) : Collect(n, n = Len(pages) \/ (VARIANT = "bounded" /\ n = 1)) \/ Collect(n, FALSE)
Spec == Init /\ [][Next]_vars

Inv == Len(pages) <= PAGES /\ fill <= E
Bound == full = 0 \/ ~Room(full, PAGES, E - M)
Never == full = 0
\* nothing but the kept records holds on to pages after a collection
Reclaimed == (w = 0 /\ ~dirty) => \A p \in 1..Len(pages) : pages[p] \subseteq 1..K
=============================================================================
