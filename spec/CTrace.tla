------------------------------- MODULE CTrace -------------------------------
(***************************************************************************)
(* Judges what the real flash backend made of elements and stored bytes.   *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
NT == Len(Traces)
Label == IOEnv.LABEL
VARIABLES tr, i, bad, why
vars == <<tr, i, bad, why>>

\* first of the demands that is not met, or ""
First(cs) == IF \A j \in 1..Len(cs) : cs[j][1] THEN <<>>
             ELSE cs[CHOOSE j \in 1..Len(cs) : ~cs[j][1] /\ \A l \in 1..(j - 1) : cs[l][1]]
Mini2(a, b) == IF a < b THEN a ELSE b
Judge(t, ev) ==
  CASE ev.e = "push" ->
       First(<< <<ev.ok = 1 \/ ev.full = 1 \/ Len(Enc(ev.el)) > t.max, {"C16"}, "an element within the limit cannot be stored">>,
                <<ev.ok = 0 \/ ev.raw = Enc(ev.el), {"C16"}, "stored in another format">>,
                <<ev.ok = 0 \/ ev.len = Space(Len(Enc(ev.el)), t.w), {"C16", "C24"}, "length reported by an append">>,
                <<ev.kept = 1, {"C16", "C17", "C01"}, "an append disturbed other elements">> >>)
    [] ev.e = "look" ->
       First(<< <<Len(ev.got) = Len(ev.raws), {"C16", "C03"}, "stored items not presented, or presented twice">>,
                <<\A j \in 1..Mini2(Len(ev.got), Len(ev.raws)) : ev.got[j].el = Dec(ev.raws[j]), {"C16", "C03"}, "stored item decoded wrong">>,
                <<\A j \in 1..Mini2(Len(ev.got), Len(ev.raws)) : ev.got[j].len = Space(Len(ev.raws[j]), t.w), {"C16", "C24"}, "length of a stored item">> >>)
    [] ev.e = "fit" ->
       LET fits == Fits(t.max, ev.key, ev.val)
           kv == Text(ev.key) \o ev.val
           r == ev.raws
       IN First(<< <<(ev.chk = 1) = fits /\ (ev.chk2 = 1) = fits, {"C16"}, "size predicate">>,
                   <<(ev.stored = 1) = fits, {"C16", "C01"}, "a value is storable or not against its size">>,
                   <<(ev.back = 1) = fits, {"C16", "C01", "C03"}, "a value is not read back as it was stored">>,
                   <<~fits \/ (Len(r) = 3 /\ Dec(r[1]).k = "S" /\ r[2] = <<1>> \o kv /\ Dec(r[3]).k = "E" /\ Dec(r[1]).q = Dec(r[3]).q
                               /\ Dec(r[3]).c = Crc(<<kv>>)), {"C16"}, "a record in another format">> >>)
    [] ev.e = "crc" -> First(<< <<ev.got = Crc(ev.chunks), {"C16"}, "checksum">> >>)
    [] ev.e = "kv" ->
       LET s == Tail(ev.raw)  h == KeyAt(s)
       IN First(<< <<~NoKey(s) \/ ev.ok = 0, {"C16"}, "a key where there is none">>,
                   <<h = <<>> \/ ev.ok = 0 \/ (ev.key = SubSeq(s, h[1] + 1, h[1] + h[2]) /\ ev.body = SubSeq(s, h[1] + h[2] + 1, Len(s))),
                     {"C16"}, "key and value taken apart wrong">>,
                   <<h = <<>> \/ ev.ok = 1 \/ ~Utf8(SubSeq(s, h[1] + 1, h[1] + h[2])), {"C16"}, "no key where there is one">> >>)
    [] ev.e = "empty" -> First(<< <<ev.ok = 1 /\ ev.some = 0, {"C16", "C22"}, "the always empty storage holds something or fails">> >>)
    [] ev.e = "panic" -> <<FALSE, {"C16", "C15"}, "panic in the flash backend">>


Init == tr \in 1..NT /\ i = 0
        /\ IF Traces[tr].max = MaxElem(Traces[tr].page, Traces[tr].w) \/ Traces[tr].max = 0 THEN bad = {} /\ why = ""
           ELSE bad = {"C16"} /\ why = "limit of an element"
Next == /\ i < Len(Traces[tr].ev)
        /\ i' = i + 1
        /\ LET j == Judge(Traces[tr], Traces[tr].ev[i + 1])
           IN IF j = <<>> THEN UNCHANGED <<bad, why>>
              ELSE bad' = bad \cup j[2] /\ why' = IF why = "" THEN j[3] ELSE why
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Broken == IF Label = "any" THEN bad # {} ELSE IF Label = "all" THEN bad # {} /\ i = Len(Traces[tr].ev) ELSE Label \in bad
Report == ~Broken \/ (PrintT(<<"BAD", Traces[tr].id, i, why, bad>>) /\ FALSE)
=============================================================================
