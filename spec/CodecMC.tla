------------------------------ MODULE CodecMC -------------------------------
(***************************************************************************)
(* The format itself: reading back what was written, unambiguously.        *)
(* Explores all short byte strings over a few telling bytes.               *)
(***************************************************************************)
EXTENDS Codec
CONSTANT MAXLEN
Alpha == {0, 1, 2, 97, 255}
VARIABLE raw
Init == raw = <<>>
Next == Len(raw) < MAXLEN /\ \E x \in (IF Len(raw) > 4 THEN {0, 1, 97} ELSE Alpha) : raw' = Append(raw, x)
Spec == Init /\ [][Next]_raw
\* what is decoded is a valid element, and its encoding is exactly what was stored
Faithful == LET el == Dec(raw) IN el.k = "X" \/ (Valid(el) /\ Enc(el) = raw)
\* every valid element survives
Round == LET q == SubSeq(raw, 1, 4)
             els == (IF Len(raw) >= 4 THEN {[k |-> "S", q |-> q, c |-> <<>>, b |-> <<>>]} ELSE {})
                    \cup (IF Len(raw) >= 8 THEN {[k |-> "E", q |-> q, c |-> SubSeq(raw, 5, 8), b |-> <<>>]} ELSE {})
                    \cup {[k |-> "D", q |-> <<>>, c |-> <<>>, b |-> <<1>> \o raw]}
         IN \A el \in els : Valid(el) => Dec(Enc(el)) = el
\* the key of a pair is found again whatever follows it
Pair == \A n \in 0..Len(raw) :
          LET t == SubSeq(raw, 1, n)  h == KeyAt(Text(t) \o SubSeq(raw, n + 1, Len(raw)))
          IN h # <<>> /\ h[2] = n
\* a pair has a key or has none
One == ~(KeyAt(raw) # <<>> /\ NoKey(raw))
\* a changed byte changes the checksum
Detect == \A i \in 1..Len(raw) : Crc(<<raw>>) # Crc(<<[raw EXCEPT ![i] = (@ + 1) % 256]>>)
\* and so does an inserted or a removed one, wherever the boundaries of the pieces are
Split == \A n \in 0..Len(raw) : Crc(<<SubSeq(raw, 1, n), SubSeq(raw, n + 1, Len(raw))>>) = Crc(<<raw>>)
=============================================================================
