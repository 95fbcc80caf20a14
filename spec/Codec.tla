------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The format of elements on the flash, byte for byte.                     *)
(*   start   0, sequence number (4 bytes, little endian)                   *)
(*   data    1, key as a CBOR text string, value in CBOR                   *)
(*   end     2, sequence number, CRC-32/CKSUM over keys and values         *)
(* Bytes are numbers 0..255; words (sequence numbers, checksums) are given *)
(* as four bytes, most significant first.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Zero == <<0, 0, 0, 0>>
NoEl == [k |-> "X", q |-> <<>>, c |-> <<>>, b |-> <<>>]

Enc(el) == CASE el.k = "S" -> <<0>> \o Reverse(el.q)
             [] el.k = "D" -> el.b
             [] el.k = "E" -> <<2>> \o Reverse(el.q) \o Reverse(el.c)
Valid(el) == CASE el.k = "S" -> el.q # Zero
               [] el.k = "D" -> Len(el.b) > 1 /\ el.b[1] = 1
               [] el.k = "E" -> el.q # Zero
               [] OTHER -> FALSE
\* what stored bytes mean
Dec(raw) ==
  LET n == Len(raw)
      q == Reverse(SubSeq(raw, 2, 5))
  IN CASE n = 5 /\ raw[1] = 0 /\ q # Zero -> [k |-> "S", q |-> q, c |-> <<>>, b |-> <<>>]
       [] n > 1 /\ raw[1] = 1             -> [k |-> "D", q |-> <<>>, c |-> <<>>, b |-> raw]
       [] n = 9 /\ raw[1] = 2 /\ q # Zero -> [k |-> "E", q |-> q, c |-> Reverse(SubSeq(raw, 6, 9)), b |-> <<>>]
       [] OTHER -> NoEl

----------------------------------------------------------------------------
\* CRC-32/CKSUM: polynomial 04C11DB7, not reflected, start 0, result complemented
Xor4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
Poly == <<4, 193, 29, 183>>
Shl(a) == LET c(i) == IF i < 4 /\ a[i + 1] >= 128 THEN 1 ELSE 0
          IN [i \in 1..4 |-> ((a[i] * 2) % 256) + c(i)]
Bit(a) == IF a[1] >= 128 THEN Xor4(Shl(a), Poly) ELSE Shl(a)
Byte(x) == Bit(Bit(Bit(Bit(Bit(Bit(Bit(Bit(<<x, 0, 0, 0>>))))))))
Table == [x \in 0..255 |-> Byte(x)]
CrcStep(a, x) == Xor4(<<a[2], a[3], a[4], 0>>, Table[a[1] ^^ x])
Crc(chunks) == LET r == FoldLeft(LAMBDA a, ch : FoldLeft(CrcStep, a, ch), Zero, chunks)
               IN [i \in 1..4 |-> 255 - r[i]]
\* the check value of the catalogue: "123456789"
ASSUME Crc(<<<<49, 50, 51, 52>>, <<>>, <<53, 54, 55, 56, 57>>>>) = <<118, 94, 118, 128>>
ASSUME Crc(<<>>) = <<255, 255, 255, 255>>

----------------------------------------------------------------------------
\* CBOR text string
THead(n) == IF n < 24 THEN <<96 + n>> ELSE IF n < 256 THEN <<120, n>> ELSE <<121, n \div 256, n % 256>>
Text(t) == THead(Len(t)) \o t
\* the text at the start of a key/value pair with the shortest head: <<number of bytes of the head, of the text>>, or <<>>
KeyAt(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET h == IF s[1] \in 96..119 THEN <<1, s[1] - 96>>
                ELSE IF s[1] = 120 /\ Len(s) > 1 THEN <<2, s[2]>>
                ELSE IF s[1] = 121 /\ Len(s) > 2 THEN <<3, s[2] * 256 + s[3]>> ELSE <<>>
       IN IF h = <<>> THEN <<>> ELSE IF h[1] + h[2] <= Len(s) /\ Len(THead(h[2])) = h[1] THEN h ELSE <<>>
\* not a text string, or not all of it there
NoKey(s) == s = <<>> \/ s[1] \div 32 # 3 \/ (s[1] \in 96..119 /\ Len(s) < 1 + s[1] - 96)
            \/ (s[1] = 120 /\ (Len(s) < 2 \/ Len(s) < 2 + s[2]))
            \/ (s[1] = 121 /\ (Len(s) < 3 \/ Len(s) < 3 + s[2] * 256 + s[3]))
Utf8(t) == \A i \in 1..Len(t) : t[i] < 128     \* surely well-formed

----------------------------------------------------------------------------
\* sizes; w is the larger one of read and write granularity
Up(n, w) == ((n + w - 1) \div w) * w
Space(n, w) == Up(8, w) + Up(n, w)
MaxElem(page, w) == page - 2 * w - Up(8, w)
Fits(max, key, val) == 1 + Len(Text(key)) + Len(val) <= max
=============================================================================
