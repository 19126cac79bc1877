------------------------------ MODULE MCMetrics -----------------------------
(***************************************************************************)
(* A nondeterministic encoder of the horizontal metrics: any number of     *)
(* long records which is sufficient may be used.  The decoding machine     *)
(* recovers the metrics, and the derived fields bound every glyph.         *)
(* All combinations of the style and permission bits are also enumerated.  *)
(***************************************************************************)
EXTENDS Metrics, TLC, Json, CSV, IOUtils

CONSTANTS MaxGlyphs, Ws, Ls, Boxes
SomeLsb == {-3, 4}
QuickBoxes == {<<0, 0, 0, 0>>, <<-3, -10, 20, 30>>}
DeepBoxes == QuickBoxes \cup {<<5, 7, 2000, 9>>}
VARIABLES w, lsb, ext, n, bits

I16B(v) == LET u == IF v < 0 THEN v + 65536 ELSE v IN <<u \div 256, u % 256>>
Cat(S) == FoldLeft(LAMBDA a, x : a \o x, <<>>, S)
Enc(ww, ll, k) == Cat([i \in 1..Len(ww) |-> IF i <= k THEN I16B(ww[i]) \o I16B(ll[i]) ELSE I16B(ll[i])])

Init == /\ w = <<>> /\ lsb = <<>> /\ ext = <<>> /\ n = 0
        /\ bits = -1
Add == /\ bits = -1 /\ n = 0 /\ Len(w) < MaxGlyphs
       /\ \E a \in Ws, b \in Ls, e \in Boxes : w' = Append(w, a) /\ lsb' = Append(lsb, b) /\ ext' = Append(ext, e)
       /\ UNCHANGED <<n, bits>>
Encode == /\ bits = -1 /\ n = 0 /\ Len(w) > 0
          /\ \E k \in 1..Len(w) : (\A i \in k..Len(w) : w[i] = w[k]) /\ n' = k
          /\ UNCHANGED <<w, lsb, ext, bits>>
Flags == /\ bits = -1 /\ w = <<>> /\ n = 0
         /\ bits' \in 0..511
         /\ UNCHANGED <<w, lsb, ext, n>>
Next == Add \/ Encode \/ Flags
Spec == Init /\ [][Next]_<<w, lsb, ext, n, bits>>

RoundTrip == n > 0 =>
  LET d == Enc(w, lsb, n) IN
  /\ HmtxWf(d, n, Len(w))
  /\ HmtxW(d, n, Len(w)) = w
  /\ HmtxL(d, n, Len(w)) = lsb
\* the derived fields bound the glyphs, and are attained
Derived == n > 0 =>
  \A i \in NonEmpty(ext) :
    /\ MinLsb(lsb, ext) <= lsb[i]
    /\ MaxExtent(lsb, ext) >= lsb[i] + ext[i][3] - ext[i][1]
    /\ MinRsb(w, lsb, ext) <= w[i] - lsb[i] - (ext[i][3] - ext[i][1])
    /\ UnionBox(ext)[1] <= ext[i][1] /\ UnionBox(ext)[4] >= ext[i][4]
\* an exact caret slope is also a good approximation
Slopes == {-30000, -7, -1, 0, 1, 2, 30000}
Carets == bits = 0 => \A a, b \in Slopes : (a # 0 \/ b # 0) =>
             /\ CaretExact(a, b, <<b, a>>)
             /\ (AbsI(a) = 30000 \/ AbsI(b) = 30000) => CaretNear(a, b, <<b, a>>) /\ ~CaretNear(-a, -b, <<b, a>>)
\* every combination of OS/2 bits is recovered from a table
Os2Table(k) ==
  LET sel == (IF Bit(k, 0) THEN 1 ELSE 0) + (IF Bit(k, 1) THEN 32 ELSE 0) + (IF Bit(k, 2) THEN 64 ELSE 0) + (IF Bit(k, 3) THEN 512 ELSE 0)
      ty == (CASE k \div 16 % 4 = 0 -> 0 [] k \div 16 % 4 = 1 -> 8 [] k \div 16 % 4 = 2 -> 4 [] k \div 16 % 4 = 3 -> 2)
            + (IF Bit(k, 6) THEN 256 ELSE 0) + (IF Bit(k, 7) THEN 512 ELSE 0)
  IN [i \in 1..96 |-> CASE i = 2 -> 4
                        [] i \in 9..10 -> I16B(ty)[i - 8]
                        [] i \in 63..64 -> I16B(sel)[i - 62]
                        [] OTHER -> 0]
Bits == bits \in 0..255 =>
  LET b == Os2Table(bits)
      o == Os2(b)
  IN /\ Os2Wf(b)
     /\ <<o.ital, o.bold, o.reg, o.obl>> = <<Bit(bits, 0), Bit(bits, 1), Bit(bits, 2), Bit(bits, 3)>>
     /\ o.perm = bits \div 16 % 4 /\ o.nosub = Bit(bits, 6) /\ o.bmp = Bit(bits, 7)
     /\ Os2Normal(Os2Normal(o)) = Os2Normal(o)

Emit == "CASES" \notin DOMAIN IOEnv \/
        IF n > 0 THEN CSVWrite("%1$s", <<ToJson([w |-> w, lsb |-> lsb, ext |-> ext, n |-> n, d |-> Enc(w, lsb, n)])>>, IOEnv.CASES \o "/hmtx.ndjson")
        ELSE bits = -1 \/ CSVWrite("%1$s", <<ToJson([bits |-> bits])>>, IOEnv.CASES \o "/flags.ndjson")
=============================================================================
