------------------------------- MODULE MCCmap -------------------------------
(***************************************************************************)
(* C09.  All short patterns of gaps, continued runs, repeated glyphs and   *)
(* jumps, placed in the middle and at the end of the code space.  A        *)
(* nondeterministic format 4 encoder may cut the mapping into delta and    *)
(* glyph array segments in any way; the decoding machine must always       *)
(* return the mapping.  Every pattern is emitted for the real encoders.    *)
(***************************************************************************)
EXTENDS Cmap, Json, CSV, IOUtils, TLC

CONSTANTS MaxLen, EncLen   \* pattern length emitted / given to the encoder

Sym == {0, 1, 2, 3}     \* gap, next glyph, same glyph, jump
VARIABLES pat, top, segs, pos

\* glyph of position i (1-based); the wrap of the glyph ids is close to the start
Base(i) == (65534 + i) % W16
RECURSIVE Gid(_, _)
Gid(p, i) == IF i = 0 THEN 65532
             ELSE LET q == Gid(p, i - 1) IN
                  CASE p[i] = 0 -> q [] p[i] = 1 -> (q + 1) % W16 [] p[i] = 2 -> q [] p[i] = 3 -> (q + 7) % W16
M(p) == [i \in 1..Len(p) |-> IF p[i] = 0 THEN 0 ELSE Gid(p, i)]
First == IF top THEN 65536 - Len(pat) ELSE 100

Init == /\ pat \in UNION {[1..n -> Sym] : n \in 1..MaxLen}
        /\ top \in BOOLEAN
        /\ segs = <<>>
        /\ pos = 1

\* the encoder: skip unmapped codes, or emit a segment starting at pos
g(i) == M(pat)[i]
Code(i) == First + i - 1
Skip == pos <= Len(pat) /\ g(pos) = 0 /\ pos' = pos + 1 /\ UNCHANGED segs
DeltaSeg == \E e \in pos..Len(pat) :
   /\ pos <= Len(pat)
   /\ \A i \in pos..e : g(i) = (g(pos) + (i - pos)) % W16
   /\ pos' = e + 1
   /\ segs' = Append(segs, [s |-> Code(pos), e |-> Code(e), d |-> (g(pos) - Code(pos)) % W16, v |-> <<>>])
ValueSeg == \E e \in pos..Len(pat), d \in {0, 5} :
   /\ pos <= Len(pat)
   /\ \A i \in pos..e : g(i) # 0 => (g(i) - d) % W16 # 0
   /\ pos' = e + 1
   /\ segs' = Append(segs, [s |-> Code(pos), e |-> Code(e), d |-> d,
                            v |-> [i \in 1..(e - pos + 1) |-> IF g(pos + i - 1) = 0 THEN 0 ELSE (g(pos + i - 1) - d) % W16]])
Next == /\ Len(pat) <= EncLen
        /\ (Skip \/ DeltaSeg \/ ValueSeg)
        /\ UNCHANGED <<pat, top>>

W(x) == <<x \div 256, x % 256>>
Final == IF segs # <<>> /\ segs[Len(segs)].e = 65535 THEN segs
         ELSE Append(segs, [s |-> 65535, e |-> 65535, d |-> 1, v |-> <<>>])
RECURSIVE ValsBefore(_, _)
ValsBefore(ss, k) == IF k <= 1 THEN 0 ELSE Len(ss[k-1].v) + ValsBefore(ss, k - 1)
Layout(ss) ==
  LET n == Len(ss)
      Col(F(_)) == Flat([k \in 1..n |-> W(F(k))])
      vals == Flat([k \in 1..n |-> ss[k].v])
      ro(k) == IF ss[k].v = <<>> THEN 0 ELSE 2 * (n - k + 1 + ValsBefore(ss, k))
      e == Log2(n)
      len == 16 + 8 * n + 2 * Len(vals)
  IN W(4) \o W(len) \o W(0) \o W(2 * n) \o W(2 * Pow2(e)) \o W(e) \o W(2 * n - 2 * Pow2(e))
     \o Col(LAMBDA k : ss[k].e) \o W(0) \o Col(LAMBDA k : ss[k].s) \o Col(LAMBDA k : ss[k].d) \o Col(ro)
     \o Flat([i \in 1..Len(vals) |-> W(vals[i])])

Want == Canon([i \in 1..Len(pat) |-> <<Code(i), Code(i), g(i)>>])
Faithful == (pos > Len(pat) /\ Len(pat) <= EncLen) =>
   LET b == Layout(Final) IN
     /\ F4Wf(b)
     /\ F4Runs(b) = Want
     /\ \A i \in 1..Len(pat) : F4Lookup(b, Code(i)) = g(i)
     /\ top \/ F4Lookup(b, Code(Len(pat)) + 1) = 0

Emit == (pos = 1 /\ segs = <<>> /\ Len(pat) > 3) =>
   CSVWrite("%1$s", <<ToJson(<<First>> \o M(pat))>>, IOEnv.CASES \o "/patterns.ndjson")
=============================================================================
