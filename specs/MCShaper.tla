------------------------------ MODULE MCShaper ------------------------------
(***************************************************************************)
(* C06/C07.  Model-checks the shaping machine over a universe of small     *)
(* lookup lists (a contextual parent, two children) and all sequences over *)
(* a three-letter alphabet up to a given length; the invariants are the    *)
(* machine's own safety properties.  Every initial state is also written   *)
(* as a case which the harness executes on the real shaper.                *)
(***************************************************************************)
EXTENDS ShaperUniverse, Json, CSV

CONSTANTS MaxLen, Mod, EmitMod

Act(i) == <<i \div 2, 1 + (i % 2)>>         \* i \in 0..5: index 0..2, lookup 1..2
Acts(n) == IF n < 6 THEN <<Act(n)>> ELSE <<Act((n - 6) \div 6), Act((n - 6) % 6)>>
NA == 42

Flag(k) == CASE k = 0 -> NoF [] k = 1 -> NoMarks

Tables(i) == [ll |-> <<[fl |-> Flag(i.f), mfs |-> 0, subs |-> <<Parent(i.p, Acts(i.a))>>], Child(i.c), Child(i.d)>>,
              gd |-> GD,
              lk |-> <<0>>]

VARIABLES idx, s, steps

\* A deterministic sample, which depends on the seed: for every table a
\* block of sequences.
Hash(p, f, a, c, d) == (p * 7919 + f * 104729 + a * 1299 + c * 15485 + d * 32452 + Seed * 611953) % 65521

Init == \E p \in 1..NP, f \in 0..1, a \in 0..NA-1, c \in 1..NC, d \in 1..NC :
          /\ Hash(p, f, a, c, d) % Mod = 0
          /\ \E n \in 2..MaxLen : \E k \in 0..Pow(3, n) - 1 :
               /\ idx = [p |-> p, f |-> f, a |-> a, c |-> c, d |-> d, n |-> n, k |-> k]
               /\ s = Begin(Seq3(n, k))
               /\ steps = 0

Next == /\ ~s.done /\ ~s.over
        /\ s' = Step(Tables(idx), s, FALSE)
        /\ steps' = steps + 1
        /\ UNCHANGED idx

In == Seq3(idx.n, idx.k)

Safe == FramesOK(s)
Conserves == Conserved(In, s.seq)
\* every top-level match consumes a glyph, and runs a bounded number of
\* nested actions, so a run is finite
Terminates == steps <= 2 + Len(In) * (2 * Budget + 4)
Progress == (s.stack = <<>> /\ ~s.done) => s.pos <= Len(s.seq) + 1

\* the variant: glyphs still to be scanned; never grows in a scan step
Scan == [][(s.stack = <<>> /\ s'.stack = <<>> /\ s'.li = s.li /\ ~s'.done) => Len(s'.seq) - s'.pos < Len(s.seq) - s.pos]_<<idx, s, steps>>

Emit == (steps = 0 /\ (idx.k + idx.a) % EmitMod = 0) =>
          CSVWrite("%1$s", <<ToJson([ll |-> Tables(idx).ll, gd |-> Tables(idx).gd, lk |-> Tables(idx).lk, in |-> In])>>,
                   IOEnv.CASES \o "/shaper.ndjson")
=============================================================================
