------------------------------ MODULE Totality ------------------------------
(***************************************************************************)
(* C02.  A decode session.  Some bytes are given to a decoder, which       *)
(* answers once: with a value (V) or with an error (E).  If there is a     *)
(* value, it is handed to the library's accessors, one after another, and  *)
(* each of them returns, with a result (v) or an error (e).  Nothing else  *)
(* can happen: a panic of the decoder (P) or of an accessor (p) has no     *)
(* transition, and neither has an accessor after an error.                 *)
(*                                                                         *)
(* What a decoder may cost is bounded by a line: a constant plus a         *)
(* constant for each byte of the input.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

SessionStates == {"idle", "value", "error", "broken"}

After(s, e) ==
  CASE s = "idle" /\ e = "V" -> "value"
    [] s = "idle" /\ e = "E" -> "error"
    [] s = "value" /\ e \in {"v", "e"} -> "value"
    [] OTHER -> "broken"

\* the state after the events of the string ev
RECURSIVE RunFrom(_, _, _)
RunFrom(s, ev, i) == IF i > Len(ev) \/ s = "broken" THEN s
                     ELSE RunFrom(After(s, SubSeq(ev, i, i)), ev, i + 1)
SessionState(ev) == RunFrom("idle", ev, 1)

Complete(ev) == SessionState(ev) \in {"value", "error"}

---------------------------------------------------------------------------
\* Memory, in KiB, and time, in milliseconds, for an input of n bytes.
\* Decoders which follow references may expand what they read; the
\* others produce a bounded amount of data for each byte.
Expanding == {"sfnt", "gsub", "gpos", "gdef", "cff"}
Coverages == {"coverage", "covset", "classdef", "cmap"}

MemConst(k)   == IF k \in Expanding THEN 786432 ELSE IF k \in Coverages THEN 65536 ELSE 16384
MemPerByte(k) == IF k \in Expanding \cup {"glyf"} THEN 4 ELSE 1

MemOK(k, n, kb) == kb <= MemConst(k) + (MemPerByte(k) * n)
TimeOK(k, n, ms) == ms <= 15000 + (n \div 20)
=============================================================================
