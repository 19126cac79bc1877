------------------------------ MODULE ByteView ------------------------------
(***************************************************************************)
(* C17.  A plain random-access view of a sequence of bytes: the abstract   *)
(* machine every table decoder of the library relies on.  The state is     *)
(* the (immutable) input and a position.  Each action is one call of the   *)
(* reader's public interface together with its observable result.          *)
(*                                                                         *)
(* An input is a record [n |-> length, seed |-> s, d |-> explicit bytes]:  *)
(* if d is empty and n > 0, byte i (0-based) is given by Pattern(seed, i). *)
(***************************************************************************)
EXTENDS Integers, Sequences

Pattern(s, i) == ((i * i) \div 7 + 13 * i + 31 * s + i \div 256) % 256

ByteAt(in, i) == IF in.d = <<>> THEN Pattern(in.seed, i) ELSE in.d[i + 1]

Bytes(in, p, n) == [k \in 1..n |-> ByteAt(in, p + k - 1)]

U16At(in, p) == 256 * ByteAt(in, p) + ByteAt(in, p + 1)
I16At(in, p) == LET u == U16At(in, p) IN IF u >= 32768 THEN u - 65536 ELSE u

Fits(in, p, n) == n = 0 \/ p + n <= in.n

-----------------------------------------------------------------------------
(* A result is [ok, val, pos]; ok = FALSE stands for an unexpected-end-of- *)
(* input error.  Results(in, pos, op, arg) is the set of all results the   *)
(* view allows; it is a singleton for everything except failing bulk       *)
(* reads, where the number of bytes consumed before the end is not fixed.  *)

OK(v, p) == [ok |-> TRUE, val |-> v, pos |-> p]
EOF(p)   == [ok |-> FALSE, val |-> <<>>, pos |-> p]

Fixed(in, pos, n, v) == IF Fits(in, pos, n) THEN {OK(v, pos + n)} ELSE {EOF(pos)}

ReadSlice(in, pos) ==
    IF ~Fits(in, pos, 2) THEN {EOF(pos)}
    ELSE LET n == U16At(in, pos) IN
         IF Fits(in, pos + 2, 2 * n)
         THEN {OK([k \in 1..n |-> U16At(in, pos + 2 * k)], pos + 2 + 2 * n)}
         ELSE {EOF(p) : p \in pos..(IF in.n > pos THEN in.n ELSE pos)}

\* Read(buf): all of the buffer, or an error and a correct strict prefix
ReadBulk(in, pos, n) ==
    IF Fits(in, pos, n) THEN {OK(Bytes(in, pos, n), pos + n)}
    ELSE LET avail == IF in.n > pos THEN in.n - pos ELSE 0 IN
         {[ok |-> FALSE, val |-> k, pos |-> pos + k] : k \in 0..avail}

Results(in, pos, op, arg) ==
    CASE op = "seek"    -> {OK(<<>>, arg)}
      [] op = "discard" -> {OK(<<>>, pos + arg)}
      [] op = "pos"     -> {OK(<<pos>>, pos)}
      [] op = "size"    -> {OK(<<in.n>>, pos)}
      [] op = "u8"      -> Fixed(in, pos, 1, IF Fits(in, pos, 1) THEN <<ByteAt(in, pos)>> ELSE <<>>)
      [] op = "u16"     -> Fixed(in, pos, 2, IF Fits(in, pos, 2) THEN <<U16At(in, pos)>> ELSE <<>>)
      [] op = "i16"     -> Fixed(in, pos, 2, IF Fits(in, pos, 2) THEN <<I16At(in, pos)>> ELSE <<>>)
      [] op = "u32"     -> Fixed(in, pos, 4, IF Fits(in, pos, 4)
                                  THEN <<U16At(in, pos), U16At(in, pos + 2)>> ELSE <<>>)
      [] op = "bytes"   -> Fixed(in, pos, arg, IF Fits(in, pos, arg)
                                  THEN Bytes(in, pos, arg) ELSE <<>>)
      [] op = "slice"   -> ReadSlice(in, pos)
      [] op = "read"    -> ReadBulk(in, pos, arg)

\* For failing bulk reads the result value is the number of bytes returned.
\* Membership test which does not enumerate the set of allowed results.
Allowed(in, pos, op, arg, res) ==
    IF op = "read" /\ ~Fits(in, pos, arg)
    THEN /\ ~res.ok
         /\ Len(res.val) < arg
         /\ \/ res.val = <<>>
            \/ Fits(in, pos, Len(res.val)) /\ res.val = Bytes(in, pos, Len(res.val))
         /\ res.pos = pos + Len(res.val)
    ELSE IF op = "slice" /\ Fits(in, pos, 2) /\ ~Fits(in, pos + 2, 2 * U16At(in, pos))
    THEN ~res.ok /\ res.pos >= pos /\ res.pos <= in.n /\ res.val = <<>>
    ELSE res \in Results(in, pos, op, arg)
=============================================================================
