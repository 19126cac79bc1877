---------------------------- MODULE BufferedView ----------------------------
(***************************************************************************)
(* C17.  The design of the buffered reader: a window [from, from+used) of  *)
(* the input is cached, the cursor is at from+pos, and the underlying      *)
(* reader (which may return short reads) is positioned at rpos.  TLC       *)
(* checks that every operation result is one ByteView allows, for all      *)
(* histories over small inputs, buffer sizes and short-read choices.       *)
(***************************************************************************)
EXTENDS ByteView, FiniteSets, TLC

CONSTANTS B,        \* buffer size
          MaxLen,   \* maximal input length
          MaxPos    \* bound on positions (state constraint)

VARIABLES in, buf, from, pos, used, rpos, last
vars == <<in, buf, from, pos, used, rpos, last>>

Inputs == [n : 0..MaxLen, seed : {1}, d : {<<>>}]

Init == /\ in \in Inputs
        /\ buf = <<>> /\ from = 0 /\ pos = 0 /\ used = 0 /\ rpos = 0
        /\ last = [op |-> "size", arg |-> 0, before |-> 0, res |-> OK(<<in.n>>, 0)]

Cursor == from + pos

SeekTo(p, op, arg) ==
    /\ IF p >= from /\ p <= from + used
       THEN pos' = p - from /\ UNCHANGED <<buf, from, used, rpos>>
       ELSE from' = p /\ pos' = 0 /\ used' = 0 /\ rpos' = p /\ buf' = <<>>
    /\ last' = [op |-> op, arg |-> arg, before |-> Cursor, res |-> OK(<<>>, from' + pos')]
    /\ UNCHANGED in

\* The state reached by the refill loop, as a set (short reads are a choice).
\* s = [buf, from, pos, used, rpos, eof]
RECURSIVE Refill(_, _)
Refill(s, n) ==
    IF s.pos + n <= s.used THEN {s}
    ELSE LET kept == SubSeq(s.buf, s.pos + 1, s.used)
             k    == Len(kept)
             room == B - k
             left == IF in.n > s.rpos THEN in.n - s.rpos ELSE 0
             mx   == IF room < left THEN room ELSE left
             t    == [buf |-> kept, from |-> s.from + s.pos, pos |-> 0,
                      used |-> k, rpos |-> s.rpos, eof |-> FALSE]
         IN IF left = 0 THEN {[t EXCEPT !.eof = TRUE]}
            ELSE UNION {Refill([t EXCEPT !.buf = kept \o Bytes(in, s.rpos, l),
                                         !.used = k + l,
                                         !.rpos = s.rpos + l], n) : l \in 1..mx}

Cur == [buf |-> buf, from |-> from, pos |-> pos, used |-> used, rpos |-> rpos, eof |-> FALSE]
Become(s) == /\ buf' = s.buf /\ from' = s.from /\ pos' = s.pos
             /\ used' = s.used /\ rpos' = s.rpos

\* the bytes a successful Refill(_, n) makes available
Got(s, n) == SubSeq(s.buf, s.pos + 1, s.pos + n)

ReadN(op, n, arg) ==
    /\ \E s \in Refill(Cur, n) :
        /\ Become(IF s.eof THEN s ELSE [s EXCEPT !.pos = @ + n])
        /\ last' = [op |-> op, arg |-> arg, before |-> Cursor, res |->
             IF s.eof THEN EOF(s.from + s.pos)
             ELSE LET g == Got(s, n)
                      v == CASE op = "bytes" -> g
                             [] op = "u8" -> g
                             [] op = "u16" -> <<256 * g[1] + g[2]>>
                  IN OK(v, s.from + s.pos + n)]
    /\ UNCHANGED in

\* Read(buf): chunks of at most B bytes
RECURSIVE Chunks(_, _, _)
Chunks(s, n, acc) ==
    IF n = 0 THEN {[s |-> s, ok |-> TRUE, val |-> acc]}
    ELSE LET k == IF n > B THEN B ELSE n IN
         UNION {IF t.eof THEN {[s |-> t, ok |-> FALSE, val |-> acc]}
                ELSE Chunks([t EXCEPT !.pos = @ + k], n - k, acc \o Got(t, k))
                : t \in Refill(s, k)}

ReadBuf(n) ==
    /\ \E r \in Chunks(Cur, n, <<>>) :
        /\ Become(r.s)
        /\ last' = [op |-> "read", arg |-> n, before |-> Cursor,
                    res |-> [ok |-> r.ok, val |-> r.val, pos |-> r.s.from + r.s.pos]]
    /\ UNCHANGED in

Next == \/ \E p \in 0..MaxPos : SeekTo(p, "seek", p)
        \/ \E n \in 0..B : Cursor + n <= MaxPos /\ SeekTo(Cursor + n, "discard", n)
        \/ \E n \in 0..B : ReadN("bytes", n, n)
        \/ ReadN("u8", 1, 0)
        \/ ReadN("u16", 2, 0)
        \/ \E n \in 0..2 * B + 1 : ReadBuf(n)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the cache invariant
Window == /\ pos >= 0 /\ pos <= used /\ used <= B
          /\ used = Len(buf)
          /\ used > 0 => buf = Bytes(in, from, used)
          /\ rpos = from + used

\* every result is one the plain view allows at the position before the call
Observational ==
    /\ Allowed(in, last.before, last.op, last.arg, last.res)
    /\ last.res.pos = Cursor
=============================================================================
