----------------------------- MODULE RoundTrip -----------------------------
(***************************************************************************)
(* C01.  A font file as a set of tables, the font value as what the reader *)
(* merges from the tables, and the writer which derives all tables from    *)
(* the font value.  A field may be stored in several tables, or may be     *)
(* missing from the file; the merge rules resolve this.  The rules are a   *)
(* specification of the library only as far as the round trip is           *)
(* concerned: a font written and read again is Normal(font), and a font    *)
(* which came out of a file is a fixed point.                              *)
(*                                                                         *)
(* Tables are given as sequences of length 0 (missing) or 1.               *)
(*  head  [b, i, rev]           style bits, revision (thousandths * Q)     *)
(*  os2   [w, reg, b, i, o, cap]  weight, selection bits, cap height       *)
(*  name  [b, i, ver]           "Bold"/"Italic" in the subfamily, version  *)
(*  post  [ang, up]             italic angle, underline position (in U-ths)*)
(*  cff   [ver, up, ang]        version, underline position, italic angle  *)
(*  hmtx  w                     advance width                              *)
(* and fam: the family name contains "Bold"; der: height of the letter H   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Q == 10   \* resolution of version numbers beyond the third digit
U == 2    \* resolution of lengths in the CFF table

Has(t) == t # << >>
RoundTo(x, q) == ((x + (q \div 2)) \div q) * q

\* weights are rounded to multiples of 100
Hundred(w) == IF w <= 100 THEN 100 ELSE IF w >= 900 THEN 900 ELSE (((w + 50) \div 100) * 100)
BoldWeight(w) == w # 0 /\ Hundred(w) = 700

\* the words which the name of the style contains
SaysBold(f) == IF f.w # 0 /\ f.w # 400 THEN BoldWeight(f.w) /\ ~f.fam ELSE f.b
SaysItalic(f) == f.i /\ ~f.o

---------------------------------------------------------------------------
(* reader *)

Pick(opts, default) == \* the first alternative which is present
  LET has == {k \in DOMAIN opts : Has(opts[k])}
  IN IF has = {} THEN default ELSE opts[CHOOSE k \in has : \A j \in has : k <= j][1]

Merge(t) ==
  LET o == Has(t.os2)
      w == IF o THEN t.os2[1].w ELSE 0
      ang == Pick(<< IF Has(t.post) THEN << t.post[1].ang >> ELSE << >>,
                     IF Has(t.cff) THEN << t.cff[1].ang >> ELSE << >> >>, 0)
      i == \/ ang # 0
           \/ Has(t.head) /\ t.head[1].i
           \/ o /\ (t.os2[1].i \/ t.os2[1].o)
           \/ Has(t.name) /\ t.name[1].i
      b == \/ IF o THEN t.os2[1].b /\ ~t.os2[1].reg ELSE Has(t.head) /\ t.head[1].b
           \/ Has(t.name) /\ t.name[1].b
           \/ BoldWeight(w)
      ver == Pick(<< IF Has(t.name) /\ t.name[1].ver >= 0 THEN << t.name[1].ver >> ELSE << >>,
                     IF Has(t.head) THEN << t.head[1].rev >> ELSE << >>,
                     IF Has(t.cff) THEN << t.cff[1].ver >> ELSE << >> >>, 0)
      up == Pick(<< IF Has(t.post) THEN << t.post[1].up >> ELSE << >>,
                    IF Has(t.cff) THEN << t.cff[1].up >> ELSE << >> >>, 0)
      cap == IF o /\ t.os2[1].cap > 0 THEN t.os2[1].cap ELSE t.der
  IN [w |-> w, fam |-> t.fam, der |-> t.der,
      ang |-> ang, i |-> i, o |-> o /\ t.os2[1].o, b |-> b,
      reg |-> o /\ t.os2[1].reg /\ ~i /\ ~b,
      ver |-> RoundTo(ver, Q), up |-> RoundTo(up, U), cap |-> cap,
      wd |-> t.wd]

---------------------------------------------------------------------------
(* writer *)

Tables(f) ==
  [fam |-> f.fam, der |-> f.der, wd |-> f.wd,
   head |-> << [b |-> f.b, i |-> f.ang # 0, rev |-> f.ver] >>,
   os2 |-> << [w |-> f.w, reg |-> f.reg, b |-> f.b, i |-> f.ang # 0 /\ ~f.reg, o |-> f.o, cap |-> f.cap] >>,
   name |-> << [b |-> SaysBold(f), i |-> SaysItalic(f), ver |-> RoundTo(f.ver, Q)] >>,
   post |-> << [ang |-> f.ang, up |-> RoundTo(f.up, U)] >>,
   cff |-> << [ver |-> RoundTo(f.ver, Q), up |-> f.up, ang |-> f.ang] >>]

Normal(f) == Merge(Tables(f))

---------------------------------------------------------------------------
(* the style and the heights a font has after it has been written and read *)

NormItalic(f) == f.i \/ f.o \/ f.ang # 0
NormBold(f) == f.b \/ BoldWeight(f.w)
NormRegular(f) == f.reg /\ ~NormItalic(f) /\ ~NormBold(f)
NormCap(f) == IF f.cap > 0 THEN f.cap ELSE f.der

\* what the flags of a font may be: a regular font is not bold or italic
Sensible(f) == f.reg => ~NormItalic(f) /\ ~NormBold(f)
=============================================================================
