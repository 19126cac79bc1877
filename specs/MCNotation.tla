----------------------------- MODULE MCNotation -----------------------------
(***************************************************************************)
(* C19.  All short descriptions: every kind of lookup, with every sequence *)
(* of up to Depth tokens from the vocabulary of the kind after each of its *)
(* prefixes.  Every text has a meaning or none (Parse is total); what has  *)
(* a meaning is a well-formed list of lookups, and can be written down and *)
(* read back.  The texts are written to a file for replay.                 *)
(***************************************************************************)
EXTENDS Notation, CSV, Json, IOUtils

CONSTANT Depth

F == [n |-> 4, names |-> <<".notdef", "A", "B", "">>, cm |-> <<<<"A", 1>>, <<"B", 2>>, <<"c", 3>>>>,
      letters |-> <<>>, digits |-> <<>>, spaces |-> <<>>]

\* <<prefix, vocabulary>>
Plans == <<
  <<"GSUB1:", <<"A", "3", "->", ",", "-", "\"Bc\"", "||", "\n">>>>,
  <<"GSUB1 -", <<"marks", "-", "rtl", "\n", "A", "->", ";">>>>,
  <<"GSUB1: A -> B", <<",", "A", "B", "->", "||", "\n", "3 -> 0", "B -> 3">>>>,
  <<"GSUB2: A -> ", <<"A", "B", "3", "->", ",", "-", "||", "\n">>>>,
  <<"GSUB3: A -> ", <<"[", "]", "B", "A - 3", "->", ",", "-", "\n">>>>,
  <<"GSUB4: A B -> ", <<"A", "B", "->", ",", "\"AA\"", "||", ";", "GSUB1">>>>,
  <<"GSUB5: class :a: [A] class :b: = [B 3]\n/A/ ", <<":a:", "::", ":b:", "->", "1@0", ",", "||", ":">>>>,
  <<"GSUB5: class :a: = [A] ", <<"class", ":a:", ":b:", "[B]", "[A]", "=", "/B/", "-> 1@0">>>>,
  <<"GSUB5: [A B] ", <<"[B]", "->", "1@0", "2", "@", "||", "A", "\n">>>>,
  <<"GSUB5: A B ", <<"->", "1@0", "||", "\n", "A", "[A]", ",", "/A/ :: ">>>>,
  <<"GSUB6: A ", <<"|", "->", "B", "1@0", ",", "||", "A | B | ">>>>,
  <<"GSUB6: ", <<"|", "[A]", "->", "[B 3]", "1@0", "||", "/A/ ", "::">>>>,
  <<"GSUB6: inputclass :a: [A] backtrackclass :a: [B] lookaheadclass :c: [B] /A/", <<"|", ":a:", ":c:", "::", "->", "1@0", ",">>>>,
  <<"GPOS1: ", <<"A", "[A 3]", "->", "x+1", "y -2", "dx 3", "_", ",">>>>,
  <<"GPOS1: A -> x1 ", <<"||", ",", "B", "-> y+5", "-> dx-3", "[]", "\n", "-> _">>>>,
  <<"GPOS2: A B ", <<"->", "x+1", "&", "_", ",", "A A", "y 2", "||">>>>,
  <<"GPOS2: /A B/ first A, B; second B; x+1,_;dx 2 _", <<"x+3", "_", ",", ";", "&", "||", "\n">>>>,
  <<"GPOS2: /A/", <<"first", "second", ";", ",", "A", "B 3", "_ _", "x+2">>>>,
  <<"GPOS3: A", <<":", "1,2", "to", "3,-4", ";", "B", "\n", "||">>>>,
  <<"GPOS4: mark A: ", <<"0", "1", "@1,2", ";", "mark B", "base 3:", "\n">>>>,
  <<"GPOS4: mark A: 0@0,0; mark B: 1@1,1;", <<"base A", "base B:", "@1,2", ",", ";", "\n", "@">>>>,
  <<"", <<"GSUB1", "A -> B", ":", ";", "\n", "GPOS1", "-> x+1", "#">>>>
>>

VARIABLES plan, text, len

Init == plan \in 1..Len(Plans) /\ text = Plans[plan][1] /\ len = 0
Next == /\ len < Depth
        /\ \E i \in 1..Len(Plans[plan][2]) : text' = text \o " " \o Plans[plan][2][i]
        /\ len' = len + 1
        /\ UNCHANGED plan

Meaning == Parse(F, Str(text))
Correct == LET m == Meaning IN
           m.ok => /\ GoodList(F, m.v)
                   /\ LET q == Parse(F, Written(m.v)) IN q.ok /\ SameList(q.v, m.v)
\* a text is understood as a whole: what follows the end of a text decides
Total == Meaning.ok \in BOOLEAN
Emitted == CSVWrite("%1$s", <<ToJson([text |-> text])>>, IOEnv.CASES \o "/texts.ndjson")
=============================================================================
