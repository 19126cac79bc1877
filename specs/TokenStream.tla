----------------------------- MODULE TokenStream -----------------------------
(***************************************************************************)
(* C19.  The two processes behind the parser of the lookup notation: a     *)
(* lexer, which sends the tokens of the text over an unbuffered channel,   *)
(* the last one being the end of the text or an error, and then closes the *)
(* channel; and the parser, which receives tokens, may put tokens back, and *)
(* gives up at any token it does not like.  Whoever gives up drains the    *)
(* channel.  Quoted strings are read by a third process in the same way if *)
(* Strings is set: the parser may also give up in the middle of a string.  *)
(* Every run must end with all processes finished.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS MaxTokens, MaxRunes, Strings, Drains

VARIABLES
  lexer,   \* "run", "closed"
  left,    \* tokens the lexer has still to send
  parser,  \* "run", "failed", "done"
  backlog, \* tokens put back
  str,     \* "none", "run", "closed": reader of a string
  runes    \* characters it has still to send
vars == <<lexer, left, parser, backlog, str, runes>>

Init == /\ lexer = "run" /\ left \in 1..MaxTokens
        /\ parser = "run" /\ backlog = 0
        /\ str = "none" /\ runes = 0

\* the lexer and the parser meet at the channel
Receive == /\ parser = "run" /\ str = "none" /\ backlog = 0
           /\ lexer = "run" /\ left > 0
           /\ left' = left - 1
           /\ \/ UNCHANGED <<parser, backlog, str, runes>>      \* consumed
              \/ backlog' = 1 /\ UNCHANGED <<parser, str, runes>>  \* put back
              \/ parser' = "failed" /\ UNCHANGED <<backlog, str, runes>>
              \/ /\ Strings
                 /\ str' = "run" /\ runes' \in 0..MaxRunes
                 /\ UNCHANGED <<parser, backlog>>
              \/ left' = 0 /\ parser' = "done" /\ UNCHANGED <<backlog, str, runes>>
           /\ UNCHANGED lexer
Reread == /\ parser = "run" /\ backlog > 0
          /\ backlog' = backlog - 1
          /\ \/ UNCHANGED parser
             \/ parser' = "failed"
          /\ UNCHANGED <<lexer, left, str, runes>>
Close == /\ lexer = "run" /\ left = 0
         /\ lexer' = "closed"
         /\ UNCHANGED <<left, parser, backlog, str, runes>>
\* reading from a closed channel gives the end of the text
AtEnd == /\ parser = "run" /\ backlog = 0 /\ str = "none" /\ lexer = "closed"
         /\ parser' \in {"done", "failed"}
         /\ UNCHANGED <<lexer, left, backlog, str, runes>>
Rune == /\ parser = "run" /\ str = "run" /\ runes > 0
        /\ runes' = runes - 1
        /\ parser' \in {"run", "failed"}
        /\ UNCHANGED <<lexer, left, backlog, str>>
StrClose == /\ str = "run" /\ runes = 0
            /\ str' = "closed"
            /\ UNCHANGED <<lexer, left, parser, backlog, runes>>
StrEnd == /\ parser = "run" /\ str = "closed"
          /\ str' = "none"
          /\ UNCHANGED <<lexer, left, parser, backlog, runes>>
Drain == /\ Drains /\ parser = "failed"
         /\ \/ lexer = "run" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED runes
            \/ str = "run" /\ runes > 0 /\ runes' = runes - 1 /\ UNCHANGED left
         /\ UNCHANGED <<lexer, parser, backlog, str>>

Next == Receive \/ Reread \/ Close \/ AtEnd \/ Rune \/ StrClose \/ StrEnd \/ Drain
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ WF_vars(Close) /\ WF_vars(StrClose) /\ WF_vars(Drain)

Finished == parser # "run" /\ lexer = "closed" /\ str # "run"
Terminates == <>[]Finished
=============================================================================
