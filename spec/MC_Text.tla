------------------------------- MODULE MC_Text -------------------------------
(***************************************************************************)
(* All texts put together from a few pieces.  TLC checks the laws of the   *)
(* design on every one of them, and exports them to be replayed on the     *)
(* real tool.                                                              *)
(***************************************************************************)
EXTENDS Laws, Json

CONSTANTS
  Start,      \* what every text starts with
  Pieces,     \* the pieces
  End,        \* what every text ends with
  Most,        \* how many pieces there are at most
  Neutral,    \* check, and export, edits that do not change the meaning?
  OnlyOk      \* export only the texts that are accepted?

VARIABLES n, body, trees, spec
vars == <<n, body, trees, spec>>

Text(b) == Chars(Start \o b \o End)

Read(b) == /\ body' = b
           /\ trees' = ReadTrees(Text(b))
           /\ spec' = SpecOf(trees')

Export(b, s) == IF OnlyOk /\ s.stage # "ok" THEN TRUE
                ELSE PrintT("CASE " \o ToJson([text |-> Start \o b \o End, stage |-> s.stage,
                                                 edits |-> IF Neutral /\ s.stage = "ok"
                                                           THEN LET es == SetToSeq(Edits(Text(b)))
                                                                IN [k \in 1..Len(es) |-> Str(es[k])]
                                                           ELSE <<>>]))

Init == /\ n = 0
        /\ body = ""
        /\ trees = ReadTrees(Text(""))
        /\ spec = SpecOf(trees)
        /\ Export(body, spec)

Next == /\ n < Most
        /\ n' = n + 1
        /\ \E p \in Pieces : Read(body \o p)
        /\ Export(body', spec')

Spec == Init /\ [][Next]_vars

Laws == TextLaws(Text(body), trees, spec)
NeutralEdits == Neutral => EditsAreNeutral(Text(body), spec)
=============================================================================
