----------------------------- MODULE Conformance -----------------------------
(***************************************************************************)
(* Validates what the real bulloak did against the specification.          *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds one case per     *)
(* line.  A case holds the texts of one or more .tree files and what the   *)
(* tool was seen to do with them.  For each case the specification reads   *)
(* the texts, one tree at a time, and then judges the observations.  The   *)
(* environment variable PROP names the property being decided.             *)
(***************************************************************************)
EXTENDS Judge, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
N     == Len(Cases)

VARIABLES
  cid,    \* the case
  phase,  \* open | read | done
  todo,   \* the places of the trees still to be read in the current text
  trees,  \* the trees read so far in the current text
  specs   \* what the texts say, for the texts read so far

vars == <<cid, phase, todo, trees, specs>>

Case == Cases[cid]
Text == Unix(Case.texts[Len(specs) + 1])

Init == /\ cid \in 1..N
        /\ phase = "open"
        /\ todo = <<>>
        /\ trees = <<>>
        /\ specs = <<>>

(* Start the next text: find its trees. *)
Open == /\ phase = "open"
        /\ Len(specs) < Len(Case.texts)
        /\ phase' = "read"
        /\ todo' = Split(Text)
        /\ UNCHANGED <<cid, trees, specs>>

(* Read one tree. *)
Read == /\ phase = "read"
        /\ todo # <<>>
        /\ (IF trees = <<>> THEN TRUE ELSE trees[Len(trees)].stage = "ok")
        /\ trees' = Append(trees, ReadTree(Placed(Text, todo[1])))
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<cid, phase, specs>>

(* The first tree that is wrong ends the text. *)
Reject == /\ phase = "read"
          /\ trees # <<>>
          /\ trees[Len(trees)].stage # "ok"
          /\ specs' = Append(specs, Rejected(trees[Len(trees)].stage, trees[Len(trees)].errs))
          /\ phase' = "open"
          /\ trees' = <<>>
          /\ todo' = <<>>
          /\ UNCHANGED cid

(* All trees are fine: combine them. *)
Finish == /\ phase = "read"
          /\ todo = <<>>
          /\ trees[Len(trees)].stage = "ok"
          /\ specs' = Append(specs, FinishFile([k \in 1..Len(trees) |->
                                                 [root |-> trees[k].root, fns |-> trees[k].fns]]))
          /\ phase' = "open"
          /\ trees' = <<>>
          /\ UNCHANGED <<cid, todo>>

Verdict == /\ phase = "open"
           /\ Len(specs) = Len(Case.texts)
           /\ phase' = "done"
           /\ LET bad == Judge(Prop, Case, specs)
              IN IF bad = <<>> THEN TRUE
                 ELSE PrintT("FAIL " \o ToJson([id |-> Case.id, bad |-> bad]))
           /\ TLCSet(1, TLCGet(1) + 1)
           /\ (IF \E k \in 1..Len(specs) : specs[k].stage = "ok" THEN TLCSet(2, TLCGet(2) + 1) ELSE TRUE)
           /\ UNCHANGED <<cid, todo, trees, specs>>

Next == Open \/ Read \/ Reject \/ Finish \/ Verdict

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The specification itself keeps its promises on every text it reads.     *)
(***************************************************************************)
TreesKeepTheLaws == trees # <<>> => TreeLaws(trees[Len(trees)])

JustRead == phase = "open" /\ specs # <<>>
LastSpec == specs[Len(specs)]

SpecsKeepTheLaws == JustRead =>
  IF LastSpec.stage # "ok" THEN ErrorsInText(Case.texts[Len(specs)], LastSpec)
  ELSE SoundContract(LastSpec) /\ RoundTrip(LastSpec) /\ FlagsAreIndependent(LastSpec)

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)

AllJudged == /\ PrintT("JUDGED " \o ToString(TLCGet(1)) \o " of " \o ToString(N)
                       \o " accepted " \o ToString(TLCGet(2)))
             /\ TLCGet(1) = N
=============================================================================
