---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Are recorded sessions with bulloak behaviours of Workspace?             *)
(*                                                                         *)
(* A session is a sequence of steps: edits by the user, and commands with  *)
(* what they printed, how they ended and what was on the disk afterwards.  *)
(* Between two observations the command takes the steps of Workspace; at   *)
(* its end, its state is compared with what was seen.                      *)
(*                                                                         *)
(* Whether a tree is accepted and what is wrong with a Solidity file is    *)
(* told by the specification of trees.  The texts that are emitted are     *)
(* those of the same command on one file alone, in an empty directory.     *)
(***************************************************************************)
EXTENDS Solidity, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Prop     == IOEnv.PROP
N        == Len(Sessions)

VARIABLES
  sid,      \* the session
  at,       \* the next step of it
  specs,    \* what its trees say
  disk, cmd, todo, loaded, out, failed, skipped, fixed, found, rc,
  seen,     \* has the last command been compared with what was seen?
  bad       \* complaints

S == Sessions[sid]

(* What the contents mean. *)
Index(seq, p(_))    == CHOOSE k \in 1..Len(seq) : p(seq[k])
SpecOfText(w, t)    == w.specs[Index(w.s.trees, LAMBDA x : x.text = t)]
SolOfText(w, t)     == w.s.sols[Index(w.s.sols, LAMBDA x : x.text = t)]

TSolOf(w, p)   == w.s.solof[p]
TAdmits(w, t)  == SpecOfText(w, t).stage = "ok"
TScaffolding(w, t, fl) == w.s.scaffolds[Index(w.s.scaffolds, LAMBDA x : x.tree = t /\ x.flags = fl)].text
TParses(w, s)  == SolOfText(w, s).st = "ok"
TIssues(w, t, s, fl) == Len(Structural(SpecOfText(w, t), SolOfText(w, s).sol, "", "", fl.nomods))
TRepairing(w, t, s, fl) ==
  w.s.repairs[Index(w.s.repairs, LAMBDA x : x.tree = t /\ x.sol = s /\ x.nomods = fl.nomods)].text

W == INSTANCE Workspace WITH
       world <- [s |-> S, specs |-> specs],
       OSolOf <- TSolOf, OAdmits <- TAdmits, OScaffolding <- TScaffolding, OParses <- TParses,
       OIssues <- TIssues, ORepairing <- TRepairing

Step == S.steps[at]

Init == /\ sid \in 1..N
        /\ at = 1
        /\ specs = [k \in 1..Len(S.trees) |-> ReadFile(S.trees[k].chars)]
        /\ bad = <<>>
        /\ seen = TRUE
        /\ W!Begin(S.disk)

(* The user edits a file. *)
DoEdit == /\ at <= Len(S.steps)
          /\ Step.cmd = "edit"
          /\ W!Edit(Step.path, Step.what)
          /\ at' = at + 1
          /\ seen
          /\ UNCHANGED <<sid, specs, bad, seen>>

(* A command is issued. *)
DoIssue == /\ at <= Len(S.steps)
           /\ Step.cmd \in {"scaffold", "check"}
           /\ seen
           /\ W!Issue(Step.issue)
           /\ seen' = FALSE
           /\ UNCHANGED <<sid, specs, at, bad>>

(* It takes a step. *)
DoAdvance == W!Advance /\ UNCHANGED <<sid, specs, at, bad, seen>>

(* At its end it is compared with what was seen, which is also where the
   next step starts from. *)
Complain(p, what, want, got) ==
  IF want = got THEN <<>> ELSE << [props |-> p, what |-> what, run |-> at, want |-> want, got |-> got] >>

Changed(d, e) == {p \in DOMAIN d : d[p] # e[p]}
Show(d, ps)   == LET seq == SetToSeq(ps) IN [k \in 1..Len(seq) |-> <<seq[k], d[seq[k]]>>]
DiskDiff(p, want, got) ==
  LET ps == Changed(want, got)
  IN IF ps = {} THEN <<>>
     ELSE << [props |-> p, what |-> "the files are not what they should be", run |-> at,
              want |-> Show(want, ps), got |-> Show(got, ps)] >>

Printed(o) == FoldLeft(LAMBDA a, x : a \o x.text \o "\n", "", o)
Trimmed(t) == S.repairs[Index(S.repairs, LAMBDA x : x.text = t)].trimmed
Shown(o)   == [k \in 1..Len(o) |-> [path |-> o[k].path, text |-> Trimmed(o[k].text)]]

Compared(o) ==
  Complain({"C13", "C14", "C21"}, "the command crashed", FALSE, o.crashed)
  \o
  (IF Step.cmd = "scaffold"
   THEN DiskDiff({"C13", "C14"}, disk, o.disk)
        \o Complain({"C13"}, "the skipped files are not told", skipped, o.skipped)
        \o Complain({"C13", "C14"}, "the output is wrong", Printed(out), o.printed)
        \o Complain({"C14"}, "the files that failed are not told", failed, o.failed)
        \o Complain({"C14"}, "a reason is missing", TRUE, o.reasons)
        \o Complain({"C14"}, "the number of failed files is wrong", Len(failed), o.count)
        \o Complain({"C14"}, "the exit status is wrong", rc, o.rc)
   ELSE DiskDiff({"C21"}, disk, o.disk)
        \o Complain({"C21"}, "the output is wrong", Shown(out), o.shown)
        \o Complain({"C21"}, "the number of fixed issues is wrong", IF cmd.fix THEN fixed ELSE 0, o.fixed)
        \o Complain({"C21"}, "the exit status is wrong", rc, o.rc))

Observe == /\ at <= Len(S.steps)
           /\ Step.cmd \in {"scaffold", "check"}
           /\ rc \in {0, 1, 2} /\ ~seen
           /\ bad' = bad \o SelectSeq(Compared(Step.seen), LAMBDA c : Prop \in c.props)
           /\ disk' = Step.seen.disk
           /\ at' = at + 1
           /\ seen' = TRUE
           /\ UNCHANGED <<sid, specs, cmd, todo, loaded, out, failed, skipped, fixed, found, rc>>

Done == /\ at = Len(S.steps) + 1
        /\ (IF bad = <<>> THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> S.id, bad |-> bad])))
        /\ TLCSet(1, TLCGet(1) + 1)
        /\ TLCSet(2, TLCGet(2) + Len(S.steps))
        /\ at' = at + 1
        /\ UNCHANGED <<sid, specs, disk, cmd, todo, loaded, out, failed, skipped, fixed, found, rc, bad, seen>>

Next == DoEdit \/ DoIssue \/ DoAdvance \/ Observe \/ Done
tvars == <<sid, at, specs, bad, seen, disk, cmd, todo, loaded, out, failed, skipped, fixed, found, rc>>
Spec == Init /\ [][Next]_tvars

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
AllJudged == /\ PrintT("JUDGED " \o ToString(TLCGet(1)) \o " of " \o ToString(N)
                       \o " accepted " \o ToString(TLCGet(2)))
             /\ TLCGet(1) = N
=============================================================================
