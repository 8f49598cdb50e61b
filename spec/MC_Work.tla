------------------------------- MODULE MC_Work -------------------------------
(***************************************************************************)
(* Every state a few files can be in, and every short sequence of commands *)
(* on them.  What files contain is abstract: three trees, one of them      *)
(* malformed, and sources that are in step with their tree, that are not,  *)
(* or that are no Solidity at all.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Files,     \* how many .tree files
  Commands,  \* how many commands
  Kinds      \* what can be in the place of a source

VARIABLES disk, cmd, todo, loaded, out, failed, skipped, fixed, found, rc,
          before,   \* the disk when the command was issued
          first,    \* the disk in the beginning
          history   \* the commands so far

(* The paths and the contents. *)
Tree(k) == <<"a.tree", "b.tree", "dir/c.tree">>[k]
Source(k) == <<"a.t.sol", "b.t.sol", "dir/c.t.sol">>[k]
Paths == {Tree(k) : k \in 1..Files} \cup {Source(k) : k \in 1..Files} \cup {"nothere.tree", "nothere.t.sol"}
WSolOf(w, p) == CASE p = "nothere.tree" -> "nothere.t.sol"
                  [] OTHER -> Source(CHOOSE k \in 1..Files : Tree(k) = p)

WAdmits(w, t) == t \in {"good", "other"}
WScaffolding(w, t, f) == "scaffold:" \o t
WParses(w, s) == s # "junk"
InStep(t, s) == s \in {"scaffold:" \o t, "repaired:" \o t}
WIssues(w, t, s, f) == IF InStep(t, s) THEN 0 ELSE 2
WRepairing(w, t, s, f) == IF InStep(t, s) THEN s ELSE "repaired:" \o t

W == INSTANCE Workspace WITH
       world <- <<>>,
       OSolOf <- WSolOf, OAdmits <- WAdmits, OScaffolding <- WScaffolding, OParses <- WParses,
       OIssues <- WIssues, ORepairing <- WRepairing

wvars == <<disk, cmd, todo, loaded, out, failed, skipped, fixed, found, rc>>
vars == <<disk, cmd, todo, loaded, out, failed, skipped, fixed, found, rc, before, first, history>>

Is(kind, text) == [kind |-> kind, text |-> text]
TreeStates == {Is("file", "good"), Is("file", "bad"), Is("absent", ""), Is("dir", ""), Is("hidden", "good"), Is("link", "good")}
SourceStates == {Is("absent", ""), Is("file", "scaffold:good"), Is("file", "mine"), Is("file", "junk"),
                 Is("dir", ""), Is("stuck", ""), Is("locked", "mine"), Is("hidden", "mine"), Is("link", "mine")}
Disks == {[p \in Paths |->
             IF \E k \in 1..Files : p = Tree(k) THEN ts[CHOOSE k \in 1..Files : p = Tree(k)]
             ELSE IF \E k \in 1..Files : p = Source(k) THEN ss[CHOOSE k \in 1..Files : p = Source(k)]
             ELSE Is("absent", "")]
           : ts \in [1..Files -> TreeStates], ss \in [1..Files -> {s \in SourceStates : s.kind \in Kinds}]}

FileLists == {<<Tree(1)>>, <<Tree(1), Tree(1)>>}
             \cup (IF Files > 1 THEN {<<Tree(1), Tree(2)>>, <<Tree(2), "nothere.tree", Tree(1)>>} ELSE {<<"nothere.tree", Tree(1)>>})
             \cup (IF Files > 2 THEN {<<Tree(3), Tree(1), Tree(2)>>} ELSE {})
NoFlags == [vmskip |-> FALSE, nomods |-> FALSE, version |-> "0.8.0"]
Cmd(name, fs, w, f, x, s) == [name |-> name, files |-> fs, flags |-> NoFlags, write |-> w, force |-> f, fix |-> x, stdout |-> s]
Cmds == UNION {{Cmd("scaffold", fs, FALSE, FALSE, FALSE, FALSE), Cmd("scaffold", fs, TRUE, FALSE, FALSE, FALSE),
                Cmd("scaffold", fs, TRUE, TRUE, FALSE, FALSE), Cmd("check", fs, FALSE, FALSE, FALSE, FALSE),
                Cmd("check", fs, FALSE, FALSE, TRUE, FALSE), Cmd("check", fs, FALSE, FALSE, TRUE, TRUE)} : fs \in FileLists}
        \cup {Cmd("scaffold", <<Tree(1)>>, FALSE, TRUE, FALSE, FALSE), Cmd("check", <<Tree(1)>>, FALSE, FALSE, FALSE, TRUE)}

Init == \E d \in Disks :
          /\ W!Begin(d)
          /\ before = d /\ first = d
          /\ history = <<>>

Start == /\ Len(history) < Commands
         /\ \E c \in Cmds : W!Issue(c) /\ history' = Append(history, c)
         /\ before' = disk
         /\ UNCHANGED first

Step == /\ W!Advance
        /\ UNCHANGED <<before, first, history>>
        /\ IF rc' # W!Running /\ Len(history) = Commands
           THEN PrintT("CASE " \o ToJson([disk |-> first, commands |-> history]))
           ELSE TRUE

Next == Start \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Ended == rc \in {0, 1}

(* A command that is refused does nothing. *)
RefusedDoesNothing == rc = 2 => disk = before /\ out = <<>> /\ failed = <<>> /\ ((cmd.force /\ ~cmd.write) \/ (cmd.stdout /\ ~cmd.fix))
Range(s) == {s[k] : k \in 1..Len(s)}

(***************************************************************************)
(* C13, C14, C21 on the design.                                            *)
(***************************************************************************)
(* Exactly one thing can happen next, so a command always goes on. *)
GoesOn == rc = W!Running => ENABLED Step

(* Every step brings the end nearer. *)
Measure == Len(todo) * 2 + Len(loaded) + (IF rc = W!Running THEN 1 ELSE 0)
EndsBy == [][rc = W!Running => 2 * Len(todo') + Len(loaded') + (IF rc' = W!Running THEN 1 ELSE 0) < Measure]_vars

(* What is there stays there, unless forced or fixed. *)
NeverOverwrites == [][\A p \in Paths : disk'[p] # disk[p] =>
                       \/ cmd.name = "scaffold" /\ cmd.write /\ (cmd.force \/ disk[p].kind = "absent")
                       \/ cmd.name = "check" /\ cmd.fix /\ ~cmd.stdout /\ disk[p].kind \in {"file", "link"}]_vars

(* Only the sources of the files given, and never anything but a file. *)
OnlyTheirs == \A p \in Paths : disk[p] # before[p] =>
                /\ \E q \in Range(cmd.files) : p = W!SolOf(q)
                /\ disk[p].kind = (IF before[p].kind = "link" THEN "link" ELSE "file")
                /\ before[p].kind \in {"absent", "file", "link"}

(* Every file given is dealt with: it failed, or it is as it should be. *)
TreeOk(p)   == before[p].kind \in {"file", "locked", "link"} /\ WAdmits(<<>>, before[p].text)
SolOk(p)    == before[W!SolOf(p)].kind \in {"file", "locked", "link"} /\ WParses(<<>>, before[W!SolOf(p)].text)
Wanted(p) ==   \* what the file should be, on its own
  LET s == before[W!SolOf(p)]
      t == before[p].text IN
  CASE cmd.name = "scaffold" /\ cmd.write /\ TreeOk(p) /\ s.kind = "absent" -> Is("file", "scaffold:" \o t)
    [] cmd.name = "scaffold" /\ cmd.write /\ cmd.force /\ TreeOk(p) /\ s.kind \in {"file", "link"} -> Is(s.kind, "scaffold:" \o t)
    [] cmd.name = "check" /\ cmd.fix /\ ~cmd.stdout /\ TreeOk(p) /\ SolOk(p) /\ s.kind \in {"file", "link"}
         -> Is(s.kind, WRepairing(<<>>, t, s.text, NoFlags))
    [] OTHER -> s
FailsAlone(p) ==
  LET s == before[W!SolOf(p)] IN
  CASE cmd.name = "scaffold" ->
         ~TreeOk(p) \/ (cmd.write /\ (s.kind = "stuck" \/ (cmd.force /\ s.kind \in {"dir", "locked", "hidden"})))
    [] OTHER -> ~TreeOk(p) \/ ~SolOk(p) \/ (cmd.fix /\ ~cmd.stdout /\ s.kind = "locked")

AsIfAlone == Ended => \A p \in Range(cmd.files) :
  /\ disk[W!SolOf(p)] = Wanted(p)
  /\ p \in Range(failed) <=> FailsAlone(p)

(* The exit status. *)
StatusTells == Ended =>
  (rc = 0 <=> /\ \A p \in Range(cmd.files) : ~FailsAlone(p)
              /\ cmd.name = "check" /\ ~cmd.fix => \A p \in Range(cmd.files) : InStep(before[p].text, before[W!SolOf(p)].text))

(* After --fix there is nothing left to fix. *)
FixSettles == Ended /\ cmd.name = "check" /\ cmd.fix /\ ~cmd.stdout =>
  \A p \in Range(cmd.files) : TreeOk(p) /\ SolOk(p) /\ before[W!SolOf(p)].kind \in {"file", "link"} => InStep(disk[p].text, disk[W!SolOf(p)].text)

(* What is printed is what would be written. *)
PrintsWhatItWrites == Ended /\ cmd.name = "scaffold" /\ ~cmd.write =>
  out = [k \in 1..Len(SelectSeq(cmd.files, TreeOk)) |->
           [path |-> "", text |-> "scaffold:" \o before[SelectSeq(cmd.files, TreeOk)[k]].text]]

(* Every command comes to an end. *)
Terminates == [](rc = W!Running => <>(rc # W!Running))
=============================================================================
