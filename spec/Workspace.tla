------------------------------ MODULE Workspace ------------------------------
(***************************************************************************)
(* The commands, and the files they are run on: which are read, which are  *)
(* written, what is printed, and how a command ends.                       *)
(*                                                                         *)
(* The contents of the files are values this module knows nothing about;   *)
(* what they mean comes in through the operators below.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

(* The first argument of each is the world they are about, see below. *)
CONSTANTS
  OSolOf(_, _),            \* the path of the Solidity file of a .tree file
  OAdmits(_, _),           \* does the tree with this content specify a contract?
  OScaffolding(_, _, _),   \* what is emitted for a tree, given the flags
  OParses(_, _),           \* can this Solidity source be parsed?
  OIssues(_, _, _, _),     \* how many issues there are between tree and source, given the flags
  ORepairing(_, _, _, _)   \* the source, repaired

VARIABLES
  world,    \* what the operators above need to know; it never changes
  disk,     \* what is at every path: [kind, text]
  cmd,      \* the command that is running, or the last one
  todo,     \* its files that have not been looked at
  loaded,   \* check: what was read of the others: [tree, text, sol]
  out,      \* what was printed: [path, text]; scaffold prints no paths
  failed,   \* the files that could not be processed, in the order they were found out
  skipped,  \* scaffold: the files that are there already
  fixed,    \* check: the issues repaired
  found,    \* check: the issues found
  rc        \* the exit status, or one of the following

Running == 100   \* the command has not ended
NotYet  == 101   \* there has been no command

vars == <<disk, cmd, todo, loaded, out, failed, skipped, fixed, found, rc>>

SolOf(p)             == OSolOf(world, p)
Admits(t)            == OAdmits(world, t)
Scaffolding(t, f)    == OScaffolding(world, t, f)
Parses(s)            == OParses(world, s)
Issues(t, s, f)      == OIssues(world, t, s, f)
Repairing(t, s, f)   == ORepairing(world, t, s, f)

(* What can be at a path:
     absent  nothing                  file    a file
     dir     a directory              locked  a file that can't be written
     stuck   nothing, and nothing     hidden  a file that can be neither
             can be created there             read nor written
     link    a symbolic link to a file somewhere else: what is read and
             written is that file, and the link stays a link             *)
Readable(p) == disk[p].kind \in {"file", "locked", "link"}
Exists(p)   == disk[p].kind \notin {"absent", "stuck"}
Writable(p) == disk[p].kind \in {"absent", "file", "link"}
Put(p, text) == disk' = [disk EXCEPT ![p] = [kind |-> IF @.kind = "link" THEN "link" ELSE "file", text |-> text]]

Idle == rc # Running

Begin(d) ==
  /\ disk = d
  /\ cmd = [name |-> "none"]
  /\ todo = <<>> /\ loaded = <<>> /\ out = <<>> /\ failed = <<>> /\ skipped = <<>>
  /\ fixed = 0 /\ found = 0
  /\ rc = NotYet

(* Somebody else changes a file between two commands. *)
Edit(p, what) ==
  /\ Idle
  /\ disk' = [disk EXCEPT ![p] = what]
  /\ UNCHANGED <<cmd, todo, loaded, out, failed, skipped, fixed, found, rc>>

(* c: [name, files, flags, write, force, fix, stdout] *)
Issue(c) ==
  /\ Idle
  /\ cmd' = c /\ todo' = c.files
  /\ loaded' = <<>> /\ out' = <<>> /\ failed' = <<>> /\ skipped' = <<>> /\ fixed' = 0 /\ found' = 0
  /\ rc' = Running
  /\ UNCHANGED disk

Take == todo # <<>> /\ todo' = Tail(todo)
Fail(p) == failed' = Append(failed, p)

(***************************************************************************)
(* Flags that only make sense together are refused on their own.           *)
(***************************************************************************)
Sensible == (cmd.force => cmd.write) /\ (cmd.stdout => cmd.fix)

Refuse ==
  /\ rc = Running /\ ~Sensible
  /\ rc' = 2
  /\ todo' = <<>>
  /\ UNCHANGED <<disk, cmd, loaded, out, failed, skipped, fixed, found>>

(***************************************************************************)
(* scaffold                                                                *)
(***************************************************************************)
Scaffold == rc = Running /\ Sensible /\ cmd.name = "scaffold"
Good(p)  == Readable(p) /\ Admits(disk[p].text)

ScaffoldReject ==
  /\ Scaffold /\ Take
  /\ ~Good(Head(todo))
  /\ Fail(Head(todo))
  /\ UNCHANGED <<disk, cmd, loaded, out, skipped, fixed, found, rc>>

ScaffoldPrint ==
  /\ Scaffold /\ Take
  /\ Good(Head(todo))
  /\ ~cmd.write
  /\ out' = Append(out, [path |-> "", text |-> Scaffolding(disk[Head(todo)].text, cmd.flags)])
  /\ UNCHANGED <<disk, cmd, loaded, failed, skipped, fixed, found, rc>>

ScaffoldSkip ==
  /\ Scaffold /\ Take
  /\ Good(Head(todo))
  /\ cmd.write /\ ~cmd.force /\ Exists(SolOf(Head(todo)))
  /\ skipped' = Append(skipped, SolOf(Head(todo)))
  /\ UNCHANGED <<disk, cmd, loaded, out, failed, fixed, found, rc>>

ScaffoldWrite ==
  /\ Scaffold /\ Take
  /\ Good(Head(todo))
  /\ cmd.write /\ (cmd.force \/ ~Exists(SolOf(Head(todo))))
  /\ IF Writable(SolOf(Head(todo)))
     THEN /\ Put(SolOf(Head(todo)), Scaffolding(disk[Head(todo)].text, cmd.flags))
          /\ UNCHANGED failed
     ELSE Fail(Head(todo)) /\ UNCHANGED disk
  /\ UNCHANGED <<cmd, loaded, out, skipped, fixed, found, rc>>

ScaffoldEnd ==
  /\ Scaffold
  /\ todo = <<>>
  /\ rc' = IF failed = <<>> THEN 0 ELSE 1
  /\ UNCHANGED <<disk, cmd, todo, loaded, out, failed, skipped, fixed, found>>

(***************************************************************************)
(* check: all files are read first.                                        *)
(***************************************************************************)
Check == rc = Running /\ Sensible /\ cmd.name = "check"
Comparable(p) == Good(p) /\ Readable(SolOf(p)) /\ Parses(disk[SolOf(p)].text)

CheckReject ==
  /\ Check /\ Take
  /\ ~Comparable(Head(todo))
  /\ Fail(Head(todo))
  /\ UNCHANGED <<disk, cmd, loaded, out, skipped, fixed, found, rc>>

CheckLoad ==
  /\ Check /\ Take
  /\ Comparable(Head(todo))
  /\ loaded' = Append(loaded, [tree |-> Head(todo), text |-> disk[Head(todo)].text,
                               sol |-> disk[SolOf(Head(todo))].text])
  /\ UNCHANGED <<disk, cmd, out, failed, skipped, fixed, found, rc>>

Next1 == Check /\ todo = <<>> /\ loaded # <<>> /\ loaded' = Tail(loaded)
IssuesOf(l)    == Issues(l.text, l.sol, cmd.flags)
RepairedOf(l)  == Repairing(l.text, l.sol, cmd.flags)

CheckCompare ==
  /\ Next1 /\ ~cmd.fix
  /\ found' = found + IssuesOf(Head(loaded))
  /\ UNCHANGED <<disk, cmd, todo, out, failed, skipped, fixed, rc>>

CheckShow ==
  /\ Next1 /\ cmd.fix /\ cmd.stdout
  /\ out' = Append(out, [path |-> SolOf(Head(loaded).tree), text |-> RepairedOf(Head(loaded))])
  /\ fixed' = fixed + IssuesOf(Head(loaded))
  /\ UNCHANGED <<disk, cmd, todo, failed, skipped, found, rc>>

CheckFix ==
  /\ Next1 /\ cmd.fix /\ ~cmd.stdout
  /\ IF Writable(SolOf(Head(loaded).tree))
     THEN /\ Put(SolOf(Head(loaded).tree), RepairedOf(Head(loaded)))
          /\ fixed' = fixed + IssuesOf(Head(loaded))
          /\ UNCHANGED failed
     ELSE /\ Fail(Head(loaded).tree)
          /\ UNCHANGED <<disk, fixed>>
  /\ UNCHANGED <<cmd, todo, out, skipped, found, rc>>

CheckEnd ==
  /\ Check
  /\ todo = <<>> /\ loaded = <<>>
  /\ rc' = IF failed = <<>> /\ found = 0 THEN 0 ELSE 1
  /\ UNCHANGED <<disk, cmd, todo, loaded, out, failed, skipped, fixed, found>>

(* The next step of a running command; there is always exactly one. *)
Advance ==
  \/ Refuse
  \/ ScaffoldReject \/ ScaffoldPrint \/ ScaffoldSkip \/ ScaffoldWrite \/ ScaffoldEnd
  \/ CheckReject \/ CheckLoad \/ CheckCompare \/ CheckShow \/ CheckFix \/ CheckEnd
=============================================================================
