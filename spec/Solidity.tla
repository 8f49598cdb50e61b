------------------------------ MODULE Solidity ------------------------------
(***************************************************************************)
(* The Solidity files bulloak writes, and how it compares and repairs the  *)
(* ones it is given.                                                       *)
(*                                                                         *)
(* A specification is what Spec!FinishFile accepts: [contract, fns].       *)
(***************************************************************************)
EXTENDS Report

(***************************************************************************)
(* Scaffold.                                                               *)
(***************************************************************************)
(* flags: [vmskip, nomods, version] *)
Emit(c, fl) ==
  LET shown == SelectSeq(Upto(Len(c.fns)),
                 LAMBDA k : ~(fl.nomods /\ c.fns[k].ty = "modifier"))
      part(f) == [ty |-> f.ty, name |-> f.name, mods |-> f.mods,
                  comments |-> [k \in 1..Len(f.comments) |->
                                 IF f.comments[k] = "" THEN "//" ELSE "// " \o f.comments[k]],
                  skip |-> fl.vmskip /\ f.ty = "function"]
  IN [name |-> Str(ContractIdent(c.contract)),
      version |-> fl.version,
      imports |-> IF fl.vmskip THEN <<"forge-std/Test.sol">> ELSE <<>>,
      bases   |-> IF fl.vmskip THEN <<"Test">> ELSE <<>>,
      parts   |-> [k \in 1..Len(shown) |-> part(c.fns[shown[k]])]]

(***************************************************************************)
(* Check.                                                                  *)
(*                                                                         *)
(* sol: [has, cname, cline, parts]; a part: [ty, name, line].              *)
(***************************************************************************)
Matches(p, f) == p.ty = f.ty /\ p.name = f.name

(* The part that matches f: the first one, or 0. *)
MatchOf(parts, f) ==
  LET ms == SelectSeq(Upto(Len(parts)), LAMBDA k : Matches(parts[k], f))
  IN IF ms = <<>> THEN 0 ELSE ms[1]

(* The functions without a match, by index. *)
MissingFns(c, parts, skipMods) ==
  SelectSeq(Upto(Len(c.fns)),
    LAMBDA k : MatchOf(parts, c.fns[k]) = 0 /\ ~(skipMods /\ c.fns[k].ty = "modifier"))

(* The functions that stand after one that they should precede. *)
Misplaced(c, parts) ==
  LET m == [k \in 1..Len(c.fns) |-> MatchOf(parts, c.fns[k])]
  IN SelectSeq(Upto(Len(c.fns)),
       LAMBDA k : m[k] # 0 /\ \E j \in (k+1)..Len(c.fns) : m[j] # 0 /\ m[j] < m[k])

(* What is wrong, in the order in which it is listed. *)
Problems(c, sol, skipMods) ==
  LET ms == MissingFns(c, sol.parts, skipMods)
      os == Misplaced(c, sol.parts)
  IN IF ~sol.has THEN <<[kind |-> "contract", fn |-> 0]>>
     ELSE (IF sol.cname = Str(ContractIdent(c.contract)) THEN <<>> ELSE <<[kind |-> "name", fn |-> 0]>>)
          \o [k \in 1..Len(ms) |-> [kind |-> "missing", fn |-> ms[k]]]
          \o [k \in 1..Len(os) |-> [kind |-> "order", fn |-> os[k]]]

FixHint(tree) == "run `bulloak check --fix " \o tree \o "`"

Structural(c, sol, tree, file, skipMods) ==
  LET want == Str(ContractIdent(c.contract))
      raw  == Str(c.contract) IN
  IF ~sol.has
  THEN << [msg |-> "contract \"" \o raw \o "\" is missing in .sol",
           help |-> "consider adding a contract with name \"" \o raw \o "\"",
           fix |-> FixHint(tree), loc |-> tree, kind |-> "contract"] >>
  ELSE
    (IF sol.cname = want THEN <<>>
     ELSE << [msg |-> "contract \"" \o want \o "\" is missing in .sol -- found \"" \o sol.cname \o "\" instead",
              help |-> "consider renaming the contract to \"" \o want \o "\"",
              fix |-> FixHint(tree), loc |-> file \o ":" \o ToString(sol.cline), kind |-> "name"] >>)
    \o
    (LET ms == MissingFns(c, sol.parts, skipMods)
     IN [k \in 1..Len(ms) |->
          [msg |-> "function \"" \o c.fns[ms[k]].name \o "\" is missing in .sol", help |-> "",
           fix |-> FixHint(tree), loc |-> tree \o ":" \o ToString(c.fns[ms[k]].sl), kind |-> "missing"]])
    \o
    (LET os == Misplaced(c, sol.parts)
     IN [k \in 1..Len(os) |->
          LET p == sol.parts[MatchOf(sol.parts, c.fns[os[k]])]
          IN [msg |-> "incorrect position for function `" \o p.name \o "`",
              help |-> "consider reordering the function in the file",
              fix |-> FixHint(tree), loc |-> file \o ":" \o ToString(p.line), kind |-> "order"]])

(* The files themselves.  io: what can be read. *)
Unfixable(msg, help, loc) == [msg |-> msg, help |-> help, fix |-> "", loc |-> loc, kind |-> "file"]

(* A violation that prevents the comparison, or none.
   tree/file: paths; treeok: the tree can be read; spec: what it says;
   solst: "missing" | "unreadable" | "unparsable" | "ok". *)
FileViolation(treeok, spec, solst, tree, file) ==
  CASE ~treeok -> <<Unfixable("bulloak couldn't read the file", "", tree)>>
    [] treeok /\ spec.stage # "ok" -> <<Unfixable(CheckText(spec.stage, spec.errs), "", tree)>>
    [] treeok /\ spec.stage = "ok" /\ solst = "missing" ->
         <<Unfixable("the tree is missing its matching Solidity file: " \o tree,
                     "consider running `bulloak scaffold " \o tree \o "`", tree)>>
    [] treeok /\ spec.stage = "ok" /\ solst = "unreadable" ->
         <<Unfixable("bulloak couldn't read the file", "", file)>>
    [] treeok /\ spec.stage = "ok" /\ solst = "unparsable" ->
         <<Unfixable("an error occurred while parsing the solidity file", "", file)>>
    [] OTHER -> <<>>

(***************************************************************************)
(* Check --fix, as a relation between what was there and what is there     *)
(* afterwards.  The ids of the parts say which part of the result is which *)
(* part of the source: an id is the text of the part, formatted.           *)
(***************************************************************************)
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})

SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])
(* s is what is left of t without some of its elements, in the same order *)
RECURSIVE IsSubseq(_, _)
IsSubseq(s, t) ==
  IF s = <<>> THEN TRUE
  ELSE IF t = <<>> THEN FALSE
  ELSE IsSubseq(IF Head(s) = Head(t) THEN Tail(s) ELSE s, Tail(t))
SubBagSeq(s, t)  == \A k \in 1..Len(s) : Count(s, s[k]) <= Count(t, s[k])

(* What has to be added: the missing functions, in order. *)
Added(c, sol, skipMods) ==
  IF ~sol.has THEN c.fns
  ELSE LET ms == MissingFns(c, sol.parts, skipMods) IN [k \in 1..Len(ms) |-> c.fns[ms[k]]]

(* The design of the repair on abstract parts [ty, name, id]: insert every
   missing function after the closest previous one that is there, then, if
   the order is wrong, bring what matches to the front, in order. *)
InsertAfter(parts, k, p) == SubSeq(parts, 1, k) \o <<p>> \o SubSeq(parts, k + 1, Len(parts))

PrevPresent(c, parts, k) ==
  LET ps == {j \in 1..(k-1) : MatchOf(parts, c.fns[j]) # 0}
  IN IF ps = {} THEN 0
     ELSE MatchOf(parts, c.fns[CHOOSE j \in ps : \A i \in ps : i <= j])

New(c, k) == [ty |-> c.fns[k].ty, name |-> c.fns[k].name, id |-> <<"new", k>>, line |-> 0]
InsertFn(c, parts, k) == InsertAfter(parts, PrevPresent(c, parts, k), New(c, k))

InsertMissing(c, parts, skipMods) ==
  LET ms == MissingFns(c, parts, skipMods)
  IN FoldLeft(LAMBDA ps, k : InsertFn(c, ps, k), parts, ms)

SortMatched(c, parts) ==
  IF Misplaced(c, parts) = <<>> THEN parts
  ELSE LET present == SelectSeq(Upto(Len(c.fns)), LAMBDA k : MatchOf(parts, c.fns[k]) # 0)
           front == [k \in 1..Len(present) |-> MatchOf(parts, c.fns[present[k]])]
           rest  == SelectSeq(Upto(Len(parts)), LAMBDA k : \A j \in 1..Len(front) : front[j] # k)
       IN [k \in 1..Len(front) |-> parts[front[k]]] \o [k \in 1..Len(rest) |-> parts[rest[k]]]

Repair(c, parts, skipMods) == SortMatched(c, InsertMissing(c, parts, skipMods))

RepairSol(c, sol, skipMods) ==
  IF ~sol.has
  THEN [has |-> TRUE, cname |-> Str(ContractIdent(c.contract)), cline |-> 1,
        parts |-> [k \in 1..Len(c.fns) |-> New(c, k)]]
  ELSE [sol EXCEPT !.cname = Str(ContractIdent(c.contract)), !.parts = Repair(c, @, skipMods)]

(* One problem repaired. *)
RepairOne(c, sol, p) ==
  CASE p.kind = "contract" -> RepairSol(c, sol, FALSE)
    [] p.kind = "name"     -> [sol EXCEPT !.cname = Str(ContractIdent(c.contract))]
    [] p.kind = "missing"  -> [sol EXCEPT !.parts = InsertFn(c, @, p.fn)]
    [] p.kind = "order"    -> [sol EXCEPT !.parts = SortMatched(c, @)]
=============================================================================
