-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* The properties, as relations between what the texts say (`specs', one   *)
(* per text) and what the tool was seen to do (`case').  Every judge       *)
(* returns a sequence of complaints; none means that the property held.    *)
(***************************************************************************)
EXTENDS Laws, Json

(***************************************************************************)
(* Helpers.                                                                *)
(***************************************************************************)
Map(f(_), s) == TLCEval([k \in 1..Len(s) |-> f(s[k])])
Filter(s, p(_)) == SelectSeq(s, p)

Complain(what, run, want, got) == << [what |-> what, run |-> run, want |-> want, got |-> got] >>
If(ok, what, run, want, got) == IF ok THEN <<>> ELSE Complain(what, run, want, got)

(* Complaints of all runs. *)
All(runs, j(_, _)) == Concat([k \in 1..Len(runs) |-> j(k, runs[k])])

Flags(r) == [vmskip |-> r.vmskip, nomods |-> r.nomods, version |-> r.version]

(* Texts that reach the output go through the formatter, which trims the
   right of comments. *)
Body(comments) == Map(LAMBDA c : c, comments)

(* The parts the contract must have, in the shape in which they are seen. *)
WantParts(c, r) ==
  Map(LAMBDA p : [ty |-> p.ty, name |-> p.name, mods |-> p.mods, comments |-> p.comments,
                  code |-> IF p.ty = "modifier" THEN "_;" ELSE IF p.skip THEN "vm.skip(true);" ELSE ""],
      Emit(c, Flags(r)).parts)
SeenParts(r) ==
  Map(LAMBDA p : [ty |-> p.ty, name |-> p.name, mods |-> p.mods, comments |-> p.comments, code |-> p.code],
      r.sol.parts)

IsFn(p) == p.ty = "function"
IsMod(p) == p.ty = "modifier"

(* Judges an accepted text: it has to be accepted, and the output readable. *)
Accepted(specs, run, r, j(_, _)) ==
  IF specs[1].stage # "ok" THEN <<>>
  ELSE IF r.rc # 0 \/ r.crashed
       THEN Complain("a well-formed tree is not scaffolded", run, "accepted", [rc |-> r.rc, diags |-> r.diags])
       ELSE IF ~r.sol.ok \/ Len(r.sol.kinds) # 1
            THEN Complain("the output is not a Solidity contract", run, "one contract", r.sol.kinds)
            ELSE j(WantParts(specs[1], r), SeenParts(r))

AllAccepted(case, specs, j(_, _, _)) ==
  All(case.runs, LAMBDA k, r : Accepted(specs, k, r, LAMBDA w, s : j(k, w, s)))

SameBagOf(s, t, f(_)) == SameBag(Map(f, s), Map(f, t))
Texts(errs) == Map(LAMBDA e : ErrText(e), errs)
SeenTexts(r) == Map(LAMBDA d : d.text, r.diags)

(***************************************************************************)
(* C01: every command ends cleanly.                                        *)
(***************************************************************************)
Clean(k, r) ==
  If(~r.crashed /\ r.rc \in {0, 1}, "the command did not end cleanly", k, "exit status 0 or 1", r.rc)
  \o If(r.rc = 1 => r.noisy, "nothing was said about the failure", k, "stderr", "nothing")

J01(case) == All(case.runs, Clean)

(***************************************************************************)
(* C02: the nesting is that of the drawing.                                *)
(***************************************************************************)
J02(case, specs) ==
  AllAccepted(case, specs, LAMBDA k, w, s :
    LET f(p) == <<p.ty, p.mods, p.comments>>
    IN If(SameBagOf(w, s, f), "branches are attached to the wrong condition", k, Map(f, w), Map(f, s)))

(***************************************************************************)
(* C03: exactly the well-formed trees are accepted.                        *)
(***************************************************************************)
J03(case, specs) ==
  LET sp == specs[1]
  IN All(case.runs, LAMBDA k, r :
       IF sp.stage = "ok"
       THEN If(r.rc = 0 /\ r.diags = <<>> /\ ~r.crashed, "a well-formed tree is rejected", k, "accepted",
               SeenTexts(r))
       ELSE If(r.rc = 1 /\ ~r.crashed, "a malformed tree is accepted", k, Texts(sp.errs), r.rc)
            \o If(SeenTexts(r) = Texts(sp.errs), "the diagnosis is wrong", k, Texts(sp.errs), SeenTexts(r))
            \o If(r.empty, "something is emitted for a malformed tree", k, "nothing", "something"))
     \o
     (LET want == FileViolation(TRUE, sp, "missing", case.tree, "")[1].msg
          r == case.check
      IN If(Len(r.viols) = 1 /\ r.viols[1].msg = want, "check says something else", 0, want,
            Map(LAMBDA v : v.msg, r.viols)))

(***************************************************************************)
(* C04: diagnostics are in the right place.                                *)
(***************************************************************************)
J04(case, specs) ==
  LET sp == specs[1]
      t  == Unix(case.texts[1])
      want == Map(LAMBDA e : Diagnostic(t, e), sp.errs)
  IN IF sp.stage = "ok" THEN <<>>
     ELSE All(case.runs, LAMBDA k, r :
            If(Len(r.diags) = Len(want)
               /\ \A d \in 1..Len(want) :
                    /\ r.diags[d].placed = want[d].placed
                    /\ want[d].placed =>
                         /\ r.diags[d].line = want[d].line
                         /\ r.diags[d].col = want[d].col
                         /\ r.diags[d].quoted = want[d].quoted
                         /\ r.diags[d].caretcol = want[d].caretcol
                         /\ r.diags[d].carets = want[d].carets,
               "a diagnostic is in the wrong place", k, want, r.diags))

(***************************************************************************)
(* C05: comments and spacing do not matter.                                *)
(***************************************************************************)
J05(case, specs) ==
  LET base == specs[1]
      what(sp) == [stage |-> sp.stage, contract |-> sp.contract,
                   fns |-> Map(LAMBDA f : [ty |-> f.ty, name |-> f.name, mods |-> f.mods,
                                           comments |-> f.comments], sp.fns)]
  IN (* The specification itself is indifferent to the edits. *)
     Concat([k \in 1..Len(specs) |->
        If(what(specs[k]) = what(base), "SPEC: the variant means something else", k, what(base), what(specs[k]))])
     \o If((base.stage = "ok") = (case.runs[1].rc = 0), "the text is accepted, or not, in spite of what it says", 1,
           base.stage, case.runs[1].rc)
     \o All(case.runs, LAMBDA k, r :
          If(r.rc = case.runs[1].rc /\ r.out = case.runs[1].out /\ ~r.crashed,
             "the variant gives another output", k, case.runs[1].out, r.out))

(***************************************************************************)
(* C06: one test per branch, in order.                                     *)
(***************************************************************************)
First(s) == IF s = <<>> THEN "" ELSE s[1]
Ident(p) == IF IsMod(p) THEN <<p.ty, p.name>> ELSE <<p.ty, First(p.comments)>>

J06(case, specs) ==
  AllAccepted(case, specs, LAMBDA k, w, s :
    If(Map(Ident, w) = Map(Ident, s), "tests are lost, repeated or out of order", k, Map(Ident, w), Map(Ident, s)))

(***************************************************************************)
(* C07: names.                                                             *)
(***************************************************************************)
J07(case, specs) ==
  AllAccepted(case, specs, LAMBDA k, w, s :
    LET f(p) == <<p.ty, p.name, First(p.comments)>>
    IN If(SameBagOf(w, s, f), "names are wrong", k, Map(f, w), Map(f, s)))

(***************************************************************************)
(* C08: modifiers.                                                         *)
(***************************************************************************)
DefinedBefore(parts) ==
  \A i \in 1..Len(parts) : \A m \in 1..Len(parts[i].mods) :
    \E j \in 1..(i-1) : IsMod(parts[j]) /\ parts[j].name = parts[i].mods[m]

J08(case, specs) ==
  AllAccepted(case, specs, LAMBDA k, w, s :
    LET mods(ps) == Map(LAMBDA p : p.name, Filter(ps, IsMod))
        uses(ps) == Map(LAMBDA p : <<First(p.comments), p.mods>>, Filter(ps, IsFn))
    IN If(SameBag(mods(w), mods(s)), "modifiers are not defined once each", k, mods(w), mods(s))
       \o If(SameBag(uses(w), uses(s)), "the wrong modifiers are applied", k, uses(w), uses(s))
       \o If(case.runs[k].nomods \/ DefinedBefore(s), "a modifier is used before it is defined", k,
             "definition first", uses(s)))

(***************************************************************************)
(* C09: bodies.                                                            *)
(***************************************************************************)
J09(case, specs) ==
  AllAccepted(case, specs, LAMBDA k, w, s :
    LET f(p) == <<p.ty, p.name, p.comments, p.code>>
    IN If(SameBagOf(w, s, f), "bodies are wrong", k, Map(f, w), Map(f, s)))

(***************************************************************************)
(* C10: files with several trees.                                          *)
(***************************************************************************)
J10(case, specs) ==
  LET sp == specs[1]
      t  == Unix(case.texts[1])
  IN IF Len(Split(t)) < 2 THEN <<>>
     ELSE IF sp.stage \in {"combine", "admit"}
     THEN All(case.runs, LAMBDA k, r :
            If(r.rc = 1 /\ ~r.crashed /\ SeenTexts(r) = Texts(sp.errs), "trees that cannot be combined are not rejected",
               k, Texts(sp.errs), SeenTexts(r)))
     ELSE AllAccepted(case, specs, LAMBDA k, w, s :
            If(case.runs[k].sol.name = Str(ContractIdent(sp.contract)), "the contract has the wrong name", k,
               sp.contract, case.runs[k].sol.name)
            \o If(w = s, "the contract does not hold the tests of every tree", k, w, s))

(***************************************************************************)
(* C11: valid, self-contained Solidity.                                    *)
(***************************************************************************)
J11(case, specs) ==
  LET sp == specs[1] IN
  All(case.runs, LAMBDA k, r :
    Accepted(specs, k, r, LAMBDA w, s :
      LET names == Map(LAMBDA p : p.name, Filter(r.sol.parts, IsFn)) IN
      If(r.sol.kinds = <<"contract">> /\ r.sol.name = Str(ContractIdent(sp.contract)),
         "not exactly the contract named by the root", k, sp.contract, <<r.sol.kinds, r.sol.name>>)
      \o If(r.sol.spdx /\ r.sol.pragmas = <<"pragma solidity " \o r.version>>,
            "the header is wrong", k, r.version, r.sol.pragmas)
      \o If(r.sol.others = 0, "there is something else in the file", k, 0, r.sol.others)
      \o If(r.sol.imports = (IF r.vmskip THEN <<"forge-std/Test.sol">> ELSE <<>>),
            "the imports are wrong", k, r.vmskip, r.sol.imports)
      \o If(\A i \in 1..Len(names) : Count(names, names[i]) = 1, "tests share a name", k, "distinct names", names)
      \o If(\A i \in 1..Len(r.sol.parts) :
               LET p == r.sol.parts[i] IN
               /\ p.ty \in {"function", "modifier"}
               /\ IsFn(p) => p.attrs = <<"external">> /\ p.params = 0 /\ p.returns = 0
               /\ IsMod(p) => p.attrs = <<>> /\ p.params = 0,
            "a test has the wrong signature", k, "external, nothing else",
            Map(LAMBDA p : <<p.ty, p.name, p.attrs>>, r.sol.parts))
      \o If(r.nomods \/ \A i \in 1..Len(s) : \A m \in 1..Len(s[i].mods) :
               \E j \in 1..Len(s) : IsMod(s[j]) /\ s[j].name = s[i].mods[m],
            "an undefined modifier is applied", k, "definitions", Map(LAMBDA p : <<p.ty, p.name, p.mods>>, s))))

(***************************************************************************)
(* C12: flags.                                                             *)
(***************************************************************************)
J12(case, specs) ==
  LET sp == specs[1] IN
  All(case.runs, LAMBDA k, r :
    Accepted(specs, k, r, LAMBDA w, s :
      LET e == Emit(sp, Flags(r)) IN
      If(r.sol.pragmas = <<"pragma solidity " \o e.version>>, "the version is wrong", k, e.version,
         r.sol.pragmas)
      \o If(r.sol.imports = e.imports /\ r.sol.bases = e.bases, "the import or the base is wrong", k,
            <<e.imports, e.bases>>, <<r.sol.imports, r.sol.bases>>)
      \o If(w = s, "the flags change something else", k, w, s)))

(***************************************************************************)
(* C22: the same command gives the same result.                            *)
(***************************************************************************)
(* Several files in some order are as each of them alone, in that order. *)
J22Order(case) ==
  LET got == case.all
      each(f(_)) == Concat([k \in 1..Len(case.alone) |-> f(case.alone[k])])
      outs == FoldLeft(LAMBDA a, x : a \o x.out, "", case.alone)
  IN If(~got.crashed /\ \A k \in 1..Len(case.alone) : ~case.alone[k].crashed, "a command crashed", 0, FALSE, TRUE)
     \o If(got.out = outs, "what is printed is not what is printed for each file", 0, outs, got.out)
     \o If(got.failed = each(LAMBDA x : x.failed), "not the files that fail alone", 0, each(LAMBDA x : x.failed), got.failed)
     \o If(got.first = each(LAMBDA x : x.first) /\ got.then = each(LAMBDA x : x.then),
           "not the violations of each file", 0, each(LAMBDA x : x.first \o x.then), got.first \o got.then)
     \o If(got.shown = each(LAMBDA x : x.shown), "not the repairs of each file", 0, each(LAMBDA x : x.shown), got.shown)

J22(case, specs) ==
  IF case.kind = "order" THEN J22Order(case) ELSE
  All(case.runs, LAMBDA k, r :
    If(r.rc = case.runs[1].rc /\ r.out = case.runs[1].out /\ r.err = case.runs[1].err,
       "repeating the command gives another result", k,
       [out |-> case.runs[1].out, err |-> case.runs[1].err], [out |-> r.out, err |-> r.err]))
  \o
  (IF case.kind # "scaffold" THEN <<>>
   ELSE LET want == Texts(specs[1].errs)
        IN All(case.runs, LAMBDA k, r :
             If(SameBag(want, SeenTexts(r)) => want = SeenTexts(r), "problems are not listed in the order of the tree", k,
                want, SeenTexts(r))))

(***************************************************************************)
(* bulloak check.                                                          *)
(*                                                                         *)
(* case.entries[k] describes the k-th file: [tree, file, treeok, solst,    *)
(* sol]; specs[k] is what its tree says.                                   *)
(***************************************************************************)
Whole(case, specs, k) ==
  LET e == case.entries[k] IN FileViolation(e.treeok, specs[k], e.solst, e.tree, e.file)

StructuralOf(case, specs, k, nomods) ==
  LET e == case.entries[k]
  IN IF Whole(case, specs, k) # <<>> THEN <<>> ELSE Structural(specs[k], e.sol, e.tree, e.file, nomods)

(* All the violations of a batch: first those that prevent a comparison. *)
WantViols(case, specs, nomods) ==
  Concat([k \in 1..Len(case.entries) |-> Whole(case, specs, k)])
  \o Concat([k \in 1..Len(case.entries) |-> StructuralOf(case, specs, k, nomods)])

MsgOf(v) == v.msg
OfKind(vs, kinds) == Filter(vs, LAMBDA v : v.kind \in kinds)
(* What is seen does not say its kind, but messages do. *)
SeenKind(v) == v.kind

J15(case, specs) ==
  All(case.runs, LAMBDA k, r :
    LET want == Map(MsgOf, OfKind(WantViols(case, specs, r.nomods), {"missing"}))
        got  == Map(MsgOf, OfKind(r.viols, {"missing"}))
    IN If(~r.crashed /\ SameBag(want, got), "missing functions are misreported", k, want, got))

J16(case, specs) ==
  All(case.runs, LAMBDA k, r :
    LET want == Map(MsgOf, OfKind(WantViols(case, specs, r.nomods), {"order"}))
        got  == Map(MsgOf, OfKind(r.viols, {"order"}))
    IN If(~r.crashed /\ SameBag(want, got), "misplaced functions are misreported", k, want, got))

J17(case, specs) ==
  All(case.runs, LAMBDA k, r :
    LET kinds == {"file", "contract", "name"}
        f(v) == <<v.msg, v.help>>
        all  == WantViols(case, specs, r.nomods)
        want == Map(f, OfKind(all, kinds))
        got  == Map(f, OfKind(r.viols, kinds))
        rest(vs) == Map(f, Filter(vs, LAMBDA v : v.kind \notin kinds))
    IN If(~r.crashed /\ SameBag(want, got), "problems of files and contracts are misreported", k, want, got)
       \o If(SameBag(rest(all), rest(r.viols)), "functions are compared, or not, in spite of what is wrong", k,
             rest(all), rest(r.viols)))

J23(case, specs) ==
  All(case.runs, LAMBDA k, r :
    LET want == WantViols(case, specs, r.nomods)
        fixable == Len(Filter(want, LAMBDA v : v.kind # "file"))
        f(v) == <<v.msg, v.help, v.fix, v.loc>>
    IN If(~r.crashed /\ SameBag(Map(f, want), Map(f, r.viols)), "not the problems of every file", k,
          Map(f, want), Map(f, r.viols))
       \o If(r.rc = (IF want = <<>> THEN 0 ELSE 1), "the exit status is wrong", k, Len(want), r.rc)
       \o If(r.success = (want = <<>>), "the success message is wrong", k, Len(want), r.success)
       \o If(want # <<>> => r.failed = Len(want) /\ r.fixable = fixable, "the totals are wrong", k,
             <<Len(want), fixable>>, <<r.failed, r.fixable>>))
  \o
  All(case.fixes, LAMBDA k, r :
    LET bad == \E e \in 1..Len(case.entries) : Whole(case, specs, e) # <<>>
        want == Concat([e \in 1..Len(case.entries) |-> Whole(case, specs, e)])
    IN If(~r.crashed /\ r.rc = (IF bad THEN 1 ELSE 0), "the exit status of --fix is wrong", k, bad, r.rc)
       \o If(bad => r.failed = Len(want) /\ SameBag(Map(MsgOf, want), Map(MsgOf, r.viols)),
             "what --fix could not process is misreported", k, Map(MsgOf, want), Map(MsgOf, r.viols)))

J24(case, specs) ==
  All(case.runs, LAMBDA k, r :
    LET f(v) == <<v.msg, v.loc, v.fix>>
        want == Map(f, WantViols(case, specs, r.nomods))
        got  == Map(f, r.viols)
    IN If(~r.crashed /\ SameBag(want, got), "violations point at the wrong place", k, want, got))

(* Scaffold, then check. *)
J18(case, specs) ==
  IF specs[1].stage # "ok" THEN <<>>
  ELSE All(case.rounds, LAMBDA k, r :
    LET mods == Map(LAMBDA f : "function \"" \o f.name \o "\" is missing in .sol", Filter(specs[1].fns, IsMod))
        want == IF r.scaffoldm /\ ~r.checkm THEN mods ELSE <<>>
    IN If(r.wrote, "scaffold writes nothing", k, "a file", "none")
       \o If(~r.crashed /\ SameBag(want, Map(MsgOf, r.viols)) /\ r.rc = (IF want = <<>> THEN 0 ELSE 1),
             "check does not accept what scaffold wrote", k, want, Map(MsgOf, r.viols))
       \o If(r.refixed = 0 /\ r.same, "check --fix changes what scaffold wrote", k, 0, r.refixed))

(***************************************************************************)
(* bulloak check --fix.                                                    *)
(*                                                                         *)
(* A repair: the flags, the run of --fix, a check afterwards, a second     *)
(* --fix, and for each entry what was there before (formatted) and after.  *)
(***************************************************************************)
Comparable(case, specs, k) == Whole(case, specs, k) = <<>>

J19(case, specs) ==
  All(case.repairs, LAMBDA k, r :
    LET lead == Concat([e \in 1..Len(case.entries) |-> Whole(case, specs, e)])
        n == Len(Concat([e \in 1..Len(case.entries) |-> StructuralOf(case, specs, e, r.nomods)]))
    IN If(~r.fix.crashed /\ r.fix.fixed = n, "the number of issues fixed is wrong", k, n, r.fix.fixed)
       \o If(~r.recheck.crashed /\ SameBag(Map(MsgOf, r.recheck.viols), Map(MsgOf, lead)),
             "check still finds issues after --fix", k, Map(MsgOf, lead), Map(MsgOf, r.recheck.viols))
       \o If(r.recheck.rc = (IF lead = <<>> THEN 0 ELSE 1), "the exit status of check after --fix is wrong", k,
             Len(lead), r.recheck.rc)
       \o If(~r.again.crashed /\ r.again.fixed = 0, "a second --fix fixes something", k, 0, r.again.fixed)
       \o If(r.unchanged, "a second --fix changes a file", k, "no change", "changes"))

(* What is seen of a file after the repair, compared with what was there. *)
Id(p) == p.text
IsSpecified(c, p) == \E i \in 1..Len(c.fns) : Matches(p, c.fns[i])

(* An added part is the one that scaffold would emit. *)
Generated(c, p) ==
  \E i \in 1..Len(c.fns) :
    /\ Matches(p, c.fns[i])
    /\ p.mods = c.fns[i].mods
    /\ p.comments = Map(LAMBDA t : IF t = "" THEN "//" ELSE "// " \o t, c.fns[i].comments)
    /\ p.code = (IF p.ty = "modifier" THEN "_;" ELSE "")
    /\ p.attrs = (IF p.ty = "modifier" THEN <<>> ELSE <<"external">>)
    /\ p.params = 0 /\ p.returns = 0

Diff(s, t) == \* the elements of s beyond those of t
  LET keep(k) == Cardinality({j \in 1..k : s[j] = s[k]}) > Count(t, s[k])
  IN Map(LAMBDA k : s[k], SelectSeq(Upto(Len(s)), keep))

Separator ==
  << "// <<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<",
     "// ==================== BULLOAK AUTOGENERATED SEPARATOR ====================",
     "// >>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>",
     "//    Code below this section could not be automatically moved by bulloak",
     "// =========================================================================" >>

RepairOf(c, before, after, nomods, k) ==
  LET sol0 == [has |-> before.has, cname |-> before.cname, parts |-> before.parts]
      want == Added(c, sol0, nomods)
      (* parts that appeared *)
      newparts == LET ids == Diff(Map(Id, after.parts), Map(Id, before.parts))
                      isnew(p) == Count(ids, p.text) > 0
                  IN Filter(after.parts, isnew)
      wantcomments == Concat(Map(LAMBDA f : Map(LAMBDA t : IF t = "" THEN "//" ELSE "// " \o t, f.comments), want))
      foreign(ps) == Map(Id, Filter(ps, LAMBDA p : ~IsSpecified(c, p)))
      extra == Diff(after.comments, before.comments)
      ordered == Misplaced(c, InsertMissing(c, before.parts, nomods)) = <<>>
      kept(ps) == Map(Id, Filter(ps, LAMBDA p : Count(Map(Id, before.parts), p.text) > 0))
  IN IF ~after.ok THEN Complain("the result does not parse", k, "Solidity", "something else")
     ELSE
     If(SubBagSeq(Map(Id, before.parts), Map(Id, after.parts)), "parts of the contract are lost or changed", k,
        Map(Id, before.parts), Map(Id, after.parts))
     \o If(after.tops = (IF before.has THEN before.tops
                         ELSE IF before.blank THEN <<"pragma solidity 0.8.0", "contract">> ELSE before.tops \o <<"contract">>),
           "other parts of the file are lost, changed or added", k, before.tops, after.tops)
     \o If(SubBagSeq(before.comments, after.comments), "comments are lost", k, before.comments, after.comments)
     \o If(SameBag(Map(LAMBDA p : <<p.ty, p.name>>, newparts), Map(LAMBDA f : <<f.ty, f.name>>, want))
           /\ \A i \in 1..Len(newparts) : Generated(c, newparts[i]),
           "what is added is not what scaffold would emit", k, want, newparts)
     \o If(SameBag(extra, wantcomments) \/ (~ordered /\ SameBag(extra, wantcomments \o Separator))
           \/ (before.blank /\ SameBag(extra, wantcomments \o <<"// SPDX-License-Identifier: UNLICENSED">>)),
           "comments are added", k, wantcomments, extra)
     \o If(ordered => IsSubseq(before.comments, after.comments), "comments are moved", k, before.comments, after.comments)
     \o If(after.has /\ after.cname = Str(ContractIdent(c.contract)), "the contract has the wrong name", k,
           c.contract, after.cname)
     \o If(before.has => after.rest = before.rest, "another contract, or the header of this one, is changed", k,
           before.rest, after.rest)
     \o If(foreign(before.parts) = foreign(after.parts), "foreign code is reordered", k, foreign(before.parts),
           foreign(after.parts))
     \o If(ordered /\ before.has => kept(after.parts) = Map(Id, before.parts), "functions in order are moved", k,
           Map(Id, before.parts), kept(after.parts))
     \o If(Structural(c, [sol0 EXCEPT !.parts = before.parts] @@ [cline |-> 1], "", "", nomods) = <<>>
             => after.src = before.src,
           "a file with nothing to fix is more than formatted", k, before.src, after.src)

J20(case, specs) ==
  All(case.repairs, LAMBDA k, r :
    If(~r.fix.crashed, "--fix crashes", k, "an end", r.fix.rc)
    \o Concat([e \in 1..Len(case.entries) |->
         IF ~Comparable(case, specs, e) THEN <<>>
         ELSE RepairOf(specs[e], r.before[e], r.after[e], r.nomods, k)]))

(***************************************************************************)
(* C25: the syntax trees of the library.  Every branch comes in the order  *)
(* in which it is drawn, and extends from its connector to the last word   *)
(* of what hangs from it.                                                  *)
(***************************************************************************)
TreeView(placed, off) ==
  LET toks  == Lex(placed).toks
      nodes == Parse(toks).nodes
      end(i) == EndTok(toks, nodes, i)
      (* the last character of a token *)
      eo(tk) == off[tk.so + Len(tk.w)]
      title(i) ==
        LET nd == nodes[i] IN
        CASE nd.kind = "cond" -> Str(CondTitle(nd))
          [] nd.kind = "desc" -> Str(Spaces(nd.sc - nodes[nd.parent].sc) \o nd.title)
          [] OTHER            -> Str(nd.title)
      branch(i) == [kind |-> nodes[i].kind, title |-> title(i), parent |-> nodes[i].parent,
                    sl |-> nodes[i].sl, sc |-> nodes[i].sc, so |-> off[nodes[i].so + 1],
                    el |-> end(i).el, ec |-> end(i).ec, eo |-> eo(end(i))]
      last == IF nodes = <<>> THEN toks[1] ELSE toks[Len(toks)]
  IN [root  |-> [kind |-> "root", title |-> Str(toks[1].w), parent |-> 0,
                 sl |-> toks[1].sl, sc |-> toks[1].sc, so |-> off[toks[1].so + 1],
                 el |-> last.el, ec |-> last.ec, eo |-> eo(last)],
      nodes |-> TLCEval([i \in 1..Len(nodes) |-> branch(i)])]

(* White space before a root, on its line, counts as one byte per character. *)
RECURSIVE IsIndent(_, _, _)
IsIndent(u, i, root) == i < root /\ u[i] # "\n" /\ (i + 1 = root \/ IsIndent(u, i + 1, root))

TreeViews(text) ==
  LET u == Unix(text) places == Split(u)
      at(c) == Offsets(TLCEval([i \in 1..c[2] |-> IF IsIndent(u, i, c[1]) THEN " " ELSE u[i]]))
  IN TLCEval([k \in 1..Len(places) |-> TreeView(Placed(u, places[k]), TLCEval(at(places[k])))])

(* The trees themselves are fine, whether or not they go together. *)
TreesAreFine(sp) == sp.stage \in {"ok", "combine", "admit"}

Placing(d) == IF d.placed THEN <<d.text, d.line, d.col>> ELSE <<d.text>>
SaysWhy(r, sp, text) ==
  LET want == Map(LAMBDA e : LET d == Diagnostic(Unix(text), e)
                             IN IF d.placed THEN <<d.text, d.line, d.col>> ELSE <<d.text>>, sp.errs)
  IN ~r.ok /\ ~r.panicked /\ Map(Placing, r.diags) = want

J25(case, specs) ==
  LET sp == specs[1] IN
  All(case.runs, LAMBDA k, r :
    IF TreesAreFine(sp)
    THEN LET want == TreeViews(case.texts[1])
         IN If(r.ok /\ r.trees = want, "the syntax trees are not the drawing", k, want, IF r.ok THEN r.trees ELSE r.diags)
    ELSE If(SaysWhy(r, sp, case.texts[1]), "a malformed text is parsed, or rejected for something else", k, Texts(sp.errs),
            IF r.ok THEN r.trees ELSE r.diags))

(***************************************************************************)
(* C26: the intermediate representation, the emitted code and the problems *)
(* given by the library are those of the commands.                         *)
(***************************************************************************)
FnView(f, branches, vmskip) ==
  LET b == SelectSeq(branches, LAMBDA n : n.sl = f.sl /\ n.sc = f.sc)[1]
  IN [ty |-> f.ty, name |-> f.name, mods |-> f.mods, comments |-> f.comments,
      skips |-> IF f.ty = "function" /\ vmskip THEN 1 ELSE 0, others |-> 0,
      sl |-> f.sl, sc |-> f.sc, el |-> b.el, ec |-> b.ec, so |-> b.so, eo |-> b.eo]

J26(case, specs) ==
  LET sp == specs[1]
      views == TreeViews(case.texts[1])
      branches == Concat([k \in 1..Len(views) |-> views[k].nodes])
      want(r) == Map(LAMBDA f : FnView(f, branches, r.vmskip), sp.fns)
  IN All(case.runs, LAMBDA k, r :
       IF sp.stage = "ok"
       THEN LET w == want(r) IN
            If(r.hir.ok /\ r.hir.contracts = 1 /\ r.hir.others = 0 /\ r.hir.name = Str(sp.contract),
               "the representation is not one contract named by the root", k, sp.contract, r.hir)
            \o If(r.hir.parts = w, "the representation does not hold the tests of the tree", k, w, r.hir.parts)
            \o If(r.emit.ok /\ r.rc = 0 /\ r.emit.out = r.out, "the library emits something else than the command", k, r.out, r.emit)
            \o If(r.check = r.said, "the library finds other problems than the command", k, r.said, r.check)
       ELSE If(SaysWhy(r.hir, sp, case.texts[1]) /\ SaysWhy(r.emit, sp, case.texts[1]),
               "a malformed text is translated, or rejected for something else", k, Texts(sp.errs), <<r.hir, r.emit>>)
            \o If(r.check = r.said, "the library finds other problems than the command", k, r.said, r.check))

(***************************************************************************)
(* C27: problems repaired one by one.                                      *)
(***************************************************************************)
Bare(parts) == Map(LAMBDA p : <<p.ty, p.name>>, parts)

(* Every step is a repair of one of the problems there are or, in a stale run, of
   those there were at first (but for the order). *)
J27(case, specs) ==
  LET sp == specs[1]
      ours(p) == \E k \in 1..Len(sp.fns) : Matches(p, sp.fns[k])
      foreign(ps) == Bare(Filter(ps, LAMBDA p : ~ours(p)))
      step(k, r, i) ==
        LET now  == r.steps[i]
            base == IF r.stale THEN r.steps[1].sol ELSE now.sol
            all  == Problems(sp, base, r.nomods)
            told == Structural(sp, base, case.tree, case.file, r.nomods)
            mine == SelectSeq(Upto(Len(all)), LAMBDA j : ~(r.stale /\ all[j].kind = "order"))
            here == [j \in 1..Len(mine) |-> told[mine[j]]]
            prev == r.steps[i - 1]
            said == IF r.stale /\ i > 1
                    THEN [j \in 1..(Len(prev.viols) - 1) |-> prev.viols[IF j < prev.pick THEN j ELSE j + 1]]
                    ELSE here
            at   == SelectSeq(mine, LAMBDA j : told[j] = now.viols[now.pick])
        IN IF now.st # "ok" THEN Complain("a repaired source does not parse", k, "Solidity", now)
           ELSE IF ~SameBag(said, now.viols) THEN Complain("problems are misreported on the way", k, said, now.viols)
           ELSE IF now.pick = 0 THEN If(said = <<>>, "repairing does not come to an end", k, <<>>, said)
           ELSE LET p    == all[at[1]]
                    next == r.steps[i + 1].sol
                    want == RepairOne(sp, now.sol, p)
                IN If(next.has /\ next.cname = want.cname, "the contract gets a wrong name", k, want.cname, next)
                   \o (IF p.kind # "order"
                       THEN If(Bare(next.parts) = Bare(want.parts), "a repair does not put what is missing in its place", k, Bare(want.parts), Bare(next.parts))
                       ELSE If(/\ SameBag(Bare(next.parts), Bare(now.sol.parts))
                               /\ foreign(next.parts) = foreign(now.sol.parts)
                               /\ Misplaced(sp, next.parts) = <<>>,
                               "sorting loses, moves or forgets something", k, Bare(want.parts), Bare(next.parts)))
  IN All(case.runs, LAMBDA k, r :
       IF sp.stage = "ok" /\ case.solst = "ok"
       THEN If(r.ok /\ ~r.panicked, "repairing one by one fails", k, "steps", r.diags)
            \o (IF r.ok THEN Concat([i \in 1..Len(r.steps) |-> step(k, r, i)]) ELSE <<>>)
       ELSE If(~r.ok /\ ~r.panicked, "there is nothing to repair", k, "a problem", r.ok))

(***************************************************************************)
(* C28: one tree, and one stage, at a time.                                *)
(***************************************************************************)
J28(case, specs) ==
  LET text == case.texts[1]
      single == TLCEval(ReadTree(text))
      trees == IF TreesAreFine(specs[1]) THEN ReadTrees(text) ELSE <<>>
      views == IF trees = <<>> THEN <<>> ELSE TreeViews(text)
      (* every condition, once for each title, with the name of its modifier *)
      mods(t) == FoldLeft(LAMBDA ms, m : IF \E i \in 1..Len(ms) : ms[i] = m THEN ms ELSE Append(ms, m), <<>>,
                          Map(LAMBDA nd : <<Str(CondTitle(nd)), ModifierName(nd)>>, Filter(t.nodes, LAMBDA nd : nd.kind = "cond")))
  IN All(case.runs, LAMBDA k, r :
       (IF single.stage = "ok"
        THEN LET want == <<TreeView(text, Offsets(text))>>
             IN If(r.one.ok /\ r.one.trees = want, "one tree is not read as it is drawn", k, want, r.one)
        ELSE If(SaysWhy(r.one, single, text), "one malformed tree is read, or rejected for something else", k, Texts(single.errs), r.one))
       \o (IF Len(r.each) # Len(trees) THEN Complain("trees are missing", k, Len(trees), Len(r.each))
           ELSE Concat([i \in 1..Len(trees) |->
                  LET t == trees[i] got == r.each[i]
                      want == Map(LAMBDA f : FnView(f, views[i].nodes, r.vmskip), t.fns)
                  IN If(got.mods = mods(t), "the modifiers of a tree are not its conditions", k, mods(t), got.mods)
                     \o If(got.hir.ok /\ got.hir.contracts = 1 /\ got.hir.others = 0 /\ got.hir.name = Str(t.root),
                           "the representation of a tree is not one contract with the root's name", k, t.root, got.hir)
                     \o If(got.hir.parts = want, "the representation of a tree does not hold its tests", k, want, got.hir.parts)])))

(***************************************************************************)
Judge(prop, case, specs) ==
  CASE prop = "C01" -> J01(case)
    [] prop = "C02" -> J02(case, specs)
    [] prop = "C03" -> J03(case, specs)
    [] prop = "C04" -> J04(case, specs)
    [] prop = "C05" -> J05(case, specs)
    [] prop = "C06" -> J06(case, specs)
    [] prop = "C07" -> J07(case, specs)
    [] prop = "C08" -> J08(case, specs)
    [] prop = "C09" -> J09(case, specs)
    [] prop = "C10" -> J10(case, specs)
    [] prop = "C11" -> J11(case, specs)
    [] prop = "C12" -> J12(case, specs)
    [] prop = "C15" -> J15(case, specs)
    [] prop = "C16" -> J16(case, specs)
    [] prop = "C17" -> J17(case, specs)
    [] prop = "C18" -> J18(case, specs)
    [] prop = "C19" -> J19(case, specs)
    [] prop = "C20" -> J20(case, specs)
    [] prop = "C22" -> J22(case, specs)
    [] prop = "C23" -> J23(case, specs)
    [] prop = "C24" -> J24(case, specs)
    [] prop = "C25" -> J25(case, specs)
    [] prop = "C26" -> J26(case, specs)
    [] prop = "C27" -> J27(case, specs)
    [] prop = "C28" -> J28(case, specs)
=============================================================================
