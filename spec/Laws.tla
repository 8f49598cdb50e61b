-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* What the design promises, said a second time and in another way: not by *)
(* how a specification is computed but by what must be true of it.  TLC    *)
(* checks these laws on every text it enumerates (MC_Text) or is given     *)
(* (Conformance).                                                          *)
(*                                                                         *)
(* text: a text; trees: its trees, see ReadTree; spec: what it specifies.  *)
(***************************************************************************)
EXTENDS Solidity

Conds(nodes)      == SelectSeq(Upto(Len(nodes)), LAMBDA i : nodes[i].kind = "cond")
TopActions(nodes) == SelectSeq(Upto(Len(nodes)), LAMBDA i : nodes[i].kind = "action" /\ nodes[i].parent = 0)
HasKidOf(nodes, i, kind) == \E k \in 1..Len(nodes) : nodes[k].parent = i /\ nodes[k].kind = kind

(* The conditions around branch i, by the looks of the drawing. *)
RECURSIVE Around(_, _)
Around(nodes, i) == LET p == Nearest(nodes, i) IN IF p = 0 THEN <<>> ELSE Append(Around(nodes, p), p)

Fns(fns, ty) == SelectSeq(fns, LAMBDA f : f.ty = ty)

(* C06: one test for every condition with actions and every top-level action;
   one modifier for every condition with conditions. *)
OneTestPerGroup(nodes, fns) ==
  /\ Len(Fns(fns, "function")) = Len(TopActions(nodes))
       + Cardinality({i \in 1..Len(nodes) : nodes[i].kind = "cond" /\ HasKidOf(nodes, i, "action")})
  /\ Len(Fns(fns, "modifier")) = Cardinality({i \in 1..Len(nodes) : nodes[i].kind = "cond" /\ HasKidOf(nodes, i, "cond")})

(* C06: from the top of the drawing to its bottom. *)
InDrawingOrder(fns) == \A k \in 1..(Len(fns) - 1) : fns[k].sl <= fns[k+1].sl

(* C08: the modifiers of a test are those of the conditions around it. *)
NodeAt(nodes, f) == CHOOSE i \in 1..Len(nodes) : nodes[i].so = f.so
ModifiersAreAround(nodes, fns) ==
  \A k \in 1..Len(fns) : fns[k].ty = "function" =>
    LET i == NodeAt(nodes, fns[k])
        a == Around(nodes, i)
        own == IF HasKidOf(nodes, i, "cond") THEN <<i>> ELSE <<>>
        all == a \o own
    IN fns[k].mods = [j \in 1..Len(all) |-> ModifierName(nodes[all[j]])]

(* C02, C09: every action and description is in exactly one body, as it is. *)
SaidOnce(nodes, fns) ==
  LET ls == SelectSeq(Upto(Len(nodes)), LAMBDA i : nodes[i].kind # "cond")
      titles == [k \in 1..Len(ls) |-> Str(Trim(nodes[ls[k]].title))]
      comments == Concat([k \in 1..Len(fns) |-> fns[k].comments])
      bare == [k \in 1..Len(comments) |-> Str(Trim([j \in 1..Len(comments[k]) |-> SubSeq(comments[k], j, j)]))]
  IN SameBag(titles, bare)

(* C07: a test says whether the first thing it does is to revert. *)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
NamesArePrefixed(fns) == \A k \in 1..Len(fns) : fns[k].ty = "function" => Starts(fns[k].name, "test_")

(* C02: no branch starts to the left of the one it hangs from, and what hangs
   from an action are descriptions only. *)
KindsAreLayered(nodes) ==
  \A i \in 1..Len(nodes) : nodes[i].parent # 0 =>
    LET p == nodes[i].parent IN
    /\ nodes[p].sc < nodes[i].sc
    /\ nodes[p].kind \in {"cond", "action"}
    /\ nodes[i].kind = "desc" <=> nodes[p].kind = "action"

TreeLaws(tree) ==
  /\ NestingIsTheDrawing(tree.nodes)
  /\ tree.stage = "ok" =>
       /\ KindsAreLayered(tree.nodes)
       /\ OneTestPerGroup(tree.nodes, tree.fns)
       /\ InDrawingOrder(tree.fns)
       /\ ModifiersAreAround(tree.nodes, tree.fns)
       /\ SaidOnce(tree.nodes, tree.fns)
       /\ NamesArePrefixed(tree.fns)

(* C08, C10, C11. *)
SoundContract(c) ==
  LET fs == c.fns
      n  == Len(fs)
  IN /\ IsContractName(ContractIdent(c.contract))
     /\ \A i, j \in 1..n : i < j /\ fs[i].ty = fs[j].ty => fs[i].name # fs[j].name
     /\ \A i \in 1..n : fs[i].ty = "function" =>
          \A m \in 1..Len(fs[i].mods) :
            \E j \in 1..(i-1) : fs[j].ty = "modifier" /\ fs[j].name = fs[i].mods[m]
     /\ \A i \in 1..n : fs[i].ty = "modifier" => fs[i].mods = <<>> /\ fs[i].comments = <<>>
     /\ \A i \in 1..n : fs[i].ty = "function" => fs[i].comments # <<>>

(* C10: nothing is lost when trees are combined. *)
NothingLost(trees, c) ==
  LET all == Concat([k \in 1..Len(trees) |-> trees[k].fns])
      mods(fs) == {fs[k].name : k \in {j \in 1..Len(fs) : fs[j].ty = "modifier"}}
      said(fs) == Concat([k \in 1..Len(fs) |-> fs[k].comments])
  IN /\ Len(Fns(all, "function")) = Len(Fns(c.fns, "function"))
     /\ mods(all) = mods(c.fns)
     /\ said(all) = said(c.fns)

(* C04: errors are in the text. *)
ErrorsInText(text, spec) ==
  spec.stage # "ok" =>
    LET u  == Unix(text)
        ls == Lines(u)
    IN \A e \in 1..Len(spec.errs) :
         LET er == spec.errs[e]
         IN IsPlaced(er) => /\ er.sl \in 1..Len(ls)
                            /\ er.sc \in 1..Len(ls[er.sl])
                            /\ er.so < Len(u)
                            /\ u[er.so + 1] = ls[er.sl][er.sc]

(* C03: a text is accepted or there is a reason. *)
AcceptedOrNot(trees, spec) ==
  /\ spec.stage # "ok" <=> spec.errs # <<>>
  /\ spec.stage = "ok" => \A k \in 1..Len(trees) : trees[k].stage = "ok"

(* C18: check finds nothing wrong with what scaffold emits. *)
AsSol(emitted) ==
  [has |-> TRUE, cname |-> emitted.name, cline |-> 1,
   parts |-> [k \in 1..Len(emitted.parts) |-> [ty |-> emitted.parts[k].ty, name |-> emitted.parts[k].name, line |-> k]]]

RoundTrip(c) ==
  \A S, m, n \in BOOLEAN :
    LET vs == Structural(c, AsSol(Emit(c, [vmskip |-> S, nomods |-> m, version |-> "0.8.0"])), "t", "f", n)
    IN IF m /\ ~n THEN /\ Len(vs) = Len(Fns(c.fns, "modifier"))
                       /\ \A k \in 1..Len(vs) : vs[k].kind = "missing"
       ELSE vs = <<>>

(* C12: the flags are independent of each other. *)
FlagsAreIndependent(c) ==
  \A S, m \in BOOLEAN : \A v \in {"0.8.0", "^0.7.0"} :
    LET e == Emit(c, [vmskip |-> S, nomods |-> m, version |-> v])
        p == Emit(c, [vmskip |-> FALSE, nomods |-> FALSE, version |-> "0.8.0"])
        tests(x) == SelectSeq(x.parts, LAMBDA q : q.ty = "function")
        bare(x) == [k \in 1..Len(tests(x)) |-> [tests(x)[k] EXCEPT !.skip = FALSE]]
    IN /\ e.name = p.name /\ e.version = v
       /\ bare(e) = bare(p)
       /\ \A k \in 1..Len(tests(e)) : tests(e)[k].skip = S
       /\ (e.bases # <<>>) = S /\ (e.imports # <<>>) = S
       /\ IF m THEN Len(tests(e)) = Len(e.parts) ELSE Len(e.parts) = Len(p.parts)

(***************************************************************************)
TextLaws(text, trees, spec) ==
  /\ \A k \in 1..Len(trees) : TreeLaws(trees[k])
  /\ ErrorsInText(text, spec)
  /\ AcceptedOrNot(trees, spec)
  /\ spec.stage = "ok" =>
       /\ SoundContract(spec)
       /\ NothingLost(trees, spec)
       /\ RoundTrip(spec)
       /\ FlagsAreIndependent(spec)

(***************************************************************************)
(* C05: edits that do not change what a text means.                        *)
(***************************************************************************)
Chars(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]

(* Apart from where things are. *)
Meaning(spec) ==
  [stage |-> spec.stage, contract |-> spec.contract,
   fns |-> [k \in 1..Len(spec.fns) |->
              [ty |-> spec.fns[k].ty, name |-> spec.fns[k].name, mods |-> spec.fns[k].mods,
               comments |-> spec.fns[k].comments]]]

Unlines(ls) == IF ls = <<>> THEN <<>>
               ELSE FoldLeft(LAMBDA a, l : a \o <<"\n">> \o l, ls[1], Tail(ls))
Insert(ls, k, l) == SubSeq(ls, 1, k) \o <<l>> \o SubSeq(ls, k + 1, Len(ls))
IsInk(l) == ~IsBlankLine(l)

(* All of them, for a text with LF line endings. *)
Edits(text) ==
  LET ls == Lines(text)
      ink == {k \in 1..Len(ls) : IsInk(ls[k])}
      inner == {k \in ink : k - 1 \in ink}
      each(f(_)) == {Unlines([ls EXCEPT ![k] = f(@)]) : k \in ink}
  IN {Unlines(Insert(ls, k - 1, Chars("  // when c"))) : k \in ink}
     \cup {Unlines(Insert(ls, k, Chars("//├── it c"))) : k \in ink}
     \cup each(LAMBDA l : l \o Chars(" // when c"))
     \cup each(LAMBDA l : l \o Chars("  \t "))
     \cup {Unlines(Insert(ls, k - 1, Chars("│  ─"))) : k \in inner}
     \cup {Unlines(Insert(ls, k - 1, Chars("   "))) : k \in inner}
     \cup {<<"\n">> \o text, text \o Chars("\n\n"), Chars("// c\n") \o text, Chars(" \n\n") \o text}
     \cup {Concat([k \in 1..Len(text) |-> IF text[k] = "\n" THEN <<"\r", "\n">> ELSE <<text[k]>>])}

EditsAreNeutral(text, spec) ==
  spec.stage = "ok" => \A e \in Edits(text) : Meaning(ReadFile(e)) = Meaning(spec)
=============================================================================
