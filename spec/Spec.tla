-------------------------------- MODULE Spec --------------------------------
(***************************************************************************)
(* What a .tree file specifies: the contract, its tests and its modifiers. *)
(*                                                                         *)
(*  - Analyze:   the drawings that make no sense are rejected.             *)
(*  - Translate: a drawing becomes a list of modifiers and tests.          *)
(*  - Combine:   the trees of a file become one contract.                  *)
(*  - Admit:     the contracts that Solidity could not hold are rejected.  *)
(***************************************************************************)
EXTENDS Parser

(***************************************************************************)
(* Semantic errors of one tree.  `toks' are its tokens.                    *)
(***************************************************************************)
(* The title of a condition keeps identifier characters only. *)
CondTitle(nd) == Sanitize(nd.title)

(* Conditions and top-level actions must have different names. *)
NameKey(nd) == Str(LowerFirst(Pascal(Sanitize(Sanitize(nd.title)))))

Named(nodes) == SelectSeq(Upto(Len(nodes)),
                  LAMBDA i : nodes[i].kind = "cond" \/ (nodes[i].kind = "action" /\ nodes[i].parent = 0))

Analyze(toks, nodes) ==
  LET empty ==
        IF nodes = <<>>
        THEN << [kind |-> "NoRules", arg |-> "", sl |-> toks[1].el, sc |-> toks[1].ec,
                 so |-> toks[1].so + Len(toks[1].w) - 1, el |-> toks[1].el, ec |-> toks[1].ec] >>
        ELSE <<>>
      conds == SelectSeq(Upto(Len(nodes)), LAMBDA i : nodes[i].kind = "cond" /\ ~HasKids(nodes, i))
      hollow == [k \in 1..Len(conds) |->
                  LET nd == nodes[conds[k]]
                      e  == toks[nd.last]
                  IN [kind |-> "ConditionEmpty", arg |-> "", sl |-> nd.sl, sc |-> nd.sc, so |-> nd.so,
                      el |-> e.el, ec |-> e.ec]]
      named == Named(nodes)
      keys  == TLCEval([k \in 1..Len(named) |-> NameKey(nodes[named[k]])])
      same(k) == SelectSeq(Upto(Len(named)), LAMBDA j : keys[j] = keys[k])
      firsts == IF Cardinality({keys[k] : k \in 1..Len(keys)}) = Len(keys) THEN <<>>
                ELSE SelectSeq(Upto(Len(named)), LAMBDA k : Len(same(k)) > 1 /\ same(k)[1] = k)
      dups == [f \in 1..Len(firsts) |->
                 LET nd == nodes[named[firsts[f]]]
                     ls == [j \in 1..Len(same(firsts[f])) |->
                              ToString(nodes[named[same(firsts[f])[j]]].sl)]
                 IN [kind |-> "IdentifierDuplicated", arg |-> JoinStr(ls, ", "),
                     sl |-> nd.sl, sc |-> nd.sc, so |-> nd.so, el |-> nd.sl, ec |-> nd.sc]]
  IN empty \o hollow \o dups

(***************************************************************************)
(* Translation of one tree.                                                *)
(***************************************************************************)
ModifierName(nd) == Str(LowerFirst(Pascal(CondTitle(nd))))

(* A condition has a modifier when another condition hangs from it. *)
NeedsModifier(nodes, i) == \E k \in (i+1)..Len(nodes) : nodes[k].parent = i /\ nodes[k].kind = "cond"

(* What is written in the body of a test for an action: its title and the
   descriptions below it, indented as they are in the drawing.  White space
   at the end, which only exotic white space can be, is not written. *)
ActionComments(nodes, a) ==
  LET kids == KidsOf(nodes, a)
  IN <<Str(TrimRight(nodes[a].title))>> \o
     TLCEval([k \in 1..Len(kids) |->
        Str(TrimRight(Spaces(nodes[kids[k]].sc - nodes[a].sc) \o nodes[kids[k]].title))])

ShouldRevert(title) ==
  Str(Sanitize(LowerAll(Trim(title)))) = "it should revert"

CondTestName(nodes, i) ==
  LET ws   == Words(CondTitle(nodes[i]))
      kw   == UpperFirst(ws[1])
      rest == Concat([k \in 1..(Len(ws) - 1) |-> UpperFirst(ws[k+1])])
      acts == KidsOfKind(nodes, i, "action")
  IN IF ShouldRevert(nodes[acts[1]].title)
     THEN "test_Revert" \o Str(kw) \o "_" \o Str(rest)
     ELSE "test_" \o Str(kw) \o Str(rest)

ActionTestName(nd) ==
  LET ws == Words(nd.title)
  IN "test_" \o Str(Sanitize(Concat([k \in 1..(Len(ws) - 1) |-> UpperFirst(ws[k+1])])))

(* The modifiers applied to the test of a condition, outermost first. *)
Applied(nodes, i) ==
  LET as == Ancestors(nodes, i)
  IN [k \in 1..Len(as) |-> ModifierName(nodes[as[k]])]
     \o (IF NeedsModifier(nodes, i) THEN <<ModifierName(nodes[i])>> ELSE <<>>)

Fn(ty, name, mods, comments, nd) ==
  [ty |-> ty, name |-> name, mods |-> mods, comments |-> comments,
   sl |-> nd.sl, sc |-> nd.sc, so |-> nd.so]

(* What one branch gives, in the order in which it is emitted. *)
FnsOf(nodes, i) ==
  LET nd == nodes[i] IN
  CASE nd.kind = "cond" ->
         (IF NeedsModifier(nodes, i) THEN << Fn("modifier", ModifierName(nd), <<>>, <<>>, nd) >> ELSE <<>>)
         \o
         (LET acts == KidsOfKind(nodes, i, "action")
          IN IF acts = <<>> THEN <<>>
             ELSE << Fn("function", CondTestName(nodes, i), Applied(nodes, i),
                        Concat([k \in 1..Len(acts) |-> ActionComments(nodes, acts[k])]), nd) >>)
    [] nd.kind = "action" /\ nd.parent = 0 ->
         << Fn("function", ActionTestName(nd), <<>>, ActionComments(nodes, i), nd) >>
    [] OTHER -> <<>>

(* Branches are in preorder, and so are the functions. *)
Translate(nodes) == Concat([i \in 1..Len(nodes) |-> FnsOf(nodes, i)])

(***************************************************************************)
(* Combination of the trees of a file.  A root is Contract::function.      *)
(***************************************************************************)
RECURSIVE SepAt(_, _)
(* Where the first :: is, or 0. *)
SepAt(w, i) == IF i >= Len(w) THEN 0
               ELSE IF w[i] = ":" /\ w[i+1] = ":" THEN i ELSE SepAt(w, i + 1)

RootContract(w) == SubSeq(w, 1, SepAt(w, 1) - 1)
RootFunction(w) == SubSeq(w, SepAt(w, 1) + 2, Len(w))

Prefixed(f, fn) ==
  IF f.ty = "modifier" THEN f
  ELSE [f EXCEPT !.name = "test_" \o Str(UpperFirst(Sanitize(fn))) \o SubSeq(@, 6, Len(@))]

(* trees: a sequence of [root, fns] *)
CombineError(trees, k) ==
  LET w == trees[k].root IN
  CASE SepAt(w, 1) = 0 -> NoPlace("SeparatorMissing", ToString(k))
    [] IsBlankLine(RootContract(w)) -> NoPlace("ContractNameMissing", ToString(k))
    [] RootContract(w) # RootContract(trees[1].root) ->
         NoPlace("ContractNameMismatch", "expected '" \o Str(RootContract(trees[1].root))
                                         \o "', found '" \o Str(RootContract(w)) \o "'")
    [] OTHER -> NoErr

FirstCombineError(trees) ==
  LET bad == SelectSeq(Upto(Len(trees)), LAMBDA k : CombineError(trees, k) # NoErr)
  IN IF bad = <<>> THEN NoErr ELSE CombineError(trees, bad[1])

(* One definition per modifier: the first one. *)
OnceEach(fns) ==
  LET keep(k) == fns[k].ty # "modifier"
                 \/ ~ \E j \in 1..(k-1) : fns[j].ty = "modifier" /\ fns[j].name = fns[k].name
      ix == SelectSeq(Upto(Len(fns)), keep)
  IN [k \in 1..Len(ix) |-> fns[ix[k]]]

Combine(trees) ==
  IF Len(trees) = 1 THEN [contract |-> trees[1].root, fns |-> trees[1].fns]
  ELSE [contract |-> RootContract(trees[1].root),
        fns |-> OnceEach(Concat([k \in 1..Len(trees) |->
                   [j \in 1..Len(trees[k].fns) |-> Prefixed(trees[k].fns[j], RootFunction(trees[k].root))]]))]

(***************************************************************************)
(* What Solidity can hold.                                                 *)
(***************************************************************************)
Reserved == {"contract", "function", "if", "else", "return", "modifier", "mapping", "struct", "enum",
             "event", "for", "while", "do", "import", "pragma", "library", "interface", "abstract",
             "using", "is", "new", "delete", "public", "private", "external", "internal", "view", "pure",
             "payable", "memory", "storage", "calldata", "constant", "immutable", "override", "virtual",
             "true", "false", "address", "bool", "string", "bytes", "uint", "int", "uint256", "bytes32"}

ContractIdent(w) == Sanitize(w)
IsContractName(cs) ==
  /\ cs # <<>>
  /\ cs[1] \notin Digits \cup OddDigits \cup (OddIdChars \ {"_"})
  /\ Str(cs) \notin Reserved

(* The first test that repeats the name of an earlier one. *)
RepeatedTests(fns) ==
  SelectSeq(Upto(Len(fns)),
    LAMBDA k : fns[k].ty = "function"
               /\ \E j \in 1..(k-1) : fns[j].ty = "function" /\ fns[j].name = fns[k].name)

Admit(c) ==
  IF ~IsContractName(ContractIdent(c.contract))
  THEN <<NoPlace("ContractNameInvalid", Str(c.contract))>>
  ELSE LET r == RepeatedTests(c.fns)
       IN IF r = <<>> THEN <<>>
          ELSE LET f == c.fns[r[1]]
               IN << [kind |-> "TestDuplicated", arg |-> f.name, sl |-> f.sl, sc |-> f.sc, so |-> f.so,
                      el |-> f.sl, ec |-> f.sc] >>

(***************************************************************************)
(* The whole way, from a text to a specification.  `stage' says where the  *)
(* text was rejected, if it was.                                           *)
(***************************************************************************)
NoContract == [contract |-> <<>>, fns |-> <<>>]
Rejected(stage, errs) == [stage |-> stage, errs |-> errs] @@ NoContract

(* One tree: its errors, or its root and functions. *)
ReadTree(placed) ==
  LET lx == Lex(placed) IN
  IF lx.err # NoErr THEN [stage |-> "token", errs |-> <<lx.err>>, root |-> <<>>, nodes |-> <<>>, fns |-> <<>>]
  ELSE LET p == Parse(lx.toks) IN
  IF p.err # NoErr THEN [stage |-> "parse", errs |-> <<p.err>>, root |-> <<>>, nodes |-> <<>>, fns |-> <<>>]
  ELSE LET es == Analyze(lx.toks, p.nodes) IN
  IF es # <<>> THEN [stage |-> "semantics", errs |-> es, root |-> p.root, nodes |-> p.nodes, fns |-> <<>>]
  ELSE [stage |-> "ok", errs |-> <<>>, root |-> p.root, nodes |-> p.nodes, fns |-> Translate(p.nodes)]

FinishFile(trees) ==
  LET ce == IF Len(trees) = 1 THEN NoErr ELSE FirstCombineError(trees) IN
  IF ce # NoErr THEN Rejected("combine", <<ce>>)
  ELSE LET c  == Combine(trees)
           ad == Admit(c)
       IN IF ad # <<>> THEN Rejected("admit", ad) ELSE [stage |-> "ok", errs |-> <<>>] @@ c

(* All at once, line endings included. *)
ReadTrees(text) == LET u == Unix(text)
                       places == Split(u)
                   IN TLCEval([k \in 1..Len(places) |-> ReadTree(Placed(u, places[k]))])
SpecOf(trees) ==
  LET wrong == SelectSeq(Upto(Len(trees)), LAMBDA k : trees[k].stage # "ok")
  IN IF wrong # <<>> THEN Rejected(trees[wrong[1]].stage, trees[wrong[1]].errs)
     ELSE FinishFile([k \in 1..Len(trees) |-> [root |-> trees[k].root, fns |-> trees[k].fns]])
ReadFile(text) == TLCEval(SpecOf(ReadTrees(text)))
=============================================================================
