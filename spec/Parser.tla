------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* How the tokens of one tree become a drawing: a sequence of branches in  *)
(* the order they are written, each with the branch it hangs from.         *)
(*                                                                         *)
(* The tokens come in groups: a connector and the words up to the next     *)
(* connector.  ParseStep reads one group with a stack of the branches that *)
(* are still open.                                                         *)
(***************************************************************************)
EXTENDS Lexer

Err(kind, arg, tk)  == [kind |-> kind, arg |-> arg, sl |-> tk.sl, sc |-> tk.sc, so |-> tk.so,
                        el |-> tk.el, ec |-> tk.ec]
NoPlace(kind, arg)  == [kind |-> kind, arg |-> arg, sl |-> 1, sc |-> 1, so |-> 0, el |-> 1, ec |-> 1]

ParseInit == [stack |-> <<>>,  \* indices of the open branches, outermost first
              nodes |-> <<>>,  \* the branches
              err   |-> NoErr]

(* Positions of the connectors. *)
Heads(toks) == SelectSeq(Upto(Len(toks)), LAMBDA i : IsBranchTok(toks[i]))

RECURSIVE PopTo(_, _, _)
PopTo(stack, nodes, col) ==
  IF stack = <<>> \/ nodes[stack[Len(stack)]].sc < col THEN stack
  ELSE PopTo(SubSeq(stack, 1, Len(stack) - 1), nodes, col)

(* The end of a top-level branch: `last` when nothing follows it. *)
CloseTop(nd, last) ==
  IF nd.conn = "tee" /\ last THEN Err("TeeLastChild", "", nd.tok)
  ELSE IF nd.conn = "corner" /\ ~last THEN Err("CornerNotLastChild", "", nd.tok)
  ELSE NoErr

(* One group: connector at b, words up to e. *)
ParseStep(s, toks, b, e) ==
  IF s.err # NoErr THEN s ELSE
  LET br    == toks[b]
      stack == PopTo(s.stack, s.nodes, br.sc)
      top   == stack = <<>>
      (* a new top-level branch ends the previous one *)
      cerr  == IF top /\ s.stack # <<>> THEN CloseTop(s.nodes[s.stack[1]], FALSE) ELSE NoErr
      par   == IF top THEN 0 ELSE stack[Len(stack)]
      nextk == IF b < Len(toks) THEN toks[b+1].k ELSE "eof"
      ctx   == IF top THEN "root" ELSE s.nodes[par].kind
      title == JoinWords(TLCEval([i \in 1..(e - b) |-> toks[b + i].w]))
      node(kind) == [kind |-> kind, conn |-> br.k, title |-> title, parent |-> par,
                     key |-> toks[b+1].k,
                     sl |-> br.sl, sc |-> br.sc, so |-> br.so, tok |-> br, last |-> e]
      add(kind, push) ==
        [s EXCEPT !.nodes = Append(@, node(kind)),
                  !.stack = IF push THEN Append(stack, Len(s.nodes) + 1) ELSE stack]
      fail(er) == [s EXCEPT !.err = er]
  IN CASE cerr # NoErr     -> fail(cerr)
       [] nextk = "eof"    -> fail(Err("EofUnexpected", "", IF top THEN br ELSE s.nodes[par].tok))
       [] ctx = "action"   ->
            IF nextk = "word" THEN add("desc", FALSE)
            ELSE fail(Err("DescriptionTokenUnexpected", Str(toks[b+1].w), toks[b+1]))
       [] nextk \in {"when", "given"} ->
            IF e = b + 1 THEN fail(Err("TitleMissing", "", toks[b+1]))
            ELSE add("cond", TRUE)
       [] nextk = "it" -> add("action", TRUE)
       [] OTHER -> fail(Err("TokenUnexpected", Str(toks[b+1].w), toks[b+1]))

StrayWord(tk) ==
  CASE tk.k = "word"  -> Err("WordUnexpected", Str(tk.w), tk)
    [] tk.k = "when"  -> Err("WhenUnexpected", "", tk)
    [] tk.k = "given" -> Err("GivenUnexpected", "", tk)
    [] tk.k = "it"    -> Err("ItUnexpected", "", tk)

(* The state after all of the groups, including the end of the last one. *)
ParseGroups(toks) ==
  LET hs == Heads(toks)
      endOf(k) == IF k < Len(hs) THEN hs[k+1] - 1 ELSE Len(toks)
      r == FoldLeft(LAMBDA s, k : ParseStep(s, toks, hs[k], endOf(k)), ParseInit,
                    Upto(Len(hs)))
      cerr == IF r.err = NoErr /\ r.stack # <<>> THEN CloseTop(r.nodes[r.stack[1]], TRUE) ELSE NoErr
  IN IF cerr # NoErr THEN [r EXCEPT !.err = cerr] ELSE r

Parse(toks) ==
  IF toks = <<>> THEN [err |-> NoPlace("TreeEmpty", ""), root |-> <<>>, nodes |-> <<>>]
  ELSE IF toks[1].k # "word" THEN [err |-> Err("TreeRootless", "", toks[1]), root |-> <<>>, nodes |-> <<>>]
  ELSE IF Len(toks) > 1 /\ ~IsBranchTok(toks[2])
       THEN [err |-> StrayWord(toks[2]), root |-> toks[1].w, nodes |-> <<>>]
  ELSE LET r == ParseGroups(toks) IN [err |-> r.err, root |-> toks[1].w, nodes |-> r.nodes]

(***************************************************************************)
(* The same, said differently: a branch hangs from the nearest branch      *)
(* before it, descriptions aside, which starts further to the left.        *)
(***************************************************************************)
Nearest(nodes, i) ==
  LET left == {j \in 1..(i-1) : nodes[j].kind # "desc" /\ nodes[j].sc < nodes[i].sc}
  IN IF left = {} THEN 0 ELSE CHOOSE j \in left : \A k \in left : k <= j

NestingIsTheDrawing(nodes) == \A i \in 1..Len(nodes) : nodes[i].parent = Nearest(nodes, i)

(***************************************************************************)
(* Views on a drawing.                                                     *)
(***************************************************************************)
(* Branches come in preorder: a parent precedes its children. *)
HasKids(nodes, i)      == \E k \in (i+1)..Len(nodes) : nodes[k].parent = i
KidsOf(nodes, i)       == SelectSeq(Upto(Len(nodes)), LAMBDA k : nodes[k].parent = i)
KidsOfKind(nodes, i, kind) ==
  SelectSeq(Upto(Len(nodes)), LAMBDA k : nodes[k].parent = i /\ nodes[k].kind = kind)
RECURSIVE LastBelow(_, _)
(* The last branch of the subtree of i (branches are in preorder). *)
LastBelow(nodes, i) ==
  LET ks == KidsOf(nodes, i) IN IF ks = <<>> THEN i ELSE LastBelow(nodes, ks[Len(ks)])
(* The token that ends the subtree of i. *)
EndTok(toks, nodes, i) == toks[nodes[LastBelow(nodes, i)].last]
RECURSIVE Ancestors(_, _)
(* From the root to i, i excluded. *)
Ancestors(nodes, i) ==
  IF nodes[i].parent = 0 THEN <<>>
  ELSE Append(Ancestors(nodes, nodes[i].parent), nodes[i].parent)
=============================================================================
