------------------------------ MODULE MC_Tree ------------------------------
(***************************************************************************)
(* All well-formed drawings of a few branches, in every shape.             *)
(***************************************************************************)
EXTENDS Laws, Json

CONSTANTS Branches, Neutral

VARIABLES shape, trees, spec
vars == <<shape, trees, spec>>

(* shape: a sequence of [depth, kind], in preorder. *)
ParentIn(sh, d) == LET ps == {j \in 1..Len(sh) : sh[j].depth = d - 1}
                   IN CHOOSE j \in ps : \A k \in ps : k <= j
Fits(sh, d, kind) ==
  IF d = 1 THEN kind # "desc"
  ELSE /\ sh # <<>> /\ d <= sh[Len(sh)].depth + 1
       /\ LET p == sh[ParentIn(sh, d)].kind
          IN IF kind = "desc" THEN p \in {"it", "revert"} ELSE p \in {"when", "given"}
IsLast(sh, k) ==
  ~ \E j \in (k+1)..Len(sh) : sh[j].depth = sh[k].depth
                              /\ \A i \in (k+1)..(j-1) : sh[i].depth > sh[k].depth

Name(k) == <<"a", "b", "c", "d", "e", "f", "g", "h">>[k]
TitleIn(sh, k) ==
  CASE sh[k].kind = "when"   -> "when " \o Name(k) \o " is"
    [] sh[k].kind = "given"  -> "given " \o Name(k)
    [] sh[k].kind = "it"     -> "it does " \o Name(k)
    [] sh[k].kind = "revert" -> IF sh[k].depth = 1 THEN "it should revert " \o Name(k) ELSE "it should revert."
    [] sh[k].kind = "desc"   -> "for " \o Name(k)

RECURSIVE Indent(_, _, _)
(* The bars of the branches around k that go on below it. *)
Indent(sh, k, d) ==
  IF d >= sh[k].depth THEN ""
  ELSE LET p == CHOOSE j \in 1..(k-1) : sh[j].depth = d /\ \A i \in (j+1)..(k-1) : sh[i].depth > d
       IN (IF IsLast(sh, p) THEN "    " ELSE "│   ") \o Indent(sh, k, d + 1)

RECURSIVE Drawn(_, _)
Drawn(sh, k) ==
  IF k > Len(sh) THEN ""
  ELSE "\n" \o Indent(sh, k, 1) \o (IF IsLast(sh, k) THEN "└── " ELSE "├── ") \o TitleIn(sh, k) \o Drawn(sh, k + 1)
Text(sh) == "Foo" \o Drawn(sh, 1)

Init == /\ shape = <<>>
        /\ trees = ReadTrees(Chars("Foo"))
        /\ spec = SpecOf(trees)

Grow(d, kind) ==
  /\ Fits(shape, d, kind)
  /\ shape' = Append(shape, [depth |-> d, kind |-> kind])
  /\ trees' = ReadTrees(Chars(Text(shape')))
  /\ spec' = SpecOf(trees')
  /\ IF spec'.stage # "ok" THEN TRUE
     ELSE PrintT("CASE " \o ToJson([text |-> Text(shape'), stage |-> "ok",
                             edits |-> IF Neutral THEN LET es == SetToSeq(Edits(Chars(Text(shape'))))
                                                       IN [k \in 1..Len(es) |-> Str(es[k])]
                                       ELSE <<>>]))

Next == /\ Len(shape) < Branches
        /\ \E d \in 1..(Len(shape) + 1), kind \in {"when", "given", "it", "revert", "desc"} : Grow(d, kind)

Spec == Init /\ [][Next]_vars

(* Well-formed drawings are accepted, unless a condition is empty. *)
Hollow == \E k \in 1..Len(shape) : shape[k].kind \in {"when", "given"}
             /\ (k = Len(shape) \/ shape[k+1].depth <= shape[k].depth)
Complete == shape # <<>> /\ ~Hollow
AcceptedWhenComplete == Complete <=> spec.stage = "ok"

(* What was drawn is what is read. *)
ReadAsDrawn ==
  shape # <<>> =>
    LET nodes == trees[1].nodes
    IN /\ Len(nodes) = Len(shape)
       /\ \A k \in 1..Len(shape) :
            /\ nodes[k].kind = (CASE shape[k].kind \in {"when", "given"} -> "cond"
                                  [] shape[k].kind \in {"it", "revert"} -> "action"
                                  [] OTHER -> "desc")
            /\ nodes[k].parent = (IF shape[k].depth = 1 THEN 0 ELSE ParentIn(SubSeq(shape, 1, k - 1), shape[k].depth))

Laws == TextLaws(Chars(Text(shape)), trees, spec)
NeutralEdits == Neutral => EditsAreNeutral(Chars(Text(shape)), spec)
=============================================================================
