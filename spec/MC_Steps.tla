------------------------------ MODULE MC_Steps ------------------------------
(***************************************************************************)
(* The problems of a contract, repaired one by one, in any order.          *)
(***************************************************************************)
EXTENDS Laws, Json

CONSTANT Parts

VARIABLES
  spec,    \* what the tree says
  nomods,  \* -m
  stale,   \* whether problems are looked for only once
  left,    \* the problems there were, which are not repaired yet
  start,   \* the contract as it was
  sol      \* as it is now
vars == <<spec, nomods, stale, left, start, sol>>

TreePool ==
  { "Foo\n├── when a\n│   ├── it x\n│   └── when b\n│       └── it y\n└── it z",
    "Foo\n├── it z\n├── it y\n└── given a\n    └── it should revert",
    "Foo::f\n└── when a\n    └── when b\n        └── it x\n\nFoo::g\n└── when a\n    ├── it y\n    └── when b\n        └── it z" }

Own(c) == {[ty |-> c.fns[k].ty, name |-> c.fns[k].name] : k \in 1..Len(c.fns)}
Foreign(c) == {[ty |-> "other", name |-> "counter"],
               [ty |-> IF c.fns[1].ty = "modifier" THEN "function" ELSE "modifier", name |-> c.fns[1].name]}

Sols(c) ==
  {[has |-> FALSE, cname |-> "", cline |-> 0, parts |-> <<>>]}
  \cup {[has |-> TRUE, cname |-> n, cline |-> 1, parts |-> [k \in 1..Len(ps) |-> [ty |-> ps[k].ty, name |-> ps[k].name, id |-> <<"old", k>>, line |-> k]]]
        : n \in {"Foo", "Bar"}, ps \in UNION {[1..n -> Own(c) \cup Foreign(c)] : n \in 0..Parts}}

Export(t, s) == PrintT("CASE " \o ToJson([tree |-> t, name |-> s.cname, parts |-> [k \in 1..Len(s.parts) |-> [ty |-> s.parts[k].ty, name |-> s.parts[k].name]]]))

Unordered(ps) == SelectSeq(ps, LAMBDA p : p.kind # "order")

Init == \E t \in TreePool :
          /\ spec = ReadFile(Chars(t))
          /\ nomods \in BOOLEAN
          /\ stale \in BOOLEAN
          /\ start \in Sols(spec)
          /\ sol = start
          /\ left = IF stale THEN Unordered(Problems(spec, start, nomods)) ELSE <<>>
          /\ (nomods \/ stale \/ Export(t, start))

Todo == IF stale THEN left ELSE Problems(spec, sol, nomods)
Without(ps, k) == SubSeq(ps, 1, k - 1) \o SubSeq(ps, k + 1, Len(ps))

Fix == \E k \in 1..Len(Todo) :
         /\ sol' = RepairOne(spec, sol, Todo[k])
         /\ left' = IF stale THEN Without(left, k) ELSE left
Next == Fix /\ UNCHANGED <<spec, nomods, stale, start>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
Missing(s) == Len(MissingFns(spec, s.parts, nomods))
InOrder(s) == Misplaced(spec, s.parts) = <<>>
IsOwn(p) == \E k \in 1..Len(spec.fns) : Matches(p, spec.fns[k])
Old(s) == SelectSeq(s.parts, LAMBDA p : p.id[1] = "old")
Alien(ps) == SelectSeq(ps, LAMBDA p : ~IsOwn(p))

(* Everything that was there is there, once; what the tree does not mention stays in order. *)
Kept == /\ SameBag(Old(sol), start.parts)
        /\ Alien(Old(sol)) = Alien(start.parts)
        /\ InOrder(start) => Old(sol) = start.parts

(* A step repairs a problem for good. *)
Progress == [][ \/ ~sol.has /\ sol'.has
                \/ sol.cname # sol'.cname /\ sol'.parts = sol.parts
                \/ Missing(sol') + 1 = Missing(sol)
                \/ ~InOrder(sol) /\ InOrder(sol') /\ Missing(sol') = Missing(sol) ]_sol

(* Where functions are in order, a step repairs one problem and causes no other. *)
OneAtATime == [][ InOrder(sol) /\ sol.has =>
                    LET was == Problems(spec, sol, nomods)
                        now == Problems(spec, sol', nomods)
                    IN Len(now) + 1 = Len(was) /\ \A k \in 1..Len(now) : \E j \in 1..Len(was) : was[j] = now[k] ]_sol

StaysInOrder == [][ InOrder(sol) => InOrder(sol') ]_sol

(* It ends, and where functions were in order the way there makes no difference. *)
Ends == <>[](Todo = <<>>)
SameEnd == Todo = <<>> /\ InOrder(start) => sol = RepairSol(spec, start, nomods)

(* Problems which were there at first can be repaired without looking again. *)
AsAtFirst == stale /\ Todo = <<>> =>
               /\ Unordered(Problems(spec, sol, nomods)) = <<>>
               /\ start.has => sol.parts = InsertMissing(spec, start.parts, nomods)
=============================================================================
