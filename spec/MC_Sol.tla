------------------------------- MODULE MC_Sol -------------------------------
(***************************************************************************)
(* A tree and every contract of a few parts: what check reports, and that  *)
(* the repair repairs, keeps, and comes to an end.                         *)
(***************************************************************************)
EXTENDS Laws, Json

CONSTANTS Parts, Names

VARIABLES tree, spec, name, parts
vars == <<tree, spec, name, parts>>

TreePool ==
  { "Foo\n├── when a\n│   ├── it x\n│   └── when b\n│       └── it y\n└── it z",
    "Foo\n├── it z\n├── it y\n└── given a\n    └── it should revert",
    "Foo::f\n└── when a\n    └── when b\n        └── it x\n\nFoo::g\n└── when a\n    ├── it y\n    └── when b\n        └── it z" }

(* What else can be in a contract: code the tree knows nothing about, some of it with a name of the tree. *)
Foreign(c) == {[ty |-> "other", name |-> "counter"], [ty |-> "function", name |-> "helper"]}
              \cup {[ty |-> IF c.fns[k].ty = "modifier" THEN "function" ELSE "modifier", name |-> c.fns[k].name] : k \in {1}}
Own(c) == {[ty |-> c.fns[k].ty, name |-> c.fns[k].name] : k \in 1..Len(c.fns)}

Number(ps) == [k \in 1..Len(ps) |-> [ty |-> ps[k].ty, name |-> ps[k].name, id |-> <<"old", k>>, line |-> k]]
Sol == IF name = "" THEN [has |-> FALSE, cname |-> "", cline |-> 0, parts |-> <<>>]
       ELSE [has |-> TRUE, cname |-> name, cline |-> 1, parts |-> Number(parts)]

Export == PrintT("CASE " \o ToJson([tree |-> tree, name |-> name, parts |-> parts]))

Init == /\ tree \in TreePool
        /\ spec = ReadFile(Chars(tree))
        /\ name \in Names
        /\ parts = <<>>
        /\ Export

Next == /\ Len(parts) < Parts
        /\ name # ""
        /\ \E p \in Own(spec) \cup Foreign(spec) : parts' = Append(parts, p)
        /\ UNCHANGED <<tree, spec, name>>
        /\ Export'

Spec == Init /\ [][Next]_vars

(***************************************************************************)
IdOf(ps) == [k \in 1..Len(ps) |-> ps[k].id]
IsOwn(p) == \E k \in 1..Len(spec.fns) : Matches(p, spec.fns[k])
Alien(ps) == SelectSeq(ps, LAMBDA p : ~IsOwn(p))
Viols(s, nm) == Structural(spec, s, "t", "f", nm)
MsgsOf(vs) == [k \in 1..Len(vs) |-> vs[k].msg]

(* C19: a repair leaves nothing to repair, and a second one does nothing. *)
Converges == \A nm \in BOOLEAN :
  LET r == RepairSol(spec, Sol, nm)
  IN Viols(r, nm) = <<>> /\ RepairSol(spec, r, nm) = r

(* C20: everything is kept, only what is missing is added, what the tree does
   not mention stays in order, and what is in order stays as it is. *)
Keeps == \A nm \in BOOLEAN :
  LET r == RepairSol(spec, Sol, nm)
      was == IdOf(Sol.parts)
      now == IdOf(r.parts)
  IN /\ \A k \in 1..Len(was) : Count(now, was[k]) = 1
     /\ Len(now) = Len(was) + Len(Added(spec, Sol, nm))
     /\ Alien(SelectSeq(r.parts, LAMBDA p : p.id[1] = "old")) = Alien(Sol.parts)
     /\ Misplaced(spec, InsertMissing(spec, Sol.parts, nm)) = <<>>
          => SelectSeq(now, LAMBDA i : i[1] = "old") = was
     /\ Viols(Sol, nm) = <<>> => r = Sol

(* C15, C16: the rest of the contract makes no difference. *)
AliensDontMatter == \A nm \in BOOLEAN :
  Sol.has =>
    LET without == [Sol EXCEPT !.parts = SelectSeq(@, IsOwn)]
    IN MsgsOf(Viols(Sol, nm)) = MsgsOf(Viols(without, nm))

(* C16: nothing is reported exactly when the first occurrences are in order. *)
FirstsInOrder(ps) ==
  LET m == [k \in 1..Len(spec.fns) |-> MatchOf(ps, spec.fns[k])]
  IN \A i, j \in 1..Len(m) : i < j /\ m[i] # 0 /\ m[j] # 0 => m[i] < m[j]
OrderIsTheOrder == Sol.has => (Misplaced(spec, Sol.parts) = <<>> <=> FirstsInOrder(Sol.parts))

(* C15, C17: what is reported, said once more: exactly the modifiers and tests
   of which there is none of that kind and name, exactly a first contract of
   another name, exactly a file without contracts. *)
KindsOf(vs, kind) == SelectSeq(vs, LAMBDA v : v.kind = kind)
ReportsExactly == \A nm \in BOOLEAN :
  LET vs == Viols(Sol, nm)
      gone == {k \in 1..Len(spec.fns) :
                 /\ spec.fns[k].ty = "modifier" => ~nm
                 /\ \A j \in 1..Len(parts) : <<parts[j].ty, parts[j].name>> # <<spec.fns[k].ty, spec.fns[k].name>>}
  IN IF name = "" THEN Len(vs) = 1 /\ vs[1].kind = "contract"
     ELSE /\ KindsOf(vs, "contract") = <<>>
          /\ Len(KindsOf(vs, "name")) = (IF name = "Foo" THEN 0 ELSE 1)
          /\ Len(KindsOf(vs, "missing")) = Cardinality(gone)
          /\ \A k \in gone : \E v \in 1..Len(vs) :
               vs[v].msg = "function \"" \o spec.fns[k].name \o "\" is missing in .sol"

(* Inserting never disturbs an order. *)
InsertKeepsOrder == \A nm \in BOOLEAN :
  Sol.has /\ FirstsInOrder(Sol.parts) => FirstsInOrder(InsertMissing(spec, Sol.parts, nm))
=============================================================================
