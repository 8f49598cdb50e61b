------------------------------ MODULE MC_Dups ------------------------------
(* Conditions and top-level actions whose titles are nearly the same. *)
EXTENDS MC_Text

Cond(t)   == "\n├── " \o t \o "\n│   └── it x"
Action(t) == "\n├── " \o t

MCStart  == "Foo"
MCPieces == {Cond(t) : t \in {"when a b", "When a b", "when A B", "when a B", "when ab", "given a b", "when a_b", "when a-b", "when a 'b'"}}
            \cup {Action(t) : t \in {"it a b", "it ab", "It aB"}}
            \cup {"\n├── when e"}
MCMore   == MCPieces \cup {Cond(t) : t \in {"when \"a\" b", "when a  b", "when aB", "WHEN a b"}} \cup {Action("it a b!")}
MCEnd    == "\n└── it ends"
=============================================================================
