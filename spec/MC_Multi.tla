------------------------------ MODULE MC_Multi ------------------------------
(* Files of a few trees. *)
EXTENDS MC_Text

Tree(roots, bodies) == {r \o b \o "\n\n" : r \in roots, b \in bodies}

One   == "\n└── it x"
Two   == "\n├── when c\n│   └── it x\n└── it y"
Deep  == "\n└── when c\n    ├── it x\n    └── when d\n        └── it should revert"
Deep2 == "\n└── given e\n    └── when c\n        └── when d\n            └── it y"

MCStart  == ""
MCPieces == Tree({"A::f", "A::g"}, {One, Two, Deep, Deep2}) \cup {"B::f\n└── it x\n\n", "A\n└── it x\n\n", "A::h\n└── when c\n\n", "// c\n\n"}
MCMore   == MCPieces \cup Tree({"A::f-g", "a::f", "::f", "A::"}, {One, Deep}) \cup {"\n", "A::k\n"}
MCEnd    == ""
=============================================================================
