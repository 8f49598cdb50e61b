----------------------------- MODULE MC_Bodies -----------------------------
(* The actions of a condition, and what is said about them. *)
EXTENDS MC_Text

MCStart  == "Foo\n└── when c"
MCPieces == {"\n    ├── it x", "\n    ├── it should revert", "\n    ├─ It's x", "\n    ├── it a,  (b) {", "\n    │   ├── some \"text\";", "\n    │   └── x // c",
             "\n        └── a/*b*/", "\n              ├ http://e.x", "\n    // it c"}
MCMore   == MCPieces \cup {"\n    ├── it", "\n    │   └── When x", "\n    │   └── é 😀 //", "\n    ├── when d\n    │   └── it y", "\n"}
MCEnd    == "\n    └── it ends."
=============================================================================
