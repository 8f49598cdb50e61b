------------------------------ MODULE MC_Names ------------------------------
(* Titles of a condition, of a top-level action and of both, word by word. *)
EXTENDS MC_Text

Word   == {" a", " Ab", " é", " ß", " 2", " _", " -", " a-b", " don't", " \"q\"", " x²", " it", " when", " test_x", " should", " revert"}
MCPieces == Word
MCMore   == Word \cup {"  T", " ERC20", " 名", " ·", " Revert", " _a_", " --", " --a"}

CondStart   == "Foo\n└── when"
CondEnd     == "\n    ├── it should revert.\n    └── when z\n        └── it x"
ActionStart == "Foo\n└── it"
ActionEnd   == ""
FnStart     == "Foo::set-it\n└── it x\n\nFoo::get\n└── GIVEN"
FnEnd       == "\n    └── It should revert when x"
=============================================================================
