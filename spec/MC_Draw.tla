------------------------------ MODULE MC_Draw ------------------------------
(* Drawings line by line, with any connector in any column. *)
EXTENDS MC_Text

Line(cols, bodies) == {"\n" \o c \o k \o b : c \in cols, k \in {"├", "└"}, b \in bodies}

MCStart  == "Foo"
MCPieces == Line({"", "  ", "│   "}, {"── when a", "── when B c", "── it x"}) \cup Line({"  "}, {" note", ""})
MCMore   == MCPieces \cup Line({" ", "      "}, {"── when a", "─it should revert.", " note"})
MCEnd    == ""
=============================================================================
