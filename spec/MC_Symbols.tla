---------------------------- MODULE MC_Symbols ----------------------------
(* Short texts over the symbols of the language, however senseless. *)
EXTENDS MC_Text

MCStart  == ""
MCPieces == {"Foo", "\n├ ", "└", " ", "\n", "when", "it x", "//", "::", "é{"}
MCMore   == MCPieces \cup {"given ", "─", "│", "\t", "\r\n", "😀"}
MCEnd    == ""
=============================================================================
