------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What the tool says about a .tree file it rejects.                       *)
(***************************************************************************)
EXTENDS Spec

ErrText(e) ==
  CASE e.kind = "badchar"                    -> "invalid identifier: " \o e.arg
    [] e.kind = "TreeEmpty"                  -> "found an empty tree"
    [] e.kind = "TreeRootless"               -> "missing a root"
    [] e.kind = "WordUnexpected"             -> "unexpected `word` '" \o e.arg \o "'"
    [] e.kind = "WhenUnexpected"             -> "unexpected `when` keyword"
    [] e.kind = "GivenUnexpected"            -> "unexpected `given` keyword"
    [] e.kind = "ItUnexpected"               -> "unexpected `it` keyword"
    [] e.kind = "TokenUnexpected"            -> "unexpected token '" \o e.arg \o "'"
    [] e.kind = "DescriptionTokenUnexpected" -> "unexpected token in description '" \o e.arg \o "'"
    [] e.kind = "EofUnexpected"              -> "unexpected end of file"
    [] e.kind = "TitleMissing"               -> "found a condition/action without a title"
    [] e.kind = "CornerNotLastChild"         -> "a `Corner` must be the last child"
    [] e.kind = "TeeLastChild"               -> "a `Tee` must not be the last child"
    [] e.kind = "NoRules"                    -> "no rules where defined"
    [] e.kind = "ConditionEmpty"             -> "found a condition with no children"
    [] e.kind = "IdentifierDuplicated"       -> "found an identifier more than once in lines: " \o e.arg
    [] e.kind = "SeparatorMissing"           -> "separator missing at tree root #" \o e.arg \o
         ". Expected to find `::` between the contract name and the function name when multiple roots exist"
    [] e.kind = "ContractNameMissing"        -> "contract name missing at tree root #" \o e.arg
    [] e.kind = "ContractNameMismatch"       -> "contract name mismatch: " \o e.arg
    [] e.kind = "ContractNameInvalid"        -> "invalid contract name: '" \o e.arg \o "'"
    [] e.kind = "TestDuplicated"             -> "found the test '" \o e.arg \o "' more than once"

(* Nothing is quoted for an error at the very beginning of the text. *)
IsPlaced(e) == ~(e.so = 0 /\ e.sl = e.el /\ e.sc = e.ec)

(* White space before the text is shown as spaces. *)
Lead(l) == LET k == FirstInk(l, 1, Len(l)) IN Spaces(k - 1) \o SubSeq(l, k, Len(l))

(* A diagnostic: what is wrong and where.  The line is quoted, and the
   carets stand below the offending text. *)
Diagnostic(t, e) ==
  IF ~IsPlaced(e) THEN [text |-> ErrText(e), placed |-> FALSE]
  ELSE LET ls == Lines(t)
       IN [text |-> ErrText(e), placed |-> TRUE, line |-> e.sl, col |-> e.sc,
           quoted |-> Str(Lead(TrimRight(ls[e.sl]))), caretcol |-> e.sc,
           carets |-> IF e.ec >= e.sc THEN e.ec - e.sc + 1 ELSE 1]

(* How bulloak check sums up a rejected tree. *)
CheckText(stage, errs) ==
  IF stage = "semantics" THEN "at least one semantic error occurred while parsing the tree"
  ELSE "an error occurred while parsing the tree: " \o ErrText(errs[1])
=============================================================================
