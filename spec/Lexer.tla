------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* How the text of a .tree file is read, one character at a time.          *)
(*                                                                         *)
(*  - Split: where one tree ends and the next begins.                      *)
(*  - LexStep: the state machine that turns characters into tokens.        *)
(***************************************************************************)
EXTENDS Chars

(***************************************************************************)
(* Lines.                                                                  *)
(***************************************************************************)
(* CRLF line endings are read as LF. *)
Unix(t) ==
  IF ~ \E i \in 1..Len(t) : t[i] = "\r" THEN t
  ELSE LET keep(i) == ~(t[i] = "\r" /\ i < Len(t) /\ t[i+1] = "\n")
           ix == SelectSeq(Upto(Len(t)), keep)
       IN TLCEval([k \in 1..Len(ix) |-> t[ix[k]]])

(* The lines of a text; a trailing line ending does not start a line. *)
Lines(t) ==
  LET step(a, c) == IF c = "\n" THEN [ls |-> Append(a.ls, a.l), l |-> <<>>]
                    ELSE [a EXCEPT !.l = Append(@, c)]
      r == FoldLeft(step, [ls |-> <<>>, l |-> <<>>], t)
  IN IF r.l = <<>> THEN r.ls ELSE Append(r.ls, r.l)

(* The first and last positions in lo..hi which are not white space. *)
RECURSIVE FirstInk(_, _, _), LastInk(_, _, _)
FirstInk(t, lo, hi) == IF lo > hi \/ ~IsWs(t[lo]) THEN lo ELSE FirstInk(t, lo + 1, hi)
LastInk(t, lo, hi)  == IF lo > hi \/ ~IsWs(t[hi]) THEN hi ELSE LastInk(t, lo, hi - 1)

Trim(t) == SubSeq(t, FirstInk(t, 1, Len(t)), LastInk(t, 1, Len(t)))

TrimRight(l) == SubSeq(l, 1, LastInk(l, 1, Len(l)))

IsCommentLine(l) == LET k == FirstInk(l, 1, Len(l))
                    IN k + 1 <= Len(l) /\ l[k] = "/" /\ l[k+1] = "/"
IsBlankLine(l)   == FirstInk(l, 1, Len(l)) > Len(l)
NothingToRead(t) == LET ls == Lines(t)
                    IN \A i \in 1..Len(ls) : IsBlankLine(ls[i]) \/ IsCommentLine(ls[i])

(***************************************************************************)
(* Trees are separated by an empty line.  A tree is given by its first and *)
(* last positions in the text.  Chunks that hold nothing but comments are  *)
(* not trees; when there is nothing at all there is one, empty, tree.      *)
(***************************************************************************)
Chunks(t) ==
  LET step(a, i) ==
        IF a.skip THEN [a EXCEPT !.skip = FALSE]
        ELSE IF t[i] = "\n" /\ i < Len(t) /\ t[i+1] = "\n"
             THEN [cs |-> Append(a.cs, <<a.lo, i - 1>>), lo |-> i + 2, skip |-> TRUE]
             ELSE a
      r == FoldLeft(step, [cs |-> <<>>, lo |-> 1, skip |-> FALSE], Upto(Len(t)))
  IN Append(r.cs, <<r.lo, Len(t)>>)

Split(t) ==
  LET cs == Chunks(t)
      trimmed == [k \in 1..Len(cs) |->
                    <<FirstInk(t, cs[k][1], cs[k][2]), LastInk(t, cs[k][1], cs[k][2])>>]
      real == SelectSeq(trimmed, LAMBDA c : c[1] <= c[2]
                                   /\ ~NothingToRead(SubSeq(t, c[1], c[2])))
  IN IF real = <<>> THEN << <<1, 0>> >> ELSE real

(* A tree at its place in the file: what precedes it is blanked out. *)
Placed(t, c) == IF c[1] > c[2] THEN <<>>
                ELSE TLCEval([i \in 1..c[2] |-> IF i >= c[1] \/ t[i] = "\n" THEN t[i] ELSE " "])

(***************************************************************************)
(* The tokenizer.                                                          *)
(***************************************************************************)
NoErr == [kind |-> "none"]

LexInit ==
  [mode |-> "scan",     \* scan | word | comment | err
   line |-> 1, col |-> 1,
   title |-> FALSE,     \* reading the title of a condition
   word |-> <<>>, wl |-> 1, wc |-> 1, wo |-> 0,
   toks |-> <<>>,
   err  |-> NoErr]

Strokes    == {" ", "─", "│"}
LineEnds   == {"\n", "\t", "\r"}
Connectors == {"├", "└"}

KindOf(w) ==
  IF Len(w) = 4 /\ LowerAll(w) = <<"w","h","e","n">> THEN "when"
  ELSE IF Len(w) = 2 /\ LowerAll(w) = <<"i","t">> THEN "it"
  ELSE IF Len(w) = 5 /\ LowerAll(w) = <<"g","i","v","e","n">> THEN "given"
  ELSE "word"

Tok(k, w, sl, sc, so, el, ec) ==
  [k |-> k, w |-> w, sl |-> sl, sc |-> sc, so |-> so, el |-> el, ec |-> ec]

IsBranchTok(tk) == tk.k \in {"tee", "corner"}

(* Move past c. *)
Adv(s, c) == IF c = "\n" THEN [s EXCEPT !.line = @ + 1, !.col = 1]
             ELSE [s EXCEPT !.col = @ + 1]

(* c, at offset o, belongs to a word; nx is what follows it. *)
WordStep(s, c, o, nx) ==
  IF s.title /\ ~IsTitleChar(c)
  THEN [s EXCEPT !.mode = "err",
                 !.err = [kind |-> "badchar", arg |-> c, sl |-> s.line, sc |-> s.col, so |-> o,
                          el |-> s.line, ec |-> s.col]]
  ELSE LET w == Append(s.word, c) IN
       IF nx # "" /\ ~IsWs(nx) THEN [s EXCEPT !.mode = "word", !.word = w, !.col = @ + 1]
       ELSE LET k  == KindOf(w)
                tk == Tok(k, w, s.wl, s.wc, s.wo, s.line, s.col)
                enter == /\ k \in {"when", "given"}
                         /\ s.toks # <<>>
                         /\ IsBranchTok(s.toks[Len(s.toks)])
            IN [s EXCEPT !.mode = "scan", !.word = <<>>, !.toks = Append(@, tk),
                         !.title = @ \/ enter, !.line = Adv(s, c).line, !.col = Adv(s, c).col]

(* One character c at offset o, followed by nx ("" at the end). *)
LexStep(s, c, o, nx) ==
  CASE s.mode = "err"     -> s
    [] s.mode = "comment" -> Adv([s EXCEPT !.mode = IF nx \in {"\n", ""} THEN "scan" ELSE @], c)
    [] s.mode = "word"    -> WordStep(s, c, o, nx)
    [] OTHER ->
       CASE c \in Strokes             -> Adv(s, c)
         [] c \in LineEnds            -> Adv([s EXCEPT !.title = FALSE], c)
         [] c \in Connectors ->
              Adv([s EXCEPT !.toks = Append(@, Tok(IF c = "├" THEN "tee" ELSE "corner",
                                                   <<c>>, s.line, s.col, o, s.line, s.col))], c)
         [] c = "/" /\ nx = "/"       -> Adv([s EXCEPT !.title = FALSE, !.mode = "comment"], c)
         [] OTHER -> WordStep([s EXCEPT !.wl = s.line, !.wc = s.col, !.wo = o], c, o, nx)

Lex(t) == FoldLeft(LAMBDA s, i : LexStep(s, t[i], i - 1, IF i < Len(t) THEN t[i+1] ELSE ""),
                   LexInit, Upto(Len(t)))
=============================================================================
