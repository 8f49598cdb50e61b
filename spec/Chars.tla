------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* The alphabet of .tree files and the character classes the tool relies   *)
(* on.  A text is a sequence of one-character strings.  The alphabet holds *)
(* the whole of printable ASCII and representatives of every class of      *)
(* other characters that matters: letters with and without case, a letter  *)
(* whose upper case is two characters, numbers that are not identifier     *)
(* characters, identifier characters that are not alphanumeric, symbols,   *)
(* exotic white space, the byte order mark and the drawing characters.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

LOCAL Img(s) == {s[i] : i \in 1..Len(s)}

CasedLower == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "é", "ñ", "ü", "λ", "я", "σ">>
CasedUpper == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "É", "Ñ", "Ü", "Λ", "Я", "Σ">>
(* Letters without case, or which are not changed by the mapping we need. *)
Uncased    == {"名", "字", "ª", "ʼ", "Ⅷ"}
Digits     == {"0","1","2","3","4","5","6","7","8","9"}
(* Alphanumeric, yet not allowed in identifiers. *)
OddNumbers == {"²", "①", "½"}
(* Digits of another script. *)
OddDigits  == {"٣"}
(* Allowed in identifiers, yet not alphanumeric. *)
OddIdChars == {"_", "·", "‿", "́"}
Symbols    == {"!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",":",";","<","=",">",
               "?","@","[","\\","]","^","`","{","|","}","~",
               "😀","→","…","—","“","”","•","﻿","​","─","│","├","└", "", "", "‮"}
Blanks     == {" ", "\n", "\t", "\r", "\f", " ", " ", "", "", " ", "　"}

Letters    == Img(CasedLower) \cup Img(CasedUpper) \cup Uncased \cup {"ß", "ŉ", "ς", "İ"}
Alnum      == TLCEval(Letters \cup Digits \cup OddDigits \cup OddNumbers)
IdContinue == TLCEval(Letters \cup Digits \cup OddDigits \cup OddIdChars)
Alphabet   == Alnum \cup OddIdChars \cup Symbols \cup Blanks

IsWs(c)         == c \in Blanks
(* What may appear in the title of a condition. *)
TitleChars      == TLCEval(Alnum \cup {"_", "-", "'", "\""})
IsTitleChar(c)  == c \in TitleChars
IsIdContinue(c) == c \in IdContinue

UpperOf == TLCEval([c \in Img(CasedLower) |->
              CasedUpper[CHOOSE i \in 1..Len(CasedLower) : CasedLower[i] = c]])
LowerOf == TLCEval([c \in Img(CasedUpper) |->
              CasedLower[CHOOSE i \in 1..Len(CasedUpper) : CasedUpper[i] = c]])
UpperDom == DOMAIN UpperOf
LowerDom == DOMAIN LowerOf

(* Upper case is a sequence: some letters have two. *)
Upper(c) == IF c \in UpperDom THEN <<UpperOf[c]>>
            ELSE CASE c = "ß" -> <<"S", "S">>
                   [] c = "ŉ" -> <<"ʼ", "N">>
                   [] c = "ς" -> <<"Σ">>
                   [] OTHER -> <<c>>
Lower(c) == IF c \in LowerDom THEN LowerOf[c] ELSE c

(* How many bytes a character takes in a file. *)
TwoBytes   == {"é", "ñ", "ü", "λ", "я", "σ", "É", "Ñ", "Ü", "Λ", "Я", "Σ", "ß", "ŉ", "ς", "İ", "ª", "ʼ", "²", "½", "٣", "·", "́", "", " "}
ThreeBytes == {"名", "字", "Ⅷ", "①", "‿", "→", "…", "—", "“", "”", "•", "﻿", "​", "─", "│", "├", "└", "‮", " ", " ", "　"}
FourBytes  == {"😀"}
Bytes(c) == IF c \in TwoBytes THEN 2 ELSE IF c \in ThreeBytes THEN 3 ELSE IF c \in FourBytes THEN 4 ELSE 1
(* Where in a file each character of a text starts. *)
Offsets(cs) ==
  FoldLeft(LAMBDA a, c : [o |-> Append(a.o, a.n), n |-> a.n + Bytes(c)], [o |-> <<>>, n |-> 0], cs).o

(* Texts *)
Str(cs)     == FoldLeft(LAMBDA a, c : a \o c, "", cs)
LowerAll(cs) == TLCEval([i \in 1..Len(cs) |-> Lower(cs[i])])
UpperFirst(cs) == IF cs = <<>> THEN <<>> ELSE Upper(cs[1]) \o Tail(cs)
LowerFirst(cs) == IF cs = <<>> THEN <<>> ELSE <<Lower(cs[1])>> \o Tail(cs)
Concat(ss)  == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

(* Words separated by white space. *)
Words(cs) ==
  LET step(a, c) == IF IsWs(c) THEN (IF a.w = <<>> THEN a ELSE [ws |-> Append(a.ws, a.w), w |-> <<>>])
                    ELSE [a EXCEPT !.w = Append(@, c)]
      r == FoldLeft(step, [ws |-> <<>>, w |-> <<>>], cs)
  IN IF r.w = <<>> THEN r.ws ELSE Append(r.ws, r.w)

JoinWords(ws) ==
  IF ws = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, w : a \o <<" ">> \o w, ws[1], Tail(ws))

JoinStr(ss, sep) ==
  IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, s : a \o sep \o s, ss[1], Tail(ss))

Spaces(n) == TLCEval([i \in 1..n |-> " "])
Upto(n)   == TLCEval([i \in 1..n |-> i])

(* Hyphens become underscores; what cannot be in an identifier goes. *)
Sanitize(cs) ==
  LET hy == TLCEval([i \in 1..Len(cs) |-> IF cs[i] = "-" THEN "_" ELSE cs[i]])
  IN SelectSeq(hy, LAMBDA c : IsIdContinue(c) \/ c = " ")

Pascal(cs) == LET ws == Words(cs) IN Concat([i \in 1..Len(ws) |-> UpperFirst(ws[i])])
=============================================================================
