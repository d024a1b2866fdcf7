------------------------------ MODULE MCPrinter ------------------------------
(***************************************************************************)
(* A printer that emits fields one at a time, as display_fmt_helper does,  *)
(* and knows only what it has to print next, against Printer; and what a   *)
(* reader of the text relies on: all lines are as long as each other if    *)
(* the cells fit in their fields, what is under a column is in that        *)
(* column, and the digits over it are the number of the column.            *)
(* "late" ends lines one field too late, "left" aligns the digits of       *)
(* column numbers to the left.                                             *)
(***************************************************************************)
EXTENDS Printer
CONSTANTS Shapes, Fmts, Contents, Variant
SomeShapes == { <<1, 1>>, <<2, 3>>, <<9, 2>>, <<10, 1>>, <<11, 2>>, <<1, 10>>, <<2, 11>>, <<3, 101>>, <<99, 1>>, <<100, 2>>, <<101, 2>>, <<12, 12>> }
SomeFmts == [width : {0, 1, 3, 4}, align : {"left", "right", "center"}, fill : {" ", "*"}, most : {2, 9}]
SomeContents == { <<"#", ".">>, <<"7", "", "-12", "(1,2)">> }
VARIABLES text,   \* lines that were ended
          cur,    \* line that is being written
          phase,  \* "head", "body", "foot" or "end"
          i,      \* digit or number of the next cell
          x       \* number of the next column
vars == <<prvars, text, cur, phase, i, x>>
Init ==
    /\ \E s \in Shapes : w = s[1] /\ h = s[2]
    /\ fmt \in Fmts
    /\ \E c \in Contents : texts = [k \in 1..(w * h) |-> c[1 + (k % Len(c))]]
    /\ printed = 0 /\ text = <<>> /\ cur = "" /\ phase = "head" /\ i = 1 /\ x = 0

Keep == UNCHANGED <<w, h, texts, fmt>>
EndLine == text' = Append(text, cur) /\ cur' = "" /\ printed' = printed + 1
HeadDigit ==
    LET s == ToString(x)
        n == Len(s) - Digits(w) + i
    IN IF Variant = "left" THEN (IF i <= Len(s) THEN SubSeq(s, i, i) ELSE " ")
       ELSE IF n >= 1 THEN SubSeq(s, n, n) ELSE " "
HeadField ==
    /\ phase \in {"head", "foot"} /\ x < w
    /\ cur' = (IF x = 0 THEN Times(" ", Digits(h) + 1) ELSE cur) \o Field(HeadDigit)
    /\ x' = x + 1 /\ UNCHANGED <<text, phase, i, printed>> /\ Keep
HeadEnd ==
    /\ phase \in {"head", "foot"} /\ x = w
    /\ EndLine /\ x' = 0
    /\ IF i < Digits(w) THEN i' = i + 1 /\ phase' = phase
       ELSE /\ i' = 0
            /\ phase' = IF phase = "head" THEN "body" ELSE "end"
    /\ Keep
\* The end of a line is noticed when the next one starts
BodyField ==
    /\ phase = "body" /\ i < w * h
    /\ LET y == i \div w
           new == IF Variant = "late" THEN i % w = 1 % w ELSE i % w = 0
       IN IF new
          THEN /\ IF i >= w THEN text' = Append(text, cur) /\ printed' = printed + 1
                  ELSE UNCHANGED <<text, printed>>
               /\ cur' = RightAligned(ToString(y), Digits(h)) \o " " \o Field(texts[i + 1])
          ELSE cur' = cur \o Field(texts[i + 1]) /\ UNCHANGED <<text, printed>>
    /\ i' = i + 1 /\ UNCHANGED <<x, phase>> /\ Keep
BodyEnd ==
    /\ phase = "body" /\ i = w * h
    /\ EndLine /\ phase' = "foot" /\ i' = 1 /\ x' = 0 /\ Keep
Next == HeadField \/ HeadEnd \/ BodyField \/ BodyEnd
Spec == Init /\ [][Next]_vars

Prints == [][printed' # printed => Emit(text'[printed'])]_prvars
Count == Len(text) = printed /\ (phase = "end" => printed = Total /\ cur = "")

Fits == \A k \in DOMAIN texts : Len(Shown(texts[k])) <= fmt.width
At(line, c) == Digits(h) + 1 + (c * fmt.width)  \* characters before column c
\* The digits over or under column c, from the top
RECURSIVE Strip(_)
Strip(s) == IF s # "" /\ SubSeq(s, 1, 1) = " " THEN Strip(SubSeq(s, 2, Len(s))) ELSE s
First(s) == SubSeq(s, 1, 1)
Column(c, from) ==
    Cat([k \in 1..Digits(w) |-> LET l == text[from + k] IN SubSeq(l, At(l, c) + 1, At(l, c) + 1)], 1, Digits(w))
Readable ==
    phase = "end" =>
      /\ Len(text) = Total
      /\ (Fits /\ fmt.width > 0) => \A a, b \in DOMAIN text : Len(text[a]) = Len(text[b])
      /\ (Fits /\ fmt.width > 0 /\ fmt.align = "left") =>
           \A c \in 0..(w - 1) :
              /\ Strip(Column(c, 0)) = ToString(c)
              /\ Strip(Column(c, Digits(w) + h)) = ToString(c)
              /\ \A y \in 0..(h - 1) :
                   LET l == text[Digits(w) + y + 1]
                       t == Shown(texts[y * w + c + 1])
                   IN SubSeq(l, At(l, c) + 1, At(l, c) + Len(t)) = t
      /\ \A y \in 0..(h - 1) : Strip(SubSeq(text[Digits(w) + y + 1], 1, Digits(h))) = ToString(y)
=============================================================================
