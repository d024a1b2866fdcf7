------------------------------- MODULE Printer -------------------------------
(***************************************************************************)
(* How grids are displayed (property C28).  The text is a sequence of      *)
(* lines, which are printed one after the other; `printed` is how many of  *)
(* them there are.                                                         *)
(*                                                                         *)
(* A field is a cell of the grid or the digit over a column, that is       *)
(* padded to the requested width, of which at most so many characters are  *)
(* shown as requested.  The label column is as wide as the longest line    *)
(* number, and a space separates it from the fields.                       *)
(***************************************************************************)
EXTENDS BigInt, TLC
VARIABLES w, h,      \* size of the grid
          texts,     \* text of each cell, in reading order
          fmt,       \* [width, align, fill, most] of the fields
          printed
prvars == <<w, h, texts, fmt, printed>>

\* Concatenations
RECURSIVE Cat(_, _, _)
Cat(f, a, b) ==
    IF a > b THEN "" ELSE IF a = b THEN f[a]
    ELSE LET m == (a + b) \div 2 IN Cat(f, a, m) \o Cat(f, m + 1, b)
Times(s, n) == IF n <= 0 THEN "" ELSE Cat([i \in 1..n |-> s], 1, n)
RightAligned(s, n) == Times(" ", n - Len(s)) \o s

\* Digits of the largest number among 0..(n-1)
Digits(n) == Len(ToString(n - 1))
Shown(s) == IF Len(s) > fmt.most THEN SubSeq(s, 1, fmt.most) ELSE s
Field(text) ==
    LET s == Shown(text)
        missing == fmt.width - Len(s)
        before == IF missing <= 0 \/ fmt.align = "left" THEN 0
                  ELSE IF fmt.align = "right" THEN missing
                  ELSE missing \div 2
    IN Times(fmt.fill, before) \o s \o Times(fmt.fill, missing - before)
Label(s) == RightAligned(s, Digits(h)) \o " "

\* Digit k (from 1) of the number of column x
DigitOf(x, k) == SubSeq(RightAligned(ToString(x), Digits(w)), k, k)
ColumnNumbers(k) == Label("") \o Cat([x \in 1..w |-> Field(DigitOf(x - 1, k))], 1, w)
GridLine(y) == Label(ToString(y)) \o Cat([x \in 1..w |-> Field(texts[y * w + x])], 1, w)

Total == 2 * Digits(w) + h
\* The line that comes after the first n
Line(n) ==
    IF n < Digits(w) THEN ColumnNumbers(n + 1)
    ELSE IF n < Digits(w) + h THEN GridLine(n - Digits(w))
    ELSE ColumnNumbers(n - Digits(w) - h + 1)
Emit(s) ==
    /\ printed < Total
    /\ s = Line(printed)
    /\ printed' = printed + 1 /\ UNCHANGED <<w, h, texts, fmt>>
\* Nothing follows the end of the last line
Done(rest) == printed = Total /\ rest = "" /\ UNCHANGED prvars

(* Texts of other things *)
RECURSIVE LimbsText(_, _)
LimbsText(m, i) ==
    IF i = 0 THEN ""
    ELSE LET s == ToString(m[i]) IN Times("0", 4 - Len(s)) \o s \o LimbsText(m, i - 1)
BigText(a) ==
    IF a[1] = 0 THEN "0"
    ELSE (IF a[1] < 0 THEN "-" ELSE "") \o ToString(a[2][Len(a[2])]) \o LimbsText(a[2], Len(a[2]) - 1)
PosText(x, y) == "(" \o BigText(x) \o "," \o BigText(y) \o ")"
DirText(d) == <<"N", "NE", "E", "SE", "S", "SW", "W", "NW">>[d + 1]
BoolText(b) == IF b THEN "#" ELSE "."
=============================================================================
