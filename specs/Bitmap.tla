------------------------------- MODULE Bitmap -------------------------------
(***************************************************************************)
(* How sqrid stores bit grids (properties C16, C17, C18): words of B bits, *)
(* cell p in bit p % B of word p \div B.  The bits after the last cell are *)
(* padding, which comparisons look at too; with CleanPadding they are kept *)
(* clear by filling, otherwise filling sets them.                          *)
(***************************************************************************)
EXTENDS Symmetry, FiniteSets
CONSTANTS B, Words, CleanPadding
VARIABLE bits  \* of each slot: function from words to sets of bits
bmvars == <<w, h, bits>>

WordOf(p) == p \div B
BitOf(p) == p % B
AllBits == 0..(B - 1)
Empty == [k \in 0..(Words - 1) |-> {}]
Filled ==
    [k \in 0..(Words - 1) |->
       IF CleanPadding /\ k = (w * h) \div B THEN { b \in AllBits : b < (w * h) % B } ELSE AllBits]
Get(g, p) == BitOf(p) \in g[WordOf(p)]
Set(g, p, v) == [g EXCEPT ![WordOf(p)] = IF v THEN @ \cup {BitOf(p)} ELSE @ \ {BitOf(p)}]
SetOf(g) == { p \in Cells : Get(g, p) }

\* One cell after the other
RECURSIVE SetAll(_, _, _)
SetAll(g, ps, v) ==
    IF ps = {} THEN g ELSE LET p == CHOOSE p \in ps : TRUE IN SetAll(Set(g, p, v), ps \ {p}, v)

Begin(n, m, slots) == w = n /\ h = m /\ bits = [s \in slots |-> Empty]
Put(s, g) == bits' = [bits EXCEPT ![s] = g] /\ UNCHANGED <<w, h>>
Fill(s, v) == Put(s, IF v THEN Filled ELSE Empty)
Write(s, p, v) == Put(s, Set(bits[s], p, v))
Bulk(s, ps, v) == Put(s, SetAll(bits[s], ps, v))
\* Cells are swapped in pairs
Swap(g, p, q) == Set(Set(g, p, Get(g, q)), q, Get(g, p))
RECURSIVE SwapAll(_, _, _)
SwapAll(g, ps, sym) ==
    IF ps = {} THEN g
    ELSE LET p == CHOOSE p \in ps : TRUE
         IN SwapAll(Swap(g, p, Image(sym, p)), ps \ {p, Image(sym, p)}, sym)
Flip(s, sym) == Put(s, SwapAll(bits[s], { p \in Cells : Image(sym, p) # p }, sym))
=============================================================================
