------------------------------- MODULE Pretty -------------------------------
(***************************************************************************)
(* The text that Pretty writes for a Go value, without white space, as a    *)
(* sequence of character codes.                                             *)
(***************************************************************************)
EXTENDS SSZ

Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexText(bs) == FlattenSeq([i \in 1..Len(bs) |-> <<Digit(bs[i] \div 16), Digit(bs[i] % 16)>>])
ZeroX == <<48, 120>>

\* decimal digits, the least significant first: ten times a number is a shift, so 256 * ds + c
RECURSIVE Carry(_)
Carry(c) == IF c = 0 THEN <<>> ELSE <<c % 10>> \o Carry(c \div 10)
MulAdd(ds, c) ==
  LET r == FoldLeft(LAMBDA a, d : LET x == 256 * d + a[1] IN <<x \div 10, Append(a[2], x % 10)>>, <<c, <<>>>>, ds)
  IN r[2] \o Carry(r[1])
Decimal(bs) ==
  LET ds == FoldRight(LAMBDA b, a : MulAdd(a, b), bs, <<>>)
      top == {i \in 1..Len(ds) : ds[i] # 0}
      n == IF top = {} THEN 1 ELSE CHOOSE i \in top : \A j \in top : j <= i
  IN IF ds = <<>> THEN <<48>> ELSE [i \in 1..n |-> 48 + ds[n + 1 - i]]

BinText(b) == [i \in 1..8 |-> 48 + ((b \div 2^(8 - i)) % 2)]
Joined(ts, sep) == FlattenSeq([i \in 1..Len(ts) |-> IF i = 1 THEN ts[i] ELSE sep \o ts[i]])
Comma == <<44>>

\* the flattened fields of a struct value: names, types, values
RECURSIVE Members(_, _)
Members(fs, gv) ==
  FlattenSeq([i \in 1..Len(fs) |->
     IF fs[i].omit THEN <<>>
     ELSE IF Squashed(fs[i]) THEN Members(fs[i].t.fs, gv[i])
     ELSE <<<<fs[i].nm, fs[i].t, gv[i]>>>>])

RECURSIVE TextOf(_, _)
TextOf(g, gv) ==
  CASE g.k = "ptr" -> IF gv = <<>> THEN <<110, 117, 108, 108>> ELSE TextOf(g.e, gv[1])
    [] g.k = "bool" -> IF gv = <<0>> THEN <<70, 97, 108, 115, 101>> ELSE <<84, 114, 117, 101>>
    [] g.k = "uint" -> IF g.n = 1 THEN ZeroX \o HexText(gv)
                       ELSE IF \A i \in 1..g.n : gv[i] = 255 THEN ZeroX \o [i \in 1..(2 * g.n) |-> 70]
                       ELSE Decimal(gv)
    [] g.k \in {"array", "slice"} /\ IsByte(g.e) ->
         IF Has(g, "bl") THEN <<91>> \o FlattenSeq([i \in 1..Len(gv) |-> BinText(gv[i])]) \o <<93>>
         ELSE ZeroX \o HexText(gv)
    [] g.k \in {"array", "slice"} -> <<91>> \o Joined([i \in 1..Len(gv) |-> TextOf(g.e, gv[i])], Comma) \o <<93>>
    [] g.k = "struct" ->
         LET ms == Members(g.fs, gv) IN
         <<123>> \o Joined([i \in 1..Len(ms) |-> ms[i][1] \o <<58>> \o TextOf(ms[i][2], ms[i][3])], Comma) \o <<125>>
=============================================================================
