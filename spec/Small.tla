-------------------------------- MODULE Small --------------------------------
(***************************************************************************)
(* A bounded universe: for each of the small types of the catalogue all     *)
(* values over a few bytes, all wire strings over a few tokens, and all     *)
(* single (DEEP: also double) corruptions of the encodings.                 *)
(***************************************************************************)
EXTENDS Catalog, FiniteSets, Integers

Deep == "DEEP" \in DOMAIN IOEnv

Tagged(t, c) == \E i \in 1..Len(Types[t].cls) : Types[t].cls[i] = c
\* (of those that factories make with other types' definitions, only where there are such factories)
SmallIds == {t \in 1..Len(Types) : Tagged(t, "mc") \/ ("PROP" \in DOMAIN IOEnv /\ IOEnv.PROP = "C18" /\ Tagged(t, "swapmc"))}
Sound(t) == ~Tagged(t, "zero")

----------------------------------------------------------------------------
(* Values *)

Const(n, x) == LET y == TLCEval(x) IN TLCEval([i \in 1..n |-> y])
OneHot(n, i, x) == TLCEval([j \in 1..n |-> IF j = i THEN x ELSE 0])
\* byte strings of length n
ByteStrs(n) == IF n = 0 THEN {<<>>}
               ELSE {Const(n, 0), Const(n, 255), OneHot(n, 1, 1), OneHot(n, n, 1), OneHot(n, n, 128)}
                    \cup IF Deep THEN {[i \in 1..n |-> 16 * i + 3]} ELSE {}
BitStrs(n) == IF n = 0 THEN {<<>>}
              ELSE {Const(n, 0), Const(n, 1), OneHot(n, 1, 1), OneHot(n, n, 1)}

Cap == IF Deep THEN 400 ELSE 60
Least(n, d) == IF BSmall(d) /\ BInt(d) < n THEN BInt(d) ELSE n

RECURSIVE SeqsOver(_, _), Prod(_, _)
SeqsOver(S, n) == IF n = 0 THEN {<<>>} ELSE {<<a>> \o r : a \in S, r \in SeqsOver(S, n - 1)}
Prod(Ss, i) == IF i > Len(Ss) THEN {<<>>} ELSE {<<a>> \o r : a \in Ss[i], r \in Prod(Ss, i + 1)}

RECURSIVE Pow(_, _), CardProd(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE IF b > 1000 THEN b ELSE b * Pow(b, n - 1)
CardProd(Ss, i) == IF i > Len(Ss) THEN 1
                   ELSE LET r == CardProd(Ss, i + 1) IN IF r > 100000 THEN r ELSE r * Cardinality(Ss[i])

\* the largest value of the universe
RECURSIVE Big(_)
Big(s) ==
  CASE s.k = "basic" -> IF s.b THEN <<1>> ELSE Const(s.n, 255)
    [] s.k = "bytesN" -> Const(s.n, 255)
    [] s.k = "bytes" -> Const(Least(3, s.lim), 255)
    [] s.k = "bitvec" -> Const(s.n, 1)
    [] s.k = "bitlist" -> Const(Least(9, s.lim), 1)
    [] s.k = "vec" -> Const(s.n, Big(s.e))
    [] s.k = "list" -> Const(Least(3, s.lim), Big(s.e))
    [] s.k = "cont" -> [i \in 1..Len(s.fs) |-> Big(s.fs[i])]
RECURSIVE Tiny(_)
Tiny(s) ==
  CASE s.k \in {"basic", "bytesN"} -> Const(s.n, 0)
    [] s.k = "bitvec" -> Const(s.n, 0)
    [] s.k \in {"bytes", "bitlist", "list"} -> <<>>
    [] s.k = "vec" -> Const(s.n, Tiny(s.e))
    [] s.k = "cont" -> [i \in 1..Len(s.fs) |-> Tiny(s.fs[i])]

\* all combinations if they are few, else one part at a time, the others smallest or largest
Combine(Ss, tiny, big) ==
  IF CardProd(Ss, 1) <= Cap THEN Prod(Ss, 1)
  ELSE {tiny, big} \cup UNION {{[tiny EXCEPT ![i] = x] : x \in Ss[i]} \cup {[big EXCEPT ![i] = x] : x \in Ss[i]} : i \in 1..Len(Ss)}

RECURSIVE Values(_)
Series(s, n) == Combine(Const(n, Values(s)), Const(n, Tiny(s)), Const(n, Big(s)))
Values(s) ==
  CASE s.k = "basic" -> IF s.b THEN {<<0>>, <<1>>} ELSE ByteStrs(s.n)
    [] s.k = "bytesN" -> ByteStrs(s.n)
    [] s.k = "bytes" -> UNION {ByteStrs(n) : n \in 0..Least(3, s.lim)}
    [] s.k = "bitvec" -> BitStrs(s.n)
    [] s.k = "bitlist" -> UNION {BitStrs(n) : n \in 0..Least(9, s.lim)}
    [] s.k = "vec" -> Series(s.e, s.n)
    [] s.k = "list" -> UNION {Series(s.e, n) : n \in 0..Least(3, s.lim)}
    [] s.k = "cont" -> Combine(TLCEval([i \in 1..Len(s.fs) |-> TLCEval(Values(s.fs[i]))]), Tiny(s), Big(s))

Vs == TLCEval([i \in SmallIds |-> TLCEval(Values(Sp[i]))])

\* some of them, the smallest and the largest among them
Some(i, k) == LET q == SetToSeq(Vs[i])
                  d == (Len(q) \div k) + 1
              IN {q[j] : j \in {x \in 1..Len(q) : x % d = 0}} \cup {Big(Sp[i]), Tiny(Sp[i])}
Seeds == TLCEval([i \in SmallIds |-> IF Deep THEN Vs[i] ELSE TLCEval(Some(i, 8))])
PairSeeds == TLCEval([i \in SmallIds |-> TLCEval(Some(i, IF Deep THEN 6 ELSE 1))])

(* The Go value of type g that carries v: omitted fields zero. *)
RECURSIVE Unflat(_, _), UnflatFields(_, _, _)
Unflat(g, v) ==
  CASE g.k \in {"bool", "uint"} -> v
    [] g.k = "ptr" -> <<Unflat(g.e, v)>>
    [] g.k = "array" /\ IsByte(g.e) -> IF Has(g, "bl") THEN PackBits(v) ELSE v
    [] g.k = "slice" /\ IsByte(g.e) -> IF Has(g, "bl") THEN BitlistBytes(v) ELSE v
    [] g.k \in {"array", "slice"} -> [i \in 1..Len(v) |-> Unflat(g.e, v[i])]
    [] g.k = "struct" -> UnflatFields(g.fs, v, 1)
UnflatFields(fs, v, i) ==
  IF i > Len(fs) THEN <<>>
  ELSE LET f == fs[i] IN
       IF f.omit THEN <<FreshOf(f.t)>> \o UnflatFields(fs, v, i + 1)
       ELSE LET n == IF Squashed(f) THEN FieldCount(f.t.fs, 1) ELSE 1
                here == IF Squashed(f) THEN Unflat(f.t, SubSeq(v, 1, n)) ELSE Unflat(f.t, v[1])
            IN <<here>> \o UnflatFields(fs, SubSeq(v, n + 1, Len(v)), i + 1)

----------------------------------------------------------------------------
(* Wire strings *)

\* tokens: single bytes, and offsets for types with variable-size parts
RECURSIVE HasOffsets(_)
HasOffsets(s) ==
  CASE s.k = "vec" -> ~s.e.fx \/ HasOffsets(s.e)
    [] s.k = "list" -> ~s.e.fx
    [] s.k = "cont" -> ~s.fx
    [] OTHER -> FALSE
ByteToks == {<<0>>, <<1>>, <<255>>} \cup IF Deep THEN {<<2>>} ELSE {}
MoreBytes == {<<0>>, <<1>>, <<2>>, <<3>>, <<128>>, <<255>>}
OffToks == {OffBytes(x) : x \in {0, 4, 5, 8, 9, 12}} \cup {<<4, 0, 0, 1>>}
           \cup IF Deep THEN {OffBytes(x) : x \in {1, 6, 7, 10, 13, 16}} \cup {<<255, 255, 255, 255>>} ELSE {}
Tokens(s) == IF HasOffsets(s) THEN ByteToks \cup OffToks ELSE MoreBytes
\* how many tokens
TokMax(s) == IF HasOffsets(s) THEN 3 ELSE IF Deep THEN 5 ELSE 4

Cut(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
Insert(w, i, x) == SubSeq(w, 1, i - 1) \o <<x>> \o SubSeq(w, i, Len(w))
Splice(w, i, x) == SubSeq(w, 1, i - 1) \o x \o SubSeq(w, i + Len(x), Len(w))
Flip(b) == IF b >= 128 THEN b - 128 ELSE b + 128
LooksLikeOffset(w, i) == w[i] <= Len(w) + 1 /\ w[i + 1] = 0 /\ w[i + 2] = 0 /\ w[i + 3] = 0
OffPos(w) == {i \in 1..(Len(w) - 3) : LooksLikeOffset(w, i)}
Far(x) == {<<x, 1, 0, 0>>, <<x, 0, 1, 0>>, <<x, 0, 0, 1>>, <<x, 0, 0, 128>>, <<255, 255, 255, 255>>}

Corruptions(s, w) ==
  UNION {{[w EXCEPT ![i] = x] : x \in {0, 1, 2, 128, 255, (w[i] + 1) % 256, (w[i] + 255) % 256, Flip(w[i])}} : i \in 1..Len(w)}
  \cup {Cut(w, i) : i \in 1..Len(w)}
  \cup {Insert(w, i, x) : i \in 1..(Len(w) + 1), x \in {0, 1, 255}}
  \cup {SubSeq(w, 1, i) : i \in 0..Len(w)}
  \cup {w \o x : x \in {<<0, 0>>, <<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<4, 0, 0, 0>>, w}}
  \cup UNION {{Splice(w, i, OffBytes(x)) : x \in 0..(Len(w) + 5)} \cup {Splice(w, i, x) : x \in Far(w[i])} : i \in IF HasOffsets(s) THEN OffPos(w) ELSE {}}
\* two offsets at a time
OffsetPairs(s, w) ==
  IF ~HasOffsets(s) \/ Len(w) > (IF Deep THEN 28 ELSE 24) THEN {} ELSE
  UNION {{Splice(Splice(w, i, OffBytes(x)), j, OffBytes(y)) : x, y \in 0..(Len(w) + 1)}
         : <<i, j>> \in {p \in OffPos(w) \X OffPos(w) : p[1] + 4 <= p[2]}}
=============================================================================
