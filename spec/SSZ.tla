-------------------------------- MODULE SSZ --------------------------------
(***************************************************************************)
(* What zssz computes, as pure operators.                                   *)
(*                                                                          *)
(*  - Go types ("G-types", as declared by the user) and their elaboration   *)
(*    to SSZ types, or rejection                                            *)
(*  - Go values and the SSZ value they carry                                *)
(*  - canonical serialization, parsing, lengths                             *)
(*  - hash-tree-root and signing-root as symbolic trees                     *)
(*                                                                          *)
(* A G-type is a record:                                                    *)
(*   [k |-> "bool"]  [k |-> "uint", n |-> bytes]                            *)
(*   [k |-> "array", n, e, (bl |-> bits)]      bl: has a BitLen() method    *)
(*   [k |-> "slice", e, (lim |-> digits), (bl |-> TRUE)]                    *)
(*   [k |-> "struct", fs |-> << [t, emb, omit, squash], ... >>]             *)
(*   [k |-> "ptr", e]   [k |-> "bad", name]                                 *)
(* With inv |-> TRUE it has a definition of the user's own: the encodings   *)
(* have all bits inverted, and 7 is mixed into the root.                    *)
(* A Go value: unsigned integers are their little-endian bytes, booleans    *)
(* <<0>> or <<1>>, byte arrays and slices byte tuples, other arrays and     *)
(* slices tuples of values, structs tuples of ALL fields, pointers <<>>     *)
(* (nil) or <<v>>.                                                          *)
(* An SSZ value: as the Go value, but bitfields are tuples of bits and      *)
(* structs are flattened, without pointers and omitted fields.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, BigNat

----------------------------------------------------------------------------
(* Elaboration of Go types *)

Fix(len) == [fx |-> TRUE, fl |-> len, min |-> BOf(len), max |-> BOf(len)]
Var(fl, min, max) == [fx |-> FALSE, fl |-> fl, min |-> min, max |-> max]

Bad(why) == [k |-> "bad", why |-> why]
IsBad(s) == s.k = "bad"

BasicT(n, b)  == [k |-> "basic", n |-> n, b |-> b] @@ Fix(n)
BytesNT(n)    == [k |-> "bytesN", n |-> n] @@ Fix(n)
BytesT(lim)   == [k |-> "bytes", lim |-> lim] @@ Var(0, <<>>, lim)
BitvecT(n)    == [k |-> "bitvec", n |-> n] @@ Fix((n + 7) \div 8)
\* a bitlist of b bits takes b \div 8 + 1 bytes
BitlistT(lim) == [k |-> "bitlist", lim |-> lim] @@
                 Var(0, <<1>>, BAdd(IF BDigit(lim, 1) % 8 = 0 THEN BShrCeil(lim, 3)
                                    ELSE BSub(BShrCeil(lim, 3), <<1>>), <<1>>))
VecT(n, e)    == [k |-> "vec", n |-> n, e |-> e] @@
                 IF e.fx THEN Fix(n * e.fl)
                 ELSE Var(4 * n, BMul(BOf(n), BAdd(<<4>>, e.min)), BMul(BOf(n), BAdd(<<4>>, e.max)))
ListT(lim, e) == [k |-> "list", lim |-> lim, e |-> e] @@
                 Var(0, <<>>, BMul(lim, IF e.fx THEN BOf(e.fl) ELSE BAdd(<<4>>, e.max)))

RECURSIVE SumFl(_, _), SumMin(_, _), SumMax(_, _)
SumFl(fs, i)  == IF i > Len(fs) THEN 0 ELSE (IF fs[i].fx THEN fs[i].fl ELSE 4) + SumFl(fs, i + 1)
SumMin(fs, i) == IF i > Len(fs) THEN <<>>
                 ELSE BAdd(BAdd(fs[i].min, IF fs[i].fx THEN <<>> ELSE <<4>>), SumMin(fs, i + 1))
SumMax(fs, i) == IF i > Len(fs) THEN <<>>
                 ELSE BAdd(BAdd(fs[i].max, IF fs[i].fx THEN <<>> ELSE <<4>>), SumMax(fs, i + 1))
ContT(fs) == [k |-> "cont", fs |-> fs] @@
             IF \A i \in 1..Len(fs) : fs[i].fx THEN Fix(SumFl(fs, 1))
             ELSE Var(SumFl(fs, 1), SumMin(fs, 1), SumMax(fs, 1))

Has(r, f) == f \in DOMAIN r
IsByte(g) == g.k = "uint" /\ g.n = 1
Squashed(f) == f.squash \/ (f.emb /\ f.t.k = "struct")

InvT(e) == IF e.k = "bad" THEN e ELSE [k |-> "inv", e |-> e, fx |-> e.fx, fl |-> e.fl, min |-> e.min, max |-> e.max]

RECURSIVE Elab(_), ElabFields(_, _)
Elab(g) ==
  CASE Has(g, "inv") -> InvT(Elab([a \in DOMAIN g \ {"inv"} |-> g[a]]))
    [] g.k = "bool"   -> BasicT(1, TRUE)
    [] g.k = "uint"   -> BasicT(g.n, FALSE)
    [] g.k = "ptr"    -> Elab(g.e)
    [] g.k = "bad"    -> Bad(g.name)
    [] g.k = "array" /\ IsByte(g.e) ->
         IF Has(g, "bl") THEN IF g.n = (g.bl + 7) \div 8 THEN BitvecT(g.bl) ELSE Bad("bitvector size")
         ELSE BytesNT(g.n)
    [] g.k = "array"  -> LET e == Elab(g.e) IN IF IsBad(e) THEN e ELSE VecT(g.n, e)
    [] g.k = "slice"  ->
         IF ~Has(g, "lim") THEN Bad("slice without a limit")
         ELSE IF IsByte(g.e) THEN IF Has(g, "bl") THEN BitlistT(g.lim) ELSE BytesT(g.lim)
         ELSE LET e == Elab(g.e) IN IF IsBad(e) THEN e ELSE ListT(g.lim, e)
    [] g.k = "struct" -> LET fs == ElabFields(g.fs, 1)
                         IN IF fs = <<>> THEN ContT(<<>>)
                            ELSE IF IsBad(fs[Len(fs)]) THEN fs[Len(fs)] ELSE ContT(fs)

\* The flattened fields from field i on; a bad one ends the sequence.
ElabFields(fs, i) ==
  IF i > Len(fs) THEN <<>>
  ELSE LET f == fs[i] IN
       IF f.omit THEN ElabFields(fs, i + 1)
       ELSE LET e == Elab(f.t) IN
            IF IsBad(e) THEN <<e>>
            ELSE IF f.squash /\ f.t.k # "struct" THEN <<Bad("squash of a non-struct")>>
            ELSE LET here == IF Squashed(f) THEN e.fs ELSE <<e>>
                     rest == ElabFields(fs, i + 1)
                 IN here \o rest

----------------------------------------------------------------------------
(* Bits *)

ByteBits(b) == <<b % 2, (b \div 2) % 2, (b \div 4) % 2, (b \div 8) % 2,
                 (b \div 16) % 2, (b \div 32) % 2, (b \div 64) % 2, b \div 128>>
\* all bits of a byte tuple, least significant first
Bits(bs) == TLCEval([i \in 1..(8 * Len(bs)) |-> (bs[(i - 1) \div 8 + 1] \div 2^((i - 1) % 8)) % 2])
BitAt(bits, i) == IF i <= Len(bits) THEN bits[i] ELSE 0
\* bits -> bytes, padded with zero bits
PackBits(bits) == TLCEval(
  [j \in 1..((Len(bits) + 7) \div 8) |->
     LET o == 8 * (j - 1) IN
     BitAt(bits, o + 1) + 2 * BitAt(bits, o + 2) + 4 * BitAt(bits, o + 3) + 8 * BitAt(bits, o + 4)
     + 16 * BitAt(bits, o + 5) + 32 * BitAt(bits, o + 6) + 64 * BitAt(bits, o + 7) + 128 * BitAt(bits, o + 8)])

\* Well-formed raw bitvector of n bits / bitlist of at most lim bits
BitvecOK(bs, n) == /\ Len(bs) = (n + 7) \div 8
                   /\ n % 8 # 0 => bs[Len(bs)] < 2^(n % 8)
BitvecBits(bs, n) == SubSeq(Bits(bs), 1, n)
RawBitlen(bs) == 8 * (Len(bs) - 1) + BitLen8(bs[Len(bs)]) - 1
BitlistOK(bs, lim) == /\ Len(bs) > 0
                      /\ bs[Len(bs)] # 0
                      /\ BLeq(BOf(RawBitlen(bs)), lim)
BitlistBits(bs) == SubSeq(Bits(bs), 1, RawBitlen(bs))
BitlistBytes(bits) == PackBits(Append(bits, 1))

----------------------------------------------------------------------------
(* Go values *)

Map(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

RECURSIVE Flat(_, _), FlatFields(_, _, _)
\* The SSZ value carried by Go value gv of G-type g (well-formed, no nil pointer on the way).
Flat(g, gv) ==
  CASE g.k \in {"bool", "uint"} -> gv
    [] g.k = "ptr" -> Flat(g.e, gv[1])
    [] g.k = "array" /\ IsByte(g.e) -> IF Has(g, "bl") THEN BitvecBits(gv, g.bl) ELSE gv
    [] g.k = "slice" /\ IsByte(g.e) -> IF Has(g, "bl") THEN BitlistBits(gv) ELSE gv
    [] g.k \in {"array", "slice"} -> [i \in 1..Len(gv) |-> Flat(g.e, gv[i])]
    [] g.k = "struct" -> FlatFields(g.fs, gv, 1)
FlatFields(fs, gv, i) ==
  IF i > Len(fs) THEN <<>>
  ELSE LET f == fs[i] IN
       (IF f.omit THEN <<>> ELSE IF Squashed(f) THEN Flat(f.t, gv[i]) ELSE <<Flat(f.t, gv[i])>>)
       \o FlatFields(fs, gv, i + 1)

RECURSIVE WellFormed(_, _)
\* A valid value of the type: no nil pointers, limits respected, bitfields and booleans well-formed.
WellFormed(g, gv) ==
  CASE g.k = "bool" -> gv \in {<<0>>, <<1>>}
    [] g.k = "uint" -> Len(gv) = g.n
    [] g.k = "ptr"  -> Len(gv) = 1 /\ WellFormed(g.e, gv[1])
    [] g.k = "array" /\ IsByte(g.e) -> Len(gv) = g.n /\ (Has(g, "bl") => BitvecOK(gv, g.bl))
    [] g.k = "slice" /\ IsByte(g.e) -> IF Has(g, "bl") THEN BitlistOK(gv, g.lim) ELSE BLeq(BOf(Len(gv)), g.lim)
    [] g.k = "array" -> Len(gv) = g.n /\ \A i \in 1..Len(gv) : WellFormed(g.e, gv[i])
    [] g.k = "slice" -> BLeq(BOf(Len(gv)), g.lim) /\ \A i \in 1..Len(gv) : WellFormed(g.e, gv[i])
    [] g.k = "struct" -> \A i \in 1..Len(g.fs) : g.fs[i].omit \/ WellFormed(g.fs[i].t, gv[i])

RECURSIVE FieldCount(_, _), FreshOf(_)
FieldCount(fs, i) ==
  IF i > Len(fs) THEN 0
  ELSE (IF fs[i].omit THEN 0 ELSE IF Squashed(fs[i]) THEN FieldCount(fs[i].t.fs, 1) ELSE 1) + FieldCount(fs, i + 1)

\* The zero value of a Go type (slices and pointers nil).
FreshOf(g) ==
  CASE g.k = "bool" -> <<0>>
    [] g.k = "uint" -> [i \in 1..g.n |-> 0]
    [] g.k \in {"ptr", "slice"} -> <<>>
    [] g.k = "array" -> IF IsByte(g.e) THEN [i \in 1..g.n |-> 0] ELSE [i \in 1..g.n |-> FreshOf(g.e)]
    [] g.k = "struct" -> [i \in 1..Len(g.fs) |-> FreshOf(g.fs[i].t)]
    [] g.k = "bad" -> <<>>

RECURSIVE Shaped(_, _)
\* gv has the shape of a Go value of the type (not necessarily valid): Flat may be applied if nil pointers are absent
Shaped(g, gv) ==
  CASE g.k \in {"bool", "uint"} -> TRUE
    [] g.k = "ptr" -> Len(gv) = 1 /\ Shaped(g.e, gv[1])
    [] g.k \in {"array", "slice"} /\ IsByte(g.e) ->
         Has(g, "bl") => IF g.k = "array" THEN BitvecOK(gv, g.bl) ELSE Len(gv) > 0 /\ gv[Len(gv)] # 0
    [] g.k \in {"array", "slice"} -> \A i \in 1..Len(gv) : Shaped(g.e, gv[i])
    [] g.k = "struct" -> \A i \in 1..Len(g.fs) : g.fs[i].omit \/ Shaped(g.fs[i].t, gv[i])

RECURSIVE Agree(_, _, _, _), AgreeFields(_, _, _, _, _)
(* new is what a destination that held old may hold after decoding SSZ     *)
(* value v: v in every serialised field, omitted fields as they were       *)
(* (except inside lists, whose elements may have been allocated anew).     *)
Agree(g, old, new, v) ==
  CASE g.k = "ptr" -> Len(new) = 1 /\ IF old = <<>> THEN Shaped(g.e, new[1]) /\ Flat(g.e, new[1]) = v
                                      ELSE Agree(g.e, old[1], new[1], v)
    [] g.k = "array" /\ ~IsByte(g.e) ->
         Len(new) = Len(v) /\ \A i \in 1..Len(new) : Agree(g.e, old[i], new[i], v[i])
    [] g.k = "struct" -> AgreeFields(g.fs, old, new, v, 1)
    [] OTHER -> Shaped(g, new) /\ Flat(g, new) = v
AgreeFields(fs, old, new, v, i) ==
  IF i > Len(fs) THEN v = <<>>
  ELSE LET f == fs[i] IN
       IF f.omit THEN new[i] = old[i] /\ AgreeFields(fs, old, new, v, i + 1)
       ELSE LET n == IF Squashed(f) THEN FieldCount(f.t.fs, 1) ELSE 1 IN
            /\ Len(v) >= n
            /\ IF Squashed(f) THEN Agree(f.t, old[i], new[i], SubSeq(v, 1, n))
               ELSE Agree(f.t, old[i], new[i], v[1])
            /\ AgreeFields(fs, old, new, SubSeq(v, n + 1, Len(v)), i + 1)

----------------------------------------------------------------------------
(* Serialization *)

\* four-byte little-endian offset
OffBytes(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, x \div 16777216>>

RECURSIVE Ser(_, _)
\* ps: parts <<isFixed, bytes>>; fixed-size parts in place, offsets for the others, whose bytes follow
JoinParts(ps) ==
  LET fixedLen == FoldLeft(LAMBDA a, p : a + IF p[1] THEN Len(p[2]) ELSE 4, 0, ps)
      \* <<head, tail, next offset>>
      step(a, p) == IF p[1] THEN <<a[1] \o p[2], a[2], a[3]>>
                    ELSE <<a[1] \o OffBytes(a[3]), a[2] \o p[2], a[3] + Len(p[2])>>
      r == FoldLeft(step, <<(<<>>), (<<>>), fixedLen>>, ps)
  IN r[1] \o r[2]

Invert(b) == [i \in 1..Len(b) |-> 255 - b[i]]

Ser(s, v) ==
  CASE s.k = "inv" -> Invert(Ser(s.e, v))
    [] s.k \in {"basic", "bytesN", "bytes"} -> v
    [] s.k = "bitvec"  -> PackBits(v)
    [] s.k = "bitlist" -> BitlistBytes(v)
    [] s.k \in {"vec", "list"} ->
         IF s.e.fx THEN FlattenSeq(TLCEval([i \in 1..Len(v) |-> Ser(s.e, v[i])]))
         ELSE JoinParts([i \in 1..Len(v) |-> <<FALSE, Ser(s.e, v[i])>>])
    [] s.k = "cont" -> JoinParts([i \in 1..Len(v) |-> <<s.fs[i].fx, Ser(s.fs[i], v[i])>>])

(***************************************************************************)
(* Parsing: the inverse. <<TRUE, v>> if b is the serialization of a valid   *)
(* value v, <<FALSE, <<>> >> otherwise.                                     *)
(***************************************************************************)
No == <<FALSE, <<>>>>
Yes(v) == <<TRUE, v>>

Huge == 1073741824
\* the offset at b[i..i+3]; anything of 8 MiB or more is just Huge
OffAt(b, i) == IF b[i + 3] > 0 \/ b[i + 2] > 127 THEN Huge
               ELSE b[i] + 256 * b[i + 1] + 65536 * b[i + 2]

\* the span of the i-th variable part, given the offsets
VarPart(b, offs, i) == SubSeq(b, offs[i] + 1, IF i = Len(offs) THEN Len(b) ELSE offs[i + 1])
OffsOK(b, offs, first) ==
  /\ offs[1] = first
  /\ \A i \in 1..Len(offs) : offs[i] <= Len(b) /\ (i > 1 => offs[i - 1] <= offs[i])

All(rs) == IF \A i \in 1..Len(rs) : rs[i][1] THEN Yes([i \in 1..Len(rs) |-> rs[i][2]]) ELSE No

RECURSIVE Parse(_, _), FieldStart(_, _)
FieldStart(fs, i) == IF i = 1 THEN 0 ELSE FieldStart(fs, i - 1) + (IF fs[i - 1].fx THEN fs[i - 1].fl ELSE 4)

ParseFixedSeries(e, b, n) == All(TLCEval([i \in 1..n |-> Parse(e, SubSeq(b, (i - 1) * e.fl + 1, i * e.fl))]))
ParseVarSeries(e, b, n) ==
  IF Len(b) < 4 * n THEN No
  ELSE LET offs == TLCEval([i \in 1..n |-> OffAt(b, 4 * i - 3)])
       IN IF ~OffsOK(b, offs, 4 * n) THEN No
          ELSE All(TLCEval([i \in 1..n |-> Parse(e, VarPart(b, offs, i))]))

Parse(s, b) ==
  CASE s.k = "inv"     -> Parse(s.e, Invert(b))
    [] s.k = "basic"   -> IF Len(b) = s.n /\ (s.b => b[1] <= 1) THEN Yes(b) ELSE No
    [] s.k = "bytesN"  -> IF Len(b) = s.n THEN Yes(b) ELSE No
    [] s.k = "bytes"   -> IF BLeq(BOf(Len(b)), s.lim) THEN Yes(b) ELSE No
    [] s.k = "bitvec"  -> IF BitvecOK(b, s.n) THEN Yes(BitvecBits(b, s.n)) ELSE No
    [] s.k = "bitlist" -> IF BitlistOK(b, s.lim) THEN Yes(BitlistBits(b)) ELSE No
    [] s.k = "vec" ->
         IF s.e.fx THEN IF Len(b) = s.n * s.e.fl THEN ParseFixedSeries(s.e, b, s.n) ELSE No
         ELSE IF s.n = 0 THEN IF b = <<>> THEN Yes(<<>>) ELSE No
         ELSE ParseVarSeries(s.e, b, s.n)
    [] s.k = "list" ->
         IF s.e.fx
         THEN \* the length of a list of zero-size elements cannot be told: refused
              IF s.e.fl = 0 \/ Len(b) % s.e.fl # 0 THEN No
              ELSE LET n == Len(b) \div s.e.fl
                   IN IF BLeq(BOf(n), s.lim) THEN ParseFixedSeries(s.e, b, n) ELSE No
         ELSE IF b = <<>> THEN Yes(<<>>)
         ELSE IF Len(b) < 4 THEN No
         ELSE LET o == OffAt(b, 1) IN
              IF o = 0 \/ o % 4 # 0 \/ o > Len(b) \/ ~BLeq(BOf(o \div 4), s.lim) THEN No
              ELSE ParseVarSeries(s.e, b, o \div 4)
    [] s.k = "cont" ->
         IF (s.fx /\ Len(b) # s.fl) \/ Len(b) < s.fl THEN No
         ELSE LET n    == Len(s.fs)
                  vi   == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~s.fs[i].fx)
                  offs == TLCEval([j \in 1..Len(vi) |-> OffAt(b, FieldStart(s.fs, vi[j]) + 1)])
                  part(i) == IF s.fs[i].fx
                             THEN LET o == FieldStart(s.fs, i) IN SubSeq(b, o + 1, o + s.fs[i].fl)
                             ELSE VarPart(b, offs, CHOOSE j \in 1..Len(vi) : vi[j] = i)
              IN IF ~s.fx /\ ~OffsOK(b, offs, s.fl) THEN No
                 ELSE All(TLCEval([i \in 1..n |-> Parse(s.fs[i], part(i))]))

----------------------------------------------------------------------------
(* Merkleization. Trees: <<0, chunk>> a chunk (without its trailing zero    *)
(* bytes), <<1, l, r>> a node, <<2, d>> the all-zero tree of depth d.       *)

RECURSIVE RStrip(_)
RStrip(b) == IF b = <<>> THEN <<>> ELSE IF b[Len(b)] = 0 THEN RStrip(SubSeq(b, 1, Len(b) - 1)) ELSE b

Z(d) == <<2, d>>
Leaf(chunk) == LET c == RStrip(chunk) IN IF c = <<>> THEN Z(0) ELSE <<0, c>>
Node(l, r) == IF l[1] = 2 /\ r[1] = 2 /\ l[2] = r[2] THEN Z(l[2] + 1) ELSE <<1, l, r>>

RECURSIVE Tree(_, _)
\* the tree of depth d over the given leaves (themselves trees), zero leaves behind them
Tree(leaves, d) ==
  IF leaves = <<>> THEN Z(d)
  ELSE IF d = 0 THEN leaves[1]
  ELSE LET n == Len(leaves)
           half == IF d > 20 THEN n ELSE BMin(2^(d - 1), n)
       IN Node(Tree(SubSeq(leaves, 1, half), d - 1), Tree(SubSeq(leaves, half + 1, n), d - 1))

Chunks(b) == TLCEval([i \in 1..((Len(b) + 31) \div 32) |-> Leaf(SubSeq(b, 32 * i - 31, IF 32 * i > Len(b) THEN Len(b) ELSE 32 * i))])
MixIn(t, n) == Node(t, Leaf(BOf(n)))

Log2(n) == CASE n = 1 -> 0 [] n = 2 -> 1 [] n = 4 -> 2 [] n = 8 -> 3 [] n = 16 -> 4 [] n = 32 -> 5
\* depth of a tree of lim packed elements of n bytes each
PackedDepth(lim, n) == BCeilLog2(BShrCeil(lim, 5 - Log2(n)))
Depth(n) == BCeilLog2(BOf(n))

RECURSIVE HTR(_, _)
HTR(s, v) ==
  CASE s.k = "inv"     -> MixIn(HTR(s.e, v), 7)
    [] s.k = "basic"   -> Leaf(v)
    [] s.k = "bytesN"  -> Tree(Chunks(v), Depth((s.n + 31) \div 32))
    [] s.k = "bytes"   -> MixIn(Tree(Chunks(v), PackedDepth(s.lim, 1)), Len(v))
    [] s.k = "bitvec"  -> Tree(Chunks(PackBits(v)), Depth((s.n + 255) \div 256))
    [] s.k = "bitlist" -> MixIn(Tree(Chunks(PackBits(v)), BCeilLog2(BShrCeil(s.lim, 8))), Len(v))
    [] s.k = "vec" -> IF s.e.k = "basic" THEN Tree(Chunks(Ser(s, v)), Depth((s.fl + 31) \div 32))
                      ELSE Tree(TLCEval([i \in 1..Len(v) |-> HTR(s.e, v[i])]), Depth(s.n))
    [] s.k = "list" -> MixIn(IF s.e.k = "basic" THEN Tree(Chunks(Ser(s, v)), PackedDepth(s.lim, s.e.n))
                             ELSE Tree(TLCEval([i \in 1..Len(v) |-> HTR(s.e, v[i])]), BCeilLog2(s.lim)), Len(v))
    [] s.k = "cont" -> Tree(TLCEval([i \in 1..Len(v) |-> HTR(s.fs[i], v[i])]), Depth(Len(v)))

\* the container without its last field
SigningRoot(s, v) ==
  LET n == IF Len(v) = 0 THEN 0 ELSE Len(v) - 1
  IN Tree(TLCEval([i \in 1..n |-> HTR(s.fs[i], v[i])]), Depth(n))

(* The sibling path, bottom up, of the leaf of Tree(leaves, d) whose index has  *)
(* the bits ib (least significant first, d of them).                            *)
RECURSIVE Branch(_, _, _)
Branch(leaves, d, ib) ==
  IF d = 0 THEN <<>>
  ELSE LET n == Len(leaves)
           half == IF d > 20 THEN n ELSE BMin(2^(d - 1), n)
           l == SubSeq(leaves, 1, half)
           r == SubSeq(leaves, half + 1, n)
       IN IF ib[d] = 0 THEN Append(Branch(l, d - 1, ib), Tree(r, d - 1))
          ELSE Append(Branch(r, d - 1, ib), Tree(l, d - 1))

RECURSIVE BitsToInt(_)
BitsToInt(ib) == IF ib = <<>> THEN 0 ELSE Head(ib) + 2 * BitsToInt(Tail(ib))
LeafAt(leaves, ib) ==
  IF \E i \in 21..Len(ib) : ib[i] = 1 THEN Z(0)
  ELSE LET i == BitsToInt(SubSeq(ib, 1, BMin(20, Len(ib)))) IN IF i < Len(leaves) THEN leaves[i + 1] ELSE Z(0)

\* folding a leaf with its branch
RECURSIVE FoldBranch(_, _, _, _)
FoldBranch(node, branch, ib, j) ==
  IF j > Len(branch) THEN node
  ELSE FoldBranch(IF ib[j] = 0 THEN Node(node, branch[j]) ELSE Node(branch[j], node), branch, ib, j + 1)
----------------------------------------------------------------------------
\* upper estimate of the bytes a fuzz decode may take
RECURSIVE FuzzUp(_), FuzzUpSum(_, _)
FuzzUp(s) ==
  CASE s.k = "inv" -> FuzzUp(s.e)
    [] s.k \in {"basic", "bytesN", "bitvec"} -> BOf(s.fl)
    [] s.k = "bytes" -> BAdd(<<8>>, s.lim)
    [] s.k = "bitlist" -> BAdd(<<8>>, s.max)
    [] s.k = "vec" -> BMul(BOf(s.n), FuzzUp(s.e))
    [] s.k = "list" -> BAdd(<<8>>, BMul(s.lim, FuzzUp(s.e)))
    [] s.k = "cont" -> FuzzUpSum(s.fs, 1)
FuzzUpSum(fs, i) == IF i > Len(fs) THEN <<>> ELSE BAdd(FuzzUp(fs[i]), FuzzUpSum(fs, i + 1))
=============================================================================
