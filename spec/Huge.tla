-------------------------------- MODULE Huge --------------------------------
(***************************************************************************)
(* Serialization, parsing and hash-tree-roots of values of any size.        *)
(*                                                                          *)
(* A rope is a byte string as its runs of equal bytes, in normal form: a    *)
(* tuple of <<length, byte>>, lengths as digits (BigNat), none zero, no two *)
(* neighbours with the same byte. Equal byte strings are equal ropes.       *)
(*                                                                          *)
(* Values are those of SSZ.tla, except that byte strings, bitfields         *)
(* (undecoded), and series of basic values (as their bytes) are ropes.      *)
(* The operators are those of SSZ.tla once more, over ropes and without     *)
(* TLC's 31-bit integers; HugeMC checks that they agree.                    *)
(***************************************************************************)
EXTENDS SSZ

RLen(r) == TLCEval(FoldLeft(LAMBDA a, x : BAdd(a, x[1]), <<>>, r))

RPush(r, x) == IF x[1] = <<>> THEN r
               ELSE IF r # <<>> /\ r[Len(r)][2] = x[2]
               THEN [r EXCEPT ![Len(r)] = <<BAdd(@[1], x[1]), x[2]>>] ELSE Append(r, x)
RCat(a, b) == IF b = <<>> THEN a ELSE RPush(a, b[1]) \o Tail(b)
RFlat(rs) == FoldLeft(RCat, <<>>, rs)

\* where the runs end
RSums(r) == TLCEval(FoldLeft(LAMBDA a, x : Append(a, IF a = <<>> THEN x[1] ELSE BAdd(a[Len(a)], x[1])), <<>>, r))
RECURSIVE RIdx(_, _, _, _)
\* how many of the runs end at position p or before, given that between lo and hi do
RIdx(sums, p, lo, hi) == IF lo = hi THEN lo
                         ELSE LET m == (lo + hi + 1) \div 2 IN
                              IF BLeq(sums[m], p) THEN RIdx(sums, p, m, hi) ELSE RIdx(sums, p, lo, m - 1)
\* the bytes from position a to position b, which is at least a and at most the length
RSub(r, sums, a, b) ==
  IF a = b THEN <<>>
  ELSE LET i == RIdx(sums, a, 0, Len(r))
           j == RIdx(sums, b, i, Len(r))
       IN IF i = j THEN <<<<BSub(b, a), r[i + 1][2]>>>>
          ELSE <<<<BSub(sums[i + 1], a), r[i + 1][2]>>>> \o SubSeq(r, i + 2, j)
               \o IF sums[j] = b THEN <<>> ELSE <<<<BSub(b, sums[j]), r[j + 1][2]>>>>
\* without its first n bytes; its first n bytes (n at most the length)
RDrop(r, n) == LET sums == RSums(r) IN IF r = <<>> THEN r ELSE RSub(r, sums, n, sums[Len(r)])
RTake(r, n) == RSub(r, RSums(r), <<>>, n)
\* cut into pieces of these lengths (together at most the length)
RCuts(r, ls) ==
  LET sums == RSums(r)
      ends == RSums(TLCEval([i \in 1..Len(ls) |-> <<ls[i]>>]))
  IN TLCEval([i \in 1..Len(ls) |-> RSub(r, sums, IF i = 1 THEN <<>> ELSE ends[i - 1], ends[i])])
RSlice(r, from, to) == RTake(RDrop(r, from), BSub(to, from))
\* the n bytes (an ordinary integer) from position p on, as a tuple
RBytes(r, p, n) == IF n = 0 THEN <<>>
                   ELSE LET x == RSub(r, RSums(r), p, BAdd(p, BOf(n))) IN FlattenSeq([i \in 1..Len(x) |-> [k \in 1..BInt(x[i][1]) |-> x[i][2]]])
RLast(r) == r[Len(r)][2]
\* a byte tuple as a rope
ROf(b) == FoldLeft(LAMBDA a, x : RPush(a, <<<<1>>, x>>), <<>>, b)
RZeros(n) == IF n = <<>> THEN <<>> ELSE <<<<n, 0>>>>

----------------------------------------------------------------------------
(* Which values are ropes *)

IsRope(s) == s.k \in {"basic", "bytesN", "bytes", "bitvec", "bitlist"} \/ (s.k \in {"vec", "list"} /\ s.e.k = "basic")

RECURSIVE HFlat(_, _), HFlatFields(_, _, _)
\* the SSZ value carried by a Go value (of nil pointers, nothing)
HFlat(g, gv) ==
  CASE g.k \in {"bool", "uint"} -> gv
    [] g.k = "ptr" -> IF gv = <<>> THEN <<>> ELSE HFlat(g.e, gv[1])
    [] g.k \in {"array", "slice"} -> IF g.e.k \in {"bool", "uint"} THEN gv ELSE [i \in 1..Len(gv) |-> HFlat(g.e, gv[i])]
    [] g.k = "struct" -> HFlatFields(g.fs, gv, 1)
HFlatFields(fs, gv, i) ==
  IF i > Len(fs) THEN <<>>
  ELSE LET f == fs[i] IN
       (IF f.omit THEN <<>> ELSE IF Squashed(f) THEN HFlat(f.t, gv[i]) ELSE <<HFlat(f.t, gv[i])>>)
       \o HFlatFields(fs, gv, i + 1)

\* is no serialised pointer nil
RECURSIVE HShaped(_, _)
HShaped(g, gv) ==
  CASE g.k \in {"bool", "uint"} -> TRUE
    [] g.k = "ptr" -> gv # <<>> /\ HShaped(g.e, gv[1])
    [] g.k \in {"array", "slice"} -> g.e.k \in {"bool", "uint"} \/ \A i \in 1..Len(gv) : HShaped(g.e, gv[i])
    [] g.k = "struct" -> \A i \in 1..Len(gv) : g.fs[i].omit \/ HShaped(g.fs[i].t, gv[i])

----------------------------------------------------------------------------
(* Serialization. <<TRUE, rope>>, or <<FALSE, <<>> >> when an offset does   *)
(* not fit in its four bytes: then there is no encoding.                    *)

NoRope == <<FALSE, <<>>>>
OffRope(x) == ROf(<<BDigit(x, 1), BDigit(x, 2), BDigit(x, 3), BDigit(x, 4)>>)

RECURSIVE HSer(_, _)
HJoin(ps) ==
  LET fixedLen == FoldLeft(LAMBDA a, p : BAdd(a, IF p[1] THEN RLen(p[2][2]) ELSE <<4>>), <<>>, ps)
      \* <<head, tail, next offset, all offsets fit>>
      step(a, p) == IF p[1] THEN <<RCat(a[1], p[2][2]), a[2], a[3], a[4]>>
                    ELSE <<RCat(a[1], OffRope(a[3])), RCat(a[2], p[2][2]), BAdd(a[3], RLen(p[2][2])), a[4] /\ BFits(a[3], 4)>>
      r == FoldLeft(step, <<(<<>>), (<<>>), fixedLen, TRUE>>, ps)
  IN IF r[4] /\ \A i \in 1..Len(ps) : ps[i][2][1] THEN <<TRUE, RCat(r[1], r[2])>> ELSE NoRope

HSer(s, v) ==
  CASE IsRope(s) -> <<TRUE, v>>
    [] s.k \in {"vec", "list"} -> HJoin(TLCEval([i \in 1..Len(v) |-> <<s.e.fx, HSer(s.e, v[i])>>]))
    [] s.k = "cont" -> HJoin(TLCEval([i \in 1..Len(v) |-> <<s.fs[i].fx, HSer(s.fs[i], v[i])>>]))

----------------------------------------------------------------------------
(* Parsing, as in SSZ.tla *)

BModSmall(a, k) == BDigit(a, 1) % k \* for powers of two up to 256
BPow2(k) == [i \in 1..(k \div 8) |-> 0] \o <<2^(k % 8)>>
\* a \div 2^k, k <= 8
BShr(a, k) == LET q == BShrCeil(a, k) IN IF BModSmall(a, 2^k) = 0 THEN q ELSE BSub(q, <<1>>)

RECURSIVE BDivFrom(_, _, _, _)
\* <<quotient, remainder>> of a by d (1 .. 2^20), digit by digit
BDivFrom(a, d, i, rem) ==
  IF i = 0 THEN <<(<<>>), rem>>
  ELSE LET x == rem * 256 + a[i]
           r == BDivFrom(a, d, i - 1, x % d)
       IN <<Append(r[1], x \div d), r[2]>>
BDiv(a, d) == LET r == BDivFrom(a, d, Len(a), 0) IN <<BTrim(r[1]), r[2]>>

HOff(r) == BTrim(RBytes(r, <<>>, 4))

HBitlistOK(r, lim) ==
  /\ r # <<>> /\ RLast(r) # 0
  /\ BLeq(BAdd(BMulD(BSub(RLen(r), <<1>>), 8), BOf(BitLen8(RLast(r)) - 1)), lim)

\* what lies between the offsets, and behind the last
HVarParts(r, offs) == RCuts(RDrop(r, offs[1]), TLCEval([i \in 1..Len(offs) |-> BSub(IF i = Len(offs) THEN RLen(r) ELSE offs[i + 1], offs[i])]))
HOffsOK(r, offs, first) ==
  /\ offs[1] = first
  /\ \A i \in 1..Len(offs) : BLeq(offs[i], RLen(r)) /\ (i > 1 => BLeq(offs[i - 1], offs[i]))

BoolRope(s, r) == (s.k = "basic" /\ s.b) => \A i \in 1..Len(r) : r[i][2] <= 1

RECURSIVE HParse(_, _)
HFixedSeries(e, r, n) ==
  LET ps == RCuts(r, [i \in 1..n |-> BOf(e.fl)])
  IN All(TLCEval([i \in 1..n |-> HParse(e, ps[i])]))
HVarSeries(e, r, n) ==
  IF BLess(RLen(r), BOf(4 * n)) THEN No
  ELSE LET heads == RCuts(r, [i \in 1..n |-> <<4>>])
           offs  == TLCEval([i \in 1..n |-> HOff(heads[i])])
       IN IF ~HOffsOK(r, offs, BOf(4 * n)) THEN No
          ELSE LET ps == HVarParts(r, offs)
               IN All(TLCEval([i \in 1..n |-> HParse(e, ps[i])]))

HParse(s, r) ==
  LET len == RLen(r) IN
  CASE s.k = "basic"   -> IF len = BOf(s.n) /\ BoolRope(s, r) THEN Yes(r) ELSE No
    [] s.k = "bytesN"  -> IF len = BOf(s.n) THEN Yes(r) ELSE No
    [] s.k = "bytes"   -> IF BLeq(len, s.lim) THEN Yes(r) ELSE No
    [] s.k = "bitvec"  -> IF len = BOf(s.fl) /\ (s.n % 8 # 0 => RLast(r) < 2^(s.n % 8)) THEN Yes(r) ELSE No
    [] s.k = "bitlist" -> IF HBitlistOK(r, s.lim) THEN Yes(r) ELSE No
    [] s.k = "vec" ->
         IF s.e.fx THEN IF len # BOf(s.fl) THEN No
                        ELSE IF s.e.k = "basic" THEN IF BoolRope(s.e, r) THEN Yes(r) ELSE No
                        ELSE HFixedSeries(s.e, r, s.n)
         ELSE IF s.n = 0 THEN IF r = <<>> THEN Yes(<<>>) ELSE No
         ELSE HVarSeries(s.e, r, s.n)
    [] s.k = "list" ->
         IF s.e.fx
         THEN IF s.e.fl = 0 THEN No
              ELSE LET q == BDiv(len, s.e.fl) IN
                   IF q[2] # 0 \/ ~BLeq(q[1], s.lim) THEN No
                   ELSE IF s.e.k = "basic" THEN IF BoolRope(s.e, r) THEN Yes(r) ELSE No
                   ELSE HFixedSeries(s.e, r, BInt(q[1]))
         ELSE IF r = <<>> THEN Yes(<<>>)
         ELSE IF BLess(len, <<4>>) THEN No
         ELSE LET o == HOff(r) IN
              IF o = <<>> \/ BModSmall(o, 4) # 0 \/ BLess(len, o) \/ ~BLeq(BShr(o, 2), s.lim) THEN No
              ELSE HVarSeries(s.e, r, BInt(BShr(o, 2)))
    [] s.k = "cont" ->
         IF (s.fx /\ len # BOf(s.fl)) \/ BLess(len, BOf(s.fl)) THEN No
         ELSE LET n     == Len(s.fs)
                  heads == RCuts(r, TLCEval([i \in 1..n |-> IF s.fs[i].fx THEN BOf(s.fs[i].fl) ELSE <<4>>]))
                  vi    == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~s.fs[i].fx)
                  offs  == TLCEval([j \in 1..Len(vi) |-> HOff(heads[vi[j]])])
              IN IF ~s.fx /\ ~HOffsOK(r, offs, BOf(s.fl)) THEN No
                 ELSE LET tails   == IF s.fx THEN <<>> ELSE HVarParts(r, offs)
                          part(i) == IF s.fs[i].fx THEN heads[i] ELSE tails[CHOOSE j \in 1..Len(vi) : vi[j] = i]
                      IN All(TLCEval([i \in 1..n |-> HParse(s.fs[i], part(i))]))

----------------------------------------------------------------------------
(* Hash-tree-roots: trees as in SSZ.tla, and <<3, t, d>>, the tree of depth *)
(* d all of whose leaves are t. The leaves are given as runs <<count, t>>.  *)

Rep(t, d) == IF d = 0 THEN t ELSE IF t[1] = 2 THEN Z(t[2] + d) ELSE <<3, t, d>>

RECURSIVE RunTree(_, _)
RunTree(ls, d) ==
  IF ls = <<>> THEN Z(d)
  ELSE LET cap == BPow2(d) IN
       IF Len(ls) = 1 /\ ls[1][1] = cap THEN Rep(ls[1][2], d)
       ELSE IF d = 0 THEN ls[1][2]
       ELSE LET half == BPow2(d - 1)
                n == RLen(ls)
            IN IF BLeq(n, half) THEN Node(RunTree(ls, d - 1), Z(d - 1))
               ELSE Node(RunTree(RTake(ls, half), d - 1), RunTree(RDrop(ls, half), d - 1))

\* a leaf
HLeafAt(ls, idx) == IF BLeq(RLen(ls), idx) THEN Z(0) ELSE RDrop(ls, idx)[1][2]

\* Zero leaves at the end change nothing, but RTake must not find the runs too short: none are added.
\* the chunks of a rope, as runs of leaves
RChunks(r) ==
  LET whole(b) == Leaf([i \in 1..32 |-> b])
      \* <<bytes of a chunk not complete yet, runs>>
      step(a, x) ==
        LET gap == 32 - Len(a[1]) \* missing in the chunk
            m   == IF a[1] = <<>> THEN 0 ELSE IF BLess(x[1], BOf(gap)) THEN BInt(x[1]) ELSE gap
            p   == a[1] \o [i \in 1..m |-> x[2]]
            ls  == IF Len(p) = 32 THEN Append(a[2], <<(<<1>>), Leaf(p)>>) ELSE a[2]
            n   == BSub(x[1], BOf(m))
            k   == BShr(n, 5)
            t   == BModSmall(n, 32)
        IN IF Len(p) < 32 /\ p # <<>> THEN <<p, ls>>
           ELSE TLCEval(<<[i \in 1..t |-> x[2]], IF k = <<>> THEN ls ELSE Append(ls, <<k, whole(x[2])>>)>>)
      e == FoldLeft(step, <<(<<>>), (<<>>)>>, r)
  IN IF e[1] = <<>> THEN e[2] ELSE Append(e[2], <<(<<1>>), Leaf(e[1])>>)

\* the bits of a bitlist without the delimiter, in bytes
DropDelimiter(r) ==
  LET x == RLast(r)
      rest == RTake(r, BSub(RLen(r), <<1>>))
      y == x - 2^(BitLen8(x) - 1)
  IN IF BitLen8(x) = 1 THEN rest ELSE RPush(rest, <<<<1>>, y>>)
HBitlen(r) == BAdd(BMulD(BSub(RLen(r), <<1>>), 8), BOf(BitLen8(RLast(r)) - 1))

HMixIn(t, n) == Node(t, Leaf(n))

RECURSIVE HHTR(_, _)
HLeaves(s, v) == TLCEval([i \in 1..Len(v) |-> <<(<<1>>), HHTR(s.e, v[i])>>])
HHTR(s, v) ==
  CASE s.k = "basic"   -> Leaf(RBytes(v, <<>>, s.n))
    [] s.k = "bytesN"  -> RunTree(RChunks(v), Depth((s.n + 31) \div 32))
    [] s.k = "bytes"   -> HMixIn(RunTree(RChunks(v), PackedDepth(s.lim, 1)), RLen(v))
    [] s.k = "bitvec"  -> RunTree(RChunks(v), Depth((s.n + 255) \div 256))
    [] s.k = "bitlist" -> HMixIn(RunTree(RChunks(DropDelimiter(v)), BCeilLog2(BShrCeil(s.lim, 8))), HBitlen(v))
    [] s.k = "vec" -> IF s.e.k = "basic" THEN RunTree(RChunks(v), Depth((s.fl + 31) \div 32))
                      ELSE RunTree(HLeaves(s, v), Depth(s.n))
    [] s.k = "list" -> IF s.e.k = "basic" THEN HMixIn(RunTree(RChunks(v), PackedDepth(s.lim, s.e.n)), BDiv(RLen(v), s.e.n)[1])
                       ELSE HMixIn(RunTree(HLeaves(s, v), BCeilLog2(s.lim)), BOf(Len(v)))
    [] s.k = "cont" -> RunTree(TLCEval([i \in 1..Len(v) |-> <<(<<1>>), HHTR(s.fs[i], v[i])>>]), Depth(Len(v)))
=============================================================================
