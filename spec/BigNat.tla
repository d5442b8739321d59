------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers as little-endian tuples of base-256 digits without a    *)
(* trailing zero digit (zero is <<>>).  TLC's integers are 32 bits wide;    *)
(* SSZ limits and lengths reach 2^64-1 and products of them are larger.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

RECURSIVE BTrim(_)
\* Removes the most significant zero digits.
BTrim(d) == IF d = <<>> THEN <<>>
            ELSE IF d[Len(d)] = 0 THEN BTrim(SubSeq(d, 1, Len(d) - 1)) ELSE d

\* The natural number n (an ordinary TLC integer).
BOf(n) == IF n = 0 THEN <<>>
          ELSE IF n < 256 THEN <<n>>
          ELSE IF n < 65536 THEN <<n % 256, n \div 256>>
          ELSE IF n < 16777216 THEN <<n % 256, (n \div 256) % 256, n \div 65536>>
          ELSE <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>

\* Small enough to be an ordinary integer
BSmall(a) == Len(a) <= 3
BInt(a) == CASE Len(a) = 0 -> 0
             [] Len(a) = 1 -> a[1]
             [] Len(a) = 2 -> a[1] + 256 * a[2]
             [] OTHER -> a[1] + 256 * a[2] + 65536 * a[3]

BDigit(d, i) == IF i <= Len(d) THEN d[i] ELSE 0

BMax2(a, b) == IF a >= b THEN a ELSE b
BMin(a, b) == IF a <= b THEN a ELSE b

RECURSIVE BAddC(_, _, _, _)
BAddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == BDigit(a, i) + BDigit(b, i) + c
       IN <<s % 256>> \o BAddC(a, b, i + 1, s \div 256)

BAdd(a, b) == IF BSmall(a) /\ BSmall(b) THEN BOf(BInt(a) + BInt(b)) ELSE BTrim(BAddC(a, b, 1, 0))

RECURSIVE BMulDC(_, _, _, _)
BMulDC(a, m, i, c) ==
  IF i > Len(a)
  THEN BOf(c)
  ELSE LET s == a[i] * m + c IN <<s % 256>> \o BMulDC(a, m, i + 1, s \div 256)

\* a times an ordinary integer below 2^20
BMulD(a, m) == BTrim(BMulDC(a, m, 1, 0))

RECURSIVE BMulFrom(_, _, _)
BMulFrom(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE BAdd(BMulD(a, b[i]), LET r == BMulFrom(a, b, i + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)

BMul(a, b) == BMulFrom(a, b, 1)

RECURSIVE BLessAt(_, _, _)
BLessAt(a, b, i) == IF i = 0 THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLessAt(a, b, i - 1)
\* a < b, both trimmed
BLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLessAt(a, b, Len(a))
BLeq(a, b)  == ~BLess(b, a)

RECURSIVE BSubC(_, _, _, _)
BSubC(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == 256 + a[i] - BDigit(b, i) - c
       IN <<s % 256>> \o BSubC(a, b, i + 1, IF s < 256 THEN 1 ELSE 0)
\* a - b, for b <= a
BSub(a, b) == IF BSmall(a) /\ BSmall(b) THEN BOf(BInt(a) - BInt(b)) ELSE BTrim(BSubC(a, b, 1, 0))

\* Fits in k bytes
BFits(a, k) == Len(a) <= k

\* 0..255 -> number of significant bits
RECURSIVE BitLen8(_)
BitLen8(x) == IF x = 0 THEN 0 ELSE 1 + BitLen8(x \div 2)

\* number of significant bits
BBitLen(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + BitLen8(a[Len(a)])

\* ceil(log2(a)), with 0 for a <= 1: the depth of a binary tree of a leaves
BCeilLog2(a) == IF BLeq(a, <<1>>) THEN 0 ELSE BBitLen(BSub(a, <<1>>))

\* a \div 2^k rounded up, k <= 8
BShrCeil(a, k) ==
  LET p == 2^k
      RECURSIVE go(_, _, _)
      go(i, rem, acc) == IF i = 0 THEN <<acc, rem>>
                         ELSE LET x == rem * 256 + a[i]
                              IN go(i - 1, x % p, <<x \div p>> \o acc)
      r == go(Len(a), 0, <<>>)
      q == BTrim(r[1])
  IN IF r[2] = 0 THEN q ELSE BAdd(q, <<1>>)

(***************************************************************************)
(* Sanity: agreement with TLC's integers on a small range.                  *)
(***************************************************************************)
RECURSIVE IntLog2(_, _)
IntLog2(n, d) == IF 2^d >= n THEN d ELSE IntLog2(n, d + 1)

BigNatOK ==
  /\ \A a \in {0, 1, 2, 7, 31, 32, 33, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 70000, 16777215, 16777216, 16777217, 33554431, 1000000000} :
       /\ BDigit(BOf(a), 1) + 256 * (BDigit(BOf(a), 2) + 256 * (BDigit(BOf(a), 3) + 256 * BDigit(BOf(a), 4))) = a
       /\ BTrim(BOf(a)) = BOf(a)
       /\ BSmall(BOf(a)) => BInt(BOf(a)) = a
       /\ BCeilLog2(BOf(a)) = IF a <= 1 THEN 0 ELSE IntLog2(a, 0)
       /\ \A k \in 0..8 : BShrCeil(BOf(a), k) = BOf((a + 2^k - 1) \div 2^k)
       /\ \A b \in {0, 1, 3, 255, 256, 257, 4096} :
            /\ BAdd(BOf(a), BOf(b)) = BOf(a + b)
            /\ BTrim(BAddC(BOf(a), BOf(b), 1, 0)) = BOf(a + b)
            /\ a <= 70000 => BMul(BOf(a), BOf(b)) = BOf(a * b)
            /\ BLess(BOf(a), BOf(b)) = (a < b)
            /\ b <= a => /\ BSub(BOf(a), BOf(b)) = BOf(a - b)
                         /\ BTrim(BSubC(BOf(a), BOf(b), 1, 0)) = BOf(a - b)
=============================================================================
