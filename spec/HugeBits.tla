------------------------------- MODULE HugeBits -------------------------------
(* The answers of Bitfield.tla for bitfields of any size, as ropes (see Huge). *)
EXTENDS Huge

HHigh(x) == IF x = 0 THEN 0 ELSE BitLen8(x) - 1
HTerminated(r) == r # <<>> /\ RLast(r) # 0
HBit(r, i) == (RBytes(r, BShr(i, 3), 1)[1] \div 2^(BDigit(i, 1) % 8)) % 2
HSet(r, i, val) ==
  LET p == BShr(i, 3)
      m == 2^(BDigit(i, 1) % 8)
      old == RBytes(r, p, 1)[1]
      new == IF (old \div m) % 2 = val THEN old ELSE IF val = 1 THEN old + m ELSE old - m
  IN RCat(RPush(RTake(r, p), <<<<1>>, new>>), RDrop(r, BAdd(p, <<1>>)))
HLen(r) == IF r = <<>> THEN <<>> ELSE BAdd(BMulD(BSub(RLen(r), <<1>>), 8), BOf(HHigh(RLast(r))))
AllZero(r) == \A i \in 1..Len(r) : r[i][2] = 0
HZero(r) == IF HTerminated(r) THEN AllZero(DropDelimiter(r)) ELSE AllZero(r)
HListCheck(r, lim) == HTerminated(r) /\ BLeq(HLen(r), lim)
HVecCheck(r, n) ==
  /\ RLen(r) = BShrCeil(n, 3)
  /\ BDigit(n, 1) % 8 # 0 => RLast(r) < 2^(BDigit(n, 1) % 8)

HAnswer(r, e) ==
  LET bool(c) == IF c THEN <<1>> ELSE <<>> IN
  CASE e.k = "get"  -> BOf(HBit(r, e.i))
    [] e.k = "len"  -> HLen(r)
    [] e.k = "zero" -> bool(HZero(r))
    [] e.k = "lc"   -> bool(HListCheck(r, e.n))
    [] e.k = "vc"   -> bool(HVecCheck(r, e.n))
    [] OTHER -> <<>>
HAfter(r, e) == IF e.k = "set" THEN HSet(r, e.i, e.v) ELSE r
=============================================================================
