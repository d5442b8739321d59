------------------------------ MODULE Bitfield ------------------------------
(***************************************************************************)
(* The bitfield helpers against the sequence of bits that bytes represent:  *)
(* least significant bit first, a bitlist ending before the highest set bit *)
(* of its last byte. The machine's state is a byte slice b; bits are set    *)
(* and read, and lengths and checks asked for, in any order.                *)
(***************************************************************************)
EXTENDS SSZ

VARIABLE b

\* what the bytes represent
AllBits == TLCEval(Bits(b))
Terminated(bs) == Len(bs) > 0 /\ bs[Len(bs)] # 0
\* index of the highest one bit of a byte (0 for none)
HighBit(x) == IF x = 0 THEN 0 ELSE BitLen8(x) - 1

GetAns(i) == BitAt(AllBits, i + 1)
SetBits(bits, i, v) == [bits EXCEPT ![i + 1] = v]
SetAns(i, v) == PackBits(TLCEval(SetBits(AllBits, i, v)))

(* Number of bits of the bitlist. Without a delimiter (no byte, or a last byte *)
(* that is zero) there is no bitlist; what is reported then is documented: the *)
(* bits of all bytes but the last.                                             *)
LenAns == IF b = <<>> THEN 0 ELSE 8 * (Len(b) - 1) + HighBit(b[Len(b)])
\* all bits of the bitlist are zero
ZeroAns == IF Terminated(b) THEN \A i \in 1..LenAns : AllBits[i] = 0
           ELSE \A i \in 1..Len(b) : b[i] = 0

\* lim, n are digits: 64 bits wide
ListCheckAns(lim) == Terminated(b) /\ BLeq(BOf(LenAns), lim)
VecBytes(n) == BShrCeil(n, 3)
VecCheckAns(n) == /\ BOf(Len(b)) = VecBytes(n)
                  /\ \A i \in 1..Len(AllBits) : BLess(BOf(i - 1), n) \/ AllBits[i] = 0

\* the parts of the checks
ListByteLenAns(len, lim) == \* some bitlist within the limit takes that many bytes
  len # <<>> /\ BLeq(BMulD(BSub(len, <<1>>), 8), lim)
ListLastByteAns(x, lim) == x # 0 /\ BLeq(BOf(HighBit(x)), lim)
VecByteLenAns(len, n) == len = VecBytes(n)
VecLastByteAns(x, n) == n # <<>> /\ LET r == BDigit(n, 1) % 8 IN r = 0 \/ x < 2^r

B(x) == IF x THEN 1 ELSE 0
Answer(e) ==
  CASE e.k = "get"   -> GetAns(e.i)
    [] e.k = "len"   -> LenAns
    [] e.k = "zero"  -> B(ZeroAns)
    [] e.k = "lc"    -> B(ListCheckAns(e.n))
    [] e.k = "vc"    -> B(VecCheckAns(e.n))
    [] e.k = "lbl"   -> B(ListByteLenAns(e.m, e.n))
    [] e.k = "llb"   -> B(ListLastByteAns(e.x, e.n))
    [] e.k = "vbl"   -> B(VecByteLenAns(e.m, e.n))
    [] e.k = "vlb"   -> B(VecLastByteAns(e.x, e.n))
    [] e.k = "hi"    -> HighBit(e.x)
    [] OTHER -> 0
=============================================================================
