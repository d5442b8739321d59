------------------------------- MODULE HugeMC -------------------------------
(***************************************************************************)
(* Huge.tla agrees with SSZ.tla: for every byte string of the universe and  *)
(* every type of the list, the parsers agree, and so do the serializations  *)
(* and the trees of what is parsed.                                         *)
(***************************************************************************)
EXTENDS Huge, IOUtils
VARIABLES typ, str

U(n) == BasicT(n, FALSE)
B(n) == BytesT(BOf(n))
HTypes == <<
  U(2), BasicT(1, TRUE), BytesNT(3), B(5), BitvecT(11), BitlistT(BOf(9)), BitlistT(BOf(8)),
  VecT(3, BasicT(1, TRUE)), ListT(<<3>>, BasicT(1, TRUE)), ListT(<<2>>, U(2)), VecT(2, U(2)),
  ListT(<<2>>, B(3)), VecT(2, B(1)), ListT(<<4>>, BytesNT(2)), ListT(<<2>>, BytesNT(3)),
  ContT(<<U(1), B(3)>>), ContT(<<B(2), B(2)>>), ContT(<<B(9), U(2)>>), ContT(<<>>), ContT(<<ListT(<<1>>, B(1))>>),
  ListT(<<2>>, ContT(<<U(1), BasicT(1, TRUE)>>)), ListT(<<0>>, B(1)), VecT(0, B(1)), VecT(1, BitlistT(BOf(4)))>>

Alphabet == {0, 1, 4, 5, 8, 9}
Len9 == IF "DEEP" \in DOMAIN IOEnv THEN 6 ELSE 4
Init == typ \in 1..Len(HTypes) /\ str = <<>>
\* zeros behind the third byte are not varied: these are the upper bytes of offsets
Next == /\ Len(str) < Len9 + 3 /\ typ' = typ
        /\ \E x \in IF Len(str) \in {1, 2, 3, 5, 6, 7} THEN {0, 1} ELSE Alphabet : str' = Append(str, x)

RECURSIVE HV(_, _)
HV(s, v) == IF IsRope(s) THEN ROf(Ser(s, v))
            ELSE IF s.k = "cont" THEN [i \in 1..Len(v) |-> HV(s.fs[i], v[i])] ELSE [i \in 1..Len(v) |-> HV(s.e, v[i])]
RECURSIVE Expand(_)
Expand(t) == IF t[1] = 1 THEN Node(Expand(t[2]), Expand(t[3]))
             ELSE IF t[1] = 3 THEN LET x == Rep(t[2], t[3] - 1) IN Node(Expand(x), Expand(x)) ELSE t

Agrees ==
  LET s == HTypes[typ]
      p == Parse(s, str)
      h == HParse(s, ROf(str))
  IN /\ p[1] = h[1]
     /\ p[1] => /\ h[2] = HV(s, p[2])
                /\ HSer(s, h[2]) = <<TRUE, ROf(str)>>
                /\ Ser(s, p[2]) = str
                /\ Expand(HHTR(s, h[2])) = HTR(s, p[2])

\* the operations on ropes, on the strings themselves
RopesOK ==
  LET r == ROf(str)
      n == Len(str)
  IN /\ RLen(r) = BOf(n)
     /\ \A i \in 1..(Len(r) - 1) : r[i][2] # r[i + 1][2]
     /\ \A i \in 0..n : /\ RCat(RTake(r, BOf(i)), RDrop(r, BOf(i))) = r
                        /\ RTake(r, BOf(i)) = ROf(SubSeq(str, 1, i))
                        /\ RBytes(r, BOf(i), n - i) = SubSeq(str, i + 1, n)
LongTrees ==
  \* trees over many equal chunks
  \A n \in 1..9 : \A x \in 0..2 :
     LET ch == [i \in 1..n |-> IF i = n THEN <<0, <<7>>>> ELSE IF x = 0 THEN Z(0) ELSE <<0, <<x>>>>]
         rs == IF n = 1 THEN <<<<(<<1>>), ch[1]>>>> ELSE <<<<BOf(n - 1), ch[1]>>, <<(<<1>>), ch[n]>>>>
         bits(i, d) == [j \in 1..d |-> (i \div 2^(j - 1)) % 2]
     IN \A d \in 4..6 : /\ Expand(RunTree(rs, d)) = Tree(ch, d)
                        /\ \A i \in 0..(2^d - 1) : HLeafAt(rs, BOf(i)) = LeafAt(ch, bits(i, d))
ASSUME LongTrees
ASSUME BigNatOK
ASSUME \A a \in {0, 1, 31, 32, 33, 255, 256, 70000} : BShr(BOf(a), 5) = BOf(a \div 32) /\ \A d \in {1, 3, 256, 300, 70000} : BDiv(BOf(a), d) = <<BOf(a \div d), a % d>>
=============================================================================
