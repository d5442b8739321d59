------------------------------- MODULE SmallMC -------------------------------
(***************************************************************************)
(* Explores the bounded universe of Small. States:                          *)
(*   val   a type and a value of it                                         *)
(*   wire  a type and a wire string: n tokens, or a corrupted encoding (n=9)*)
(*   hist  a type and a sequence of operations                              *)
(*   pair  two encodings, one after the other                               *)
(*   fuzz  an input for fuzz decoding                                       *)
(* The invariants are what the specification itself promises. With EMIT,    *)
(* every state is printed as a plan: the calls that decide property PROP    *)
(* for it. The plans are executed with the real code, and what happens is   *)
(* judged by SessionTrace.                                                  *)
(***************************************************************************)
EXTENDS Small

\* (TLC confuses a variable with bound names of other modules: names used nowhere else)

VARIABLES stKind, stType, stVal, stWire, stN, stHist
vars == <<stKind, stType, stVal, stWire, stN, stHist>>

Emitting == "EMIT" \in DOMAIN IOEnv
P == IF Emitting THEN IOEnv.PROP ELSE ""
In(S) == ~Emitting \/ P \in S

\* which kinds of states a property looks at
ByValue == In({"C01", "C02", "C05", "C06", "C07", "C09", "C10", "C11", "C14", "C17", "C18", "C19", "C20", "C21"})
ByWire == In({"C03", "C04", "C09", "C11", "C14", "C16", "C17", "C18"})
ByHist == In({"C11", "C20"})
ByPair == In({"C09"})
ByFuzz == In({"C12", "C17", "C18"})
\* the whole set of wires, or few per type
AllWires == ~Emitting \/ P \in {"C03", "C04"} \/ Deep
\* the types that matter
Zeros == ~Emitting \/ P \in {"C03", "C04"}
Ids == {i \in SmallIds : Sound(i) \/ Zeros}

HistIds == {i \in Ids : Tagged(i, "hist")}
PairIds == {i \in Ids : Tagged(i, "pair")}

\* operations of histories
Ops == IF P = "C20" THEN {"enc", "size", "htr", "pretty", "encw", "dry", "bad", "mut", "dec", "encnd", "htrnd", "other"}
       ELSE {"decA", "decB", "decT", "mut", "val", "scrib", "dec2", "mut2", "fuzz"}
HistMax == IF P = "C20" THEN (IF Deep THEN 3 ELSE 2) ELSE IF Deep THEN 4 ELSE 3

FuzzInputs == IF P \in {"C17", "C18"} /\ ~Deep THEN {Const(k, x) : k \in {8, 17, 40}, x \in {0, 255}} \cup {[i \in 1..k |-> (i * m) % 256] : k \in {9, 30, 60}, m \in {1, 7}} ELSE
              {Const(k, x) : k \in (IF Deep THEN 0..64 ELSE {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 25, 32, 40, 64}), x \in {0, 1, 255}}
              \cup {OneHot(k, i, x) : k \in {16, 33, 48}, i \in (IF Deep THEN 1..48 ELSE {1, 2, 5, 8, 9, 10, 14, 16}), x \in {1, 2, 128}}
              \cup {[i \in 1..k |-> (i * m) % 256] : k \in {9, 30, 60}, m \in {1, 7, 37, 101}}
              \cup UNION {SeqsOver({0, 1, 255}, k) : k \in 1..(IF Deep THEN 6 ELSE 3)}
S(i) == Sp[i]

Init ==
  /\ stType \in Ids
  /\ stHist = <<>>
  /\ \/ ByValue /\ stKind = "val" /\ stVal \in Vs[stType] /\ stWire = <<>> /\ stN = 0 /\ Sound(stType)
     \/ ByWire /\ stKind = "wire" /\ stVal = <<>> /\ stWire = <<>> /\ stN = 0
     \/ ByHist /\ stKind = "hist" /\ stType \in HistIds /\ stVal = <<>> /\ stWire = <<>> /\ stN = 0
     \/ ByPair /\ stKind = "pair" /\ stType \in PairIds /\ stVal \in Seeds[stType] /\ stN \in PairIds /\ stWire = <<>>
     \/ ByFuzz /\ stKind = "fuzz" /\ stVal = <<>> /\ stWire \in FuzzInputs /\ stN = 0 /\ Sound(stType)
     \/ ByWire /\ stKind = "seed" /\ stVal \in Seeds[stType] /\ stWire = <<>> /\ stN = 0

TokBound == IF AllWires THEN TokMax(S(stType)) ELSE 2
Next ==
  \/ /\ stKind = "wire" /\ stN < TokBound
     /\ \E k \in Tokens(S(stType)) : stWire' = stWire \o k
     /\ stN' = stN + 1 /\ UNCHANGED <<stKind, stType, stVal, stHist>>
  \/ /\ stKind = "seed"
     /\ LET b == Ser(S(stType), stVal)
        IN \E x \in IF AllWires THEN Corruptions(S(stType), b) \cup IF stVal \in PairSeeds[stType] THEN OffsetPairs(S(stType), b) ELSE {}
                    ELSE {b} \cup {SubSeq(b, 1, i) : i \in 0..Len(b)} : stWire' = x
     /\ stKind' = "wire" /\ stN' = 9 /\ stVal' = <<>> /\ UNCHANGED <<stType, stHist>>
  \/ /\ stKind = "wire" /\ stN = 9 /\ Deep /\ (~Emitting \/ P \in {"C03"}) /\ Len(stWire) <= 6
     /\ stWire' \in Corruptions(S(stType), stWire)
     /\ stN' = 10 /\ UNCHANGED <<stKind, stType, stVal, stHist>>
  \/ /\ stKind = "hist" /\ Len(stHist) < HistMax
     /\ \E o \in Ops : stHist' = Append(stHist, o)
     /\ UNCHANGED <<stKind, stType, stVal, stWire, stN>>
  \/ /\ stKind = "pair" /\ stWire = <<>>
     /\ \E x \in Seeds[stN] : stWire' = Ser(S(stN), x)
     /\ UNCHANGED <<stKind, stType, stVal, stN, stHist>>

----------------------------------------------------------------------------
(* What the specification promises *)

ValueOK == stKind = "val" =>
  LET s == S(stType)
      b == Ser(s, stVal)
      gv == Unflat(G(stType), stVal)
      len == BOf(Len(b))
  IN /\ Parse(s, b) = Yes(stVal)
     /\ WellFormed(G(stType), gv) /\ Flat(G(stType), gv) = stVal
     /\ BLeq(s.min, len) /\ BLeq(len, s.max)
     /\ s.fx => Len(b) = s.fl
     /\ \A i \in 0..(Len(b) - 1) : Parse(s, SubSeq(b, 1, i)) # Yes(stVal)
     /\ s.k = "cont" => LET k == Len(stVal) - 1 IN
          k >= 0 => SigningRoot(s, stVal) = HTR(ContT(SubSeq(s.fs, 1, k)), SubSeq(stVal, 1, k))
WireOK == stKind = "wire" =>
  LET r == Parse(S(stType), stWire) IN r[1] => /\ Ser(S(stType), r[2]) = stWire
                                     /\ WellFormed(G(stType), Unflat(G(stType), r[2]))
                                     /\ BLeq(S(stType).min, BOf(Len(stWire))) /\ BLeq(BOf(Len(stWire)), S(stType).max)
\* different values, different roots
Binding == ~Emitting => \A i \in Ids : Cardinality({HTR(S(i), x) : x \in Vs[i]}) = Cardinality(Vs[i])
\* the bounds are attained
Tight == ~Emitting => \A i \in Ids : Sound(i) =>
            /\ \E x \in Vs[i] : BOf(Len(Ser(S(i), x))) = S(i).min
            /\ \E x \in Vs[i] : BOf(Len(Ser(S(i), x))) = S(i).max
ASSUME Binding /\ Tight

----------------------------------------------------------------------------
(* Plans *)

Whole == [st |-> 5, seed |-> 1, fail |-> 0 - 1]
Rd(st) == [st |-> st, seed |-> 1 + Len(stWire), fail |-> 0 - 1]
Styles == <<0, 1, 4, 6, 7, 8, 9>>
RdSteps(st, steps) == [st |-> st, seed |-> 1, fail |-> 0 - 1, steps |-> steps]
RdFail(st, at) == [st |-> st, seed |-> 1, fail |-> at]

L(b) == BOf(Len(b))
New(s, i) == [k |-> "new", s |-> s, t |-> i]
Val(s, i, x) == [k |-> "val", s |-> s, t |-> i, gv |-> Unflat(G(i), x)]
Spare(s, i, x, sp) == [k |-> "val", s |-> s, t |-> i, gv |-> Unflat(G(i), x), spare |-> sp]
Dec(s, b, rd) == [k |-> "dec", s |-> s, b |-> b, L |-> L(b), rd |-> rd]
DecL(s, b, l, rd) == [k |-> "dec", s |-> s, b |-> b, L |-> l, rd |-> rd]
\* what the last Encode wrote
DecLast(s) == [k |-> "dec", s |-> s, last |-> 1, rd |-> Whole]
Dry(i, b, rd) == [k |-> "dry", t |-> i, b |-> b, L |-> L(b), rd |-> rd]
DryL(i, b, l, rd) == [k |-> "dry", t |-> i, b |-> b, L |-> l, rd |-> rd]
Both(i, b, l, rd) == [k |-> "decdry", t |-> i, b |-> b, L |-> l, rd |-> rd]
Of(op, s) == [k |-> op, s |-> s]
\* if the last Decode succeeded
IfOK(e) == e @@ [ifok |-> 1]
Enc(s) == Of("enc", s)
Show(s, ind) == [k |-> "pretty", s |-> s, ind |-> ind]
Hash(s, op, via) == [k |-> op, s |-> s, via |-> via]
Encw(s, at, mode) == [k |-> "encw", s |-> s, wp |-> [at |-> at, mode |-> mode]]
Type(i) == [k |-> "type", t |-> i]
Use(x) == [k |-> "hash", h |-> x]
Obs == [k |-> "obs"]
Be(e, x) == e @@ [be |-> x]
Nd(e) == e @@ [nd |-> 1]
Cu(e, c, m) == e @@ [cu |-> c, cm |-> m]
Opt(c, es) == IF c THEN es ELSE <<>>
IsCont(i) == G(i).k = "struct"
Roots(s, i) == <<Hash(s, "htr", 0)>> \o Opt(IsCont(i), <<Hash(s, "sr", 0)>>)

\* all ways to cut a length into steps
RECURSIVE Cuts(_)
Cuts(len) == IF len = 0 THEN {<<>>} ELSE UNION {{<<k>> \o r : r \in Cuts(len - k)} : k \in 1..len}
SomeCuts(len) == IF len <= (IF Deep THEN 7 ELSE 4) THEN SetToSeq(Cuts(len))
                 ELSE [i \in 1..(len - 1) |-> <<i, len - i>>] \o [i \in 1..(len - 1) |-> <<0, i, 0, 0, 1, len - i - 1>>]

ValPlan ==
  LET b == Ser(S(stType), stVal)
      l == L(b)
      len == Len(b)
  IN
  CASE P = "C01" -> <<Val(1, stType, stVal), Enc(1), New(2, stType), DecLast(2), Enc(2), New(3, stType), DecLast(3)>>
    [] P = "C02" -> <<Val(1, stType, stVal), Enc(1), Nd(Enc(1))>>
    [] P = "C05" -> <<Type(stType), Val(1, stType, stVal), Of("size", 1), Enc(1)>>
    [] P = "C06" -> <<Val(1, stType, stVal), Hash(1, "htr", 0), Hash(1, "htr", 1)>>
    [] P = "C07" -> IF IsCont(stType) THEN <<Val(1, stType, stVal), Hash(1, "sr", 0), Hash(1, "sr", 1)>> ELSE <<>>
    [] P = "C09" ->
         <<New(1, stType), Dec(1, b, Whole), Dry(stType, b, Whole)>>
         \o FlattenSeq([i \in 1..Len(Styles) |-> <<New(2, stType), Dec(2, b, Rd(Styles[i])), Dry(stType, b, Rd(Styles[i])),
                                                   \* the stream goes on
                                                   New(2, stType), DecL(2, b \o <<1, 0, 255>>, l, Rd(Styles[i])), DryL(stType, b \o <<4, 0, 0, 0>>, l, Rd(Styles[i]))>>])
         \o FlattenSeq([i \in 1..Len(SomeCuts(len)) |->
               LET c == SomeCuts(len)[i] IN <<New(2, stType), Dec(2, b, RdSteps(10, c)), New(2, stType), Dec(2, b, RdSteps(11, c)), Dry(stType, b, RdSteps(11, c))>>])
         \* it ends early or fails, after every number of bytes
         \o FlattenSeq([i \in 1..len |-> <<New(2, stType), DecL(2, SubSeq(b, 1, i - 1), l, Rd(5)), DryL(stType, SubSeq(b, 1, i - 1), l, Rd(6)),
                                           New(2, stType), DecL(2, b, l, RdFail(6, i - 1)), DryL(stType, b, l, RdFail(1, i - 1))>>])
    [] P = "C10" ->
         <<Val(1, stType, stVal), Enc(1), Encw(1, 0 - 1, 0)>>
         \o FlattenSeq([i \in 1..(len + 2) |-> <<Encw(1, i - 1, 0), Encw(1, i - 1, 1), Encw(1, i - 1, 2)>>])
    [] P = "C11" -> \* decoded over every other value
         <<New(4, stType), Dec(4, b, Whole)>>
         \o FlattenSeq(LET os == SetToSeq(Vs[stType]) IN
              [i \in 1..(IF Deep THEN Len(os) ELSE BMin(Len(os), 30)) |-> <<Spare(1, stType, os[i], i), Dec(1, b, Rd(Styles[(i % 7) + 1])), Obs>>])
    [] P = "C14" ->
         LET m == Types[stType].nf IN
         IF m = stType THEN <<>>
         ELSE <<Type(m), Type(stType), Val(1, m, stVal), Val(2, stType, stVal)>>
              \o FlattenSeq([s \in 1..2 |-> <<Enc(s), Of("size", s)>> \o Roots(s, stType)])
              \o <<New(3, m), Dec(3, b, Whole), New(3, stType), Dec(3, b, Whole)>>
    [] P = "C17" ->
         <<Val(1, stType, stVal), Be(Of("size", 1), 0), Be(Of("size", 1), 1), Be(Enc(1), 0), Be(Enc(1), 1), Be(Hash(1, "htr", 0), 0), Be(Hash(1, "htr", 0), 1)>>
         \o Opt(IsCont(stType), <<Be(Hash(1, "sr", 0), 0), Be(Hash(1, "sr", 0), 1)>>)
    [] P = "C18" ->
         <<Val(1, stType, stVal), Type(stType), Of("size", 1), Enc(1), Hash(1, "htr", 0), New(2, stType), Dec(2, b, Whole), Dry(stType, b, Whole)>>
         \o FlattenSeq([c \in 1..(IF Deep THEN 8 ELSE 3) |->
              <<Cu(Type(stType), c, 0), Cu(Of("size", 1), c, 0), Cu(Enc(1), c, 0), Cu(Hash(1, "htr", 0), c, 0),
                New(3, stType), Cu(Dec(3, b, Whole), c, 0), Cu(Dry(stType, b, Whole), c, 0), New(3, stType), Cu(Dec(3, b, Rd(1)), c, 1), New(3, stType), Cu(Dec(3, b, Whole), c, 2)>>])
    [] P = "C19" ->
         <<Val(1, stType, stVal), Hash(1, "htr", 0)>>
         \o FlattenSeq([x \in 1..4 |-> <<Use(<<1, 4, 5, 6>>[x]), Hash(1, "htr", 0), Hash(1, "htr", 1)>> \o Opt(IsCont(stType), <<Hash(1, "sr", 0)>>)])
         \o <<Use(0), Hash(1, "htr", 1), Use(2), Hash(1, "htr", 0)>>
    [] P = "C21" -> <<New(1, stType), Show(1, 0), Val(2, stType, stVal), Show(2, 1), Show(2, 3), Dec(1, b, Whole), Show(1, 0)>>
    [] P = "C20" ->
         LET q == <<Enc(1), Of("size", 1)>> \o Roots(1, stType) \o <<Of("pretty", 1), Dry(stType, b, Whole)>>
         IN <<Type(stType), New(4, stType), Of("pretty", 4), Obs, Val(1, stType, stVal)>> \o q \o <<Obs>>
            \o FlattenSeq([i \in 1..Len(q) |-> <<Nd(q[i]), q[Len(q) + 1 - i]>>]) \o <<Obs, Type(stType)>>

WirePlan ==
  LET b == stWire
      l == L(b)
      len == Len(b)
  IN
  CASE P = "C03" -> <<New(1, stType), Dec(1, b, Whole), IfOK(Enc(1))>>
    [] P = "C04" -> <<Both(stType, b, l, Whole)>> \o Opt(stN <= 2 \/ len % 5 = 0, <<Both(stType, b, BOf(len + 1), Rd(1))>> \o Opt(len > 0, <<Both(stType, b, BOf(len - 1), Rd(6))>>))
    [] P = "C09" -> <<New(1, stType), Dec(1, b, Whole), Dry(stType, b, Whole), New(2, stType), Dec(2, b, Rd(1)), Dry(stType, b, Rd(6)), New(2, stType), DecL(2, b \o <<0, 4>>, l, Rd(4))>>
    [] P = "C11" -> \* into the smallest and the largest value
         <<New(4, stType), Dec(4, b, Whole), Spare(1, stType, Big(S(stType)), 3), Dec(1, b, Whole), Spare(2, stType, Tiny(S(stType)), 5), Dec(2, b, Rd(1)), Obs>>
    [] P = "C14" -> LET m == Types[stType].nf IN
         IF m = stType THEN <<>> ELSE <<New(3, m), Dec(3, b, Whole), Dry(m, b, Whole), New(3, stType), Dec(3, b, Whole), Dry(stType, b, Whole)>>
    [] P = "C16" -> LET Hostile == <<<<0, 0, 0, 4>>, <<255, 255, 255, 127>>, <<0, 0, 0, 0, 1>>, Const(8, 255), <<252, 255, 255, 255, 255, 255, 255, 255>>>>
         IN IF S(stType).fx THEN <<>> ELSE [i \in 1..Len(Hostile) |-> [k |-> "mem", t |-> stType, b |-> b, L |-> Hostile[i], rd |-> Whole]]
    [] P = "C17" -> <<New(2, stType), Be(Dec(2, b, Whole), 0), New(2, stType), Be(Dec(2, b, Whole), 1), Be(Dry(stType, b, Whole), 0), Be(Dry(stType, b, Whole), 1)>>
    [] P = "C18" -> <<New(2, stType), Dec(2, b, Whole), Dry(stType, b, Whole)>>
         \o FlattenSeq([c \in 1..2 |-> <<New(3, stType), Cu(Dec(3, b, Whole), c, 0), Cu(Dry(stType, b, Rd(1)), c, 1)>>])

(* Histories. A and B are two encodings, the truncated A an invalid input. *)
A == Ser(S(stType), Big(S(stType)))
B == LET x == CHOOSE x \in Vs[stType] : x # Big(S(stType)) /\ x # Tiny(S(stType)) IN Ser(S(stType), x)
Bad_ == SubSeq(A, 1, Len(A) - 1)
Op(o, i) ==
  CASE o = "decA" -> <<Dec(1, A, Whole)>>
    [] o = "decB" -> <<Dec(1, B, Rd(1))>>
    [] o = "decT" -> <<DecL(1, A, L(A), RdFail(1, Len(A) \div 2))>>
    [] o = "dec2" -> <<Dec(2, A, Whole)>>
    [] o = "mut" -> <<[k |-> "mut", s |-> 1, seed |-> i]>>
    [] o = "mut2" -> <<[k |-> "mut", s |-> 2, seed |-> i]>>
    [] o = "val" -> <<Spare(1, stType, Big(S(stType)), i)>>
    [] o = "scrib" -> <<[k |-> "scrib"]>>
    [] o = "fuzz" -> <<[k |-> "fuzz", s |-> 1, b |-> Const(60, 1), L |-> <<60>>, rd |-> Whole]>>
    [] o = "enc" -> <<Enc(1)>>
    [] o = "encnd" -> <<Nd(Enc(1))>>
    [] o = "size" -> <<Of("size", 1)>>
    [] o = "htr" -> <<Hash(1, "htr", 0)>>
    [] o = "htrnd" -> <<Nd(Hash(1, "htr", 1))>>
    [] o = "pretty" -> <<Of("pretty", 1)>>
    [] o = "encw" -> <<Encw(1, i, 0)>>
    [] o = "dry" -> <<Dry(stType, A, Whole)>>
    [] o = "bad" -> <<Dry(stType, Bad_, Whole)>>
    [] o = "dec" -> <<New(3, stType), Dec(3, A, Whole)>>
    [] o = "other" -> <<Enc(2), Hash(2, "htr", 0)>>
HistPlan ==
  LET ops == FlattenSeq([i \in 1..Len(stHist) |-> Op(stHist[i], i) \o <<Obs>>]) IN
  CASE P = "C11" -> <<New(4, stType), Dec(4, A, Whole), New(4, stType), Dec(4, B, Whole), New(1, stType), New(2, stType), Dec(2, B, Whole)>>
                    \o ops \o <<Dec(1, B, Whole), Obs, Dec(2, A, Whole), Obs>>
    [] P = "C20" -> LET q == <<Of("size", 1), Enc(1)>> \o Roots(1, stType) \o <<Dry(stType, A, Whole), Dry(stType, Bad_, Whole)>>
                    IN <<Val(1, stType, Big(S(stType))), Val(2, stType, Tiny(S(stType)))>> \o q \o <<Obs>> \o ops \o q
                       \o [i \in 1..Len(q) |-> Nd(q[i])] \o <<Obs>>

PairPlan ==
  LET a == Ser(S(stType), stVal)
      m(i, b, d) == [t |-> i, b |-> b, dry |-> d]
      str(ms, rd) == [k |-> "str", ms |-> ms, rd |-> rd]
      styles == <<1, 5, 6, 7, 9>>
      total == Len(a) + Len(stWire)
  IN <<New(1, stType), Dec(1, a, Whole), New(1, stN), Dec(1, stWire, Whole), Dry(stType, a, Whole), Dry(stN, stWire, Whole)>>
     \o [i \in 1..5 |-> str(<<m(stType, a, 0), m(stN, stWire, 0), m(stType, a, 1)>>, Rd(styles[i]))]
     \o [i \in 1..5 |-> str(<<m(stType, a, 1), m(stN, stWire, 1), m(stN, stWire, 0)>>, Rd(styles[i]))]
     \o [i \in 1..total |-> str(<<m(stType, a, i % 2), m(stN, stWire, (i \div 2) % 2)>>, RdFail(styles[(i % 5) + 1], i - 1))]

FuzzPlan ==
  LET fz(s, rd) == [k |-> "fuzz", s |-> s, b |-> stWire, L |-> L(stWire), rd |-> rd]
      again == [i \in 1..3 |-> IF P = "C18" THEN Cu(fz(3, Rd(1)), i, 0) ELSE Be(fz(3, Whole), i % 2)]
  IN IF P # "C12" THEN <<New(1, stType), fz(1, Whole)>> \o FlattenSeq([i \in 1..3 |-> <<New(3, stType), again[i]>>])
     ELSE <<Type(stType), New(1, stType), fz(1, Whole), IfOK(Enc(1)), New(3, stType), IfOK(DecLast(3)), IfOK(Hash(1, "htr", 0)), Spare(2, stType, Big(S(stType)), 7), fz(2, Rd(1))>>

Plan == CASE stKind = "val" -> ValPlan
          [] stKind = "fuzz" -> FuzzPlan
          [] stKind = "wire" -> WirePlan
          [] stKind = "hist" -> IF Len(stHist) = HistMax THEN HistPlan ELSE <<>>
          [] stKind = "pair" -> IF stWire # <<>> \/ S(stN).max = <<>> THEN PairPlan ELSE <<>>
          [] OTHER -> <<>>
Emit == Emitting => LET p == Plan IN IF p = <<>> THEN TRUE ELSE PrintT("EMIT " \o ToJson([ev |-> p]))
=============================================================================
