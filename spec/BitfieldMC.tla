----------------------------- MODULE BitfieldMC -----------------------------
(* All histories of bit sets on short byte slices; every state and every set *)
(* is emitted for replay into the helpers.                                   *)
EXTENDS Bitfield, Json, IOUtils

VARIABLE shown
Deep == "DEEP" \in DOMAIN IOEnv

F == {0, 1, 128, 170, 255}
Starts == {<<>>}
          \cup {<<x>> : x \in 0..255}
          \cup {<<x, y>> : x \in (IF Deep THEN 0..255 ELSE F), y \in 0..255}
          \cup {<<x, y, z>> : x \in {0, 255}, y \in {0, 128, 255}, z \in {0, 1, 2, 3, 64, 127, 128, 255}}
\* whether a slice is among the starts
Kept(x) == CASE Len(x) <= 1 -> TRUE
             [] Len(x) = 2 -> Deep \/ x[1] \in F
             [] OTHER -> x[1] \in {0, 255} /\ x[2] \in {0, 128, 255} /\ x[3] \in {0, 1, 2, 3, 64, 127, 128, 255}
Limits == {BOf(i) : i \in 0..26} \cup
          {<<255, 255, 255, 255>>, <<0, 0, 0, 0, 1>>, <<0, 0, 0, 0, 0, 0, 0, 128>>} \cup
          {<<x, 255, 255, 255, 255, 255, 255, 255>> : x \in 247..255}

Init == b \in Starts /\ shown = FALSE
\* the history goes on with a set (kept within what is emitted)
Set == \E i \in 0..(8 * Len(b) - 1), v \in {0, 1} :
         /\ LET x == SetAns(i, v) IN Kept(x) /\ b' = x /\ shown' = FALSE

Record ==
  LET bits == TLCEval(AllBits) IN
  [b |-> b,
   bits |-> bits, len |-> LenAns, zero |-> B(ZeroAns),
   lc |-> SetToSeq({l \in Limits : ListCheckAns(l)}),
   nlc |-> SetToSeq({l \in Limits : ~ListCheckAns(l)}),
   vc |-> SetToSeq({l \in Limits : VecCheckAns(l)}),
   nvc |-> SetToSeq({l \in Limits : ~VecCheckAns(l)}),
   sets |-> TLCEval([i \in 1..(8 * Len(b)) |-> <<SetAns(i - 1, 0), SetAns(i - 1, 1)>>])]
Show == /\ ~shown
        /\ shown' = TRUE
        /\ "EMIT" \in DOMAIN IOEnv => PrintT("EMIT " \o ToJson(Record))
        /\ UNCHANGED b
Next == (shown /\ Set) \/ Show

\* the bits carry everything, and a set changes exactly one of them
Repr == PackBits(AllBits) = b
OneBit == LET bits == TLCEval(AllBits) IN
          \A i \in 0..(8 * Len(b) - 1), v \in {0, 1} :
            LET s == TLCEval(Bits(SetAns(i, v))) IN
            s[i + 1] = v /\ \A j \in 1..Len(s) : j # i + 1 => s[j] = bits[j]
\* the checks accept exactly the serializations of a bitlist / bitvector type
Checks == \A l \in Limits :
            /\ ListCheckAns(l) <=> Parse(BitlistT(l), b)[1]
            /\ Len(l) <= 1 => (VecCheckAns(l) <=> Parse(BitvecT(BInt(l)), b)[1])
\* and are what their parts say
Parts == \A l \in Limits :
            /\ ListCheckAns(l) <=> /\ ListByteLenAns(BOf(Len(b)), l)
                                   /\ ListLastByteAns(b[Len(b)], BSub(l, BMulD(BOf(Len(b) - 1), 8)))
            /\ VecCheckAns(l) <=> /\ VecByteLenAns(BOf(Len(b)), l)
                                  /\ b # <<>> => VecLastByteAns(b[Len(b)], l)
=============================================================================
