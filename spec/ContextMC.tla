------------------------------ MODULE ContextMC ------------------------------
(* All nestings of small scopes over short inputs, and short writes; every   *)
(* operation in every state is emitted, with a history that leads there.     *)
EXTENDS Context, Json, IOUtils, SequencesExt

VARIABLES h, side, shown
Deep == "DEEP" \in DOMAIN IOEnv

Huge63 == <<0, 0, 0, 0, 0, 0, 0, 128>>
Near64 == {<<x, 255, 255, 255, 255, 255, 255, 255>> : x \in {255, 254, 250, 247}}
\* the scopes opened on the way
MoveNs == IF Deep THEN {BOf(i) : i \in {0, 1, 2, 3, 5, 9}} \cup {Huge63} ELSE {BOf(i) : i \in {0, 1, 3, 4}} \cup {<<255, 255, 255, 255, 255, 255, 255, 255>>}
Ns == {BOf(i) : i \in 0..(IF Deep THEN 10 ELSE 6)} \cup {BOf(9), <<0, 0, 0, 0, 1>>, Huge63} \cup Near64
ReadNs == {BOf(i) : i \in 0..(IF Deep THEN 10 ELSE 5)}
ReadOps == {[k |-> "read", n |-> n] : n \in ReadNs} \cup {[k |-> "skip", n |-> n] : n \in Ns}
           \cup {[k |-> x] : x \in {"r8", "r16", "r32", "r64", "off", "close"}}
           \cup {[k |-> "scope", n |-> n] : n \in Ns}
Offs == {<<>>, <<1>>, <<255>>, <<0, 1>>, <<4, 3, 2, 1>>, <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<254, 255, 255, 255>>, <<255, 255, 255, 255>>,
         <<0, 0, 0, 0, 1>>, <<5, 0, 0, 0, 1>>, Huge63} \cup Near64
WriteOps == {[k |-> "w", b |-> x] : x \in {<<>>, <<9>>, <<1, 2, 3>>, <<0, 0, 0, 0, 0>>}}
            \cup {[k |-> "wb", v |-> v] : v \in {0, 7, 255}}
            \cup {[k |-> "woff", p |-> p, l |-> l] : p \in Offs, l \in Offs}
FewOps == {op \in WriteOps : op.k = "woff" => BFits(op.p, 1) /\ BFits(op.l, 2)}

Depth == IF Deep THEN 4 ELSE 3
Init ==
  /\ h = <<>> /\ shown = FALSE /\ dead = FALSE
  /\ ReaderInit /\ WriterInit
  /\ \/ side = "r" /\ dlen \in {BOf(i) : i \in IF Deep THEN {0, 1, 3, 9} ELSE {0, 1, 5}} /\ wfail = -1 /\ mode = 0
     \/ side = "w" /\ dlen = <<>> /\ wfail \in {-1, 0, 1, 3, 4, 6} /\ mode \in 0..2

Move == /\ ~dead /\ shown
        /\ \E op \in (IF side = "r" THEN ReadOps ELSE FewOps) :
             /\ Enabled(op)
             /\ (op.k = "scope" => Len(sc) <= Depth /\ op.n \in MoveNs)
             /\ (op.k \in {"read", "skip"} => BFits(op.n, 1) /\ BInt(op.n) <= 3)
             /\ side = "w" => Len(out) <= 6
             /\ Do(op) /\ h' = Append(h, op)
        /\ shown' = FALSE /\ UNCHANGED side
\* with the outcome, what is seen afterwards
After(op) ==
  CASE IsRead(op) -> IF Past(op) \/ Ends(op) THEN Seen
                     ELSE [Seen EXCEPT !.i = BAdd(@, Wants(op)), !.span = BSub(@, Wants(op)), !.taken = BAdd(@, Wants(op))]
    [] op.k = "scope" -> IF BLess(Span, op.n) THEN Seen ELSE [Seen EXCEPT !.i = <<>>, !.max = op.n, !.span = op.n]
    [] op.k = "close" -> LET p == sc[Len(sc) - 1] IN
                         [Seen EXCEPT !.i = BAdd(p.i, Top.i), !.max = p.max, !.span = BSub(p.max, BAdd(p.i, Top.i))]
    [] IsWrite(op) -> IF Refused(op) THEN Seen ELSE [Seen EXCEPT !.n = @ + Accepts(Len(Bytes(op)))]
Record ==
  LET ops == SetToSeq({op \in (IF side = "r" THEN ReadOps ELSE WriteOps) : Enabled(op)}) IN
  [side |-> side, dlen |-> dlen, wfail |-> wfail, mode |-> mode, h |-> h, seen |-> Seen, depth |-> Len(sc),
   ops |-> TLCEval([j \in 1..Len(ops) |-> [op |-> ops[j], ok |-> Outcome(ops[j]).ok, r |-> Outcome(ops[j]).r,
                                   dead |-> IF IsRead(ops[j]) /\ ~Past(ops[j]) /\ Ends(ops[j]) THEN 1 ELSE 0,
                                   acc |-> IF IsWrite(ops[j]) /\ ~Refused(ops[j]) THEN SubSeq(Bytes(ops[j]), 1, Accepts(Len(Bytes(ops[j])))) ELSE <<>>,
                                   seen |-> After(ops[j])]])]
Show == /\ ~shown /\ ~dead /\ shown' = TRUE
        /\ ("EMIT" \in DOMAIN IOEnv => PrintT("EMIT " \o ToJson(Record)))
        /\ UNCHANGED <<cvars, h, side>>
Next == Move \/ Show
View == <<dlen, taken, sc, Len(out), wfail, mode, dead, side, shown>>

\* what the scopes guarantee
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN <<>> ELSE BAdd(s[1].i, SumI(Tail(s)))
Exact == taken = SumI(sc)                          \* every byte is accounted for exactly once
Within == \A k \in 1..Len(sc) : BLeq(sc[k].i, sc[k].max) /\ (k > 1 => BLeq(sc[k].max, BSub(sc[k - 1].max, sc[k - 1].i)))
\* the budget of every open scope bounds all that is still read below it
Nested == \A k \in 1..Len(sc) : BLeq(SumI(SubSeq(sc, k, Len(sc))), sc[k].max)
InInput == BLeq(taken, dlen)
WriteBound == wfail >= 0 /\ mode < 2 => Len(out) <= BMax2(wfail, 0)
=============================================================================
