------------------------------- MODULE Context -------------------------------
(***************************************************************************)
(* The contexts handed to custom type definitions.                          *)
(*                                                                          *)
(* Reading: an input of dlen bytes, taken of which were taken, and a stack  *)
(* sc of scopes [i, max] (all in digits), the last being the current one;   *)
(* the first is the context without a bound. A scope is used until it is    *)
(* closed, which accounts what was read in it to its parent.                *)
(*                                                                          *)
(* Writing: out is what the writer accepted; wfail is the number of bytes   *)
(* after which it fails (-1: never), and mode how it fails (see Accepts).   *)
(*                                                                          *)
(* dead: the input or the writer failed; nothing is specified afterwards.   *)
(* An operation op is a record with its kind in k; Outcome(op) is what it   *)
(* returns, and Do(op) the state after it.                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, BigNat

VARIABLES dlen, taken, sc, out, wfail, mode, dead
cvars == <<dlen, taken, sc, out, wfail, mode, dead>>

\* the input
ByteAt(p) == (BDigit(p, 1) * 37 + 11) % 256
Input(from, n) == [j \in 1..n |-> ByteAt(BAdd(from, BOf(j - 1)))]
\* reads of more bytes are told by these, and by whether the rest repeats them
Period == 256

Unbounded == [i \in 1..8 |-> 255]
ReaderInit == taken = <<>> /\ sc = <<[i |-> <<>>, max |-> Unbounded]>>
WriterInit == out = <<>>

Top == sc[Len(sc)]
Span == BSub(Top.max, Top.i)

----------------------------------------------------------------------------
(* Reading. The number of bytes an operation wants, in digits. *)
Wants(op) == CASE op.k \in {"read", "skip"} -> op.n
               [] op.k = "r8" -> <<1>> [] op.k = "r16" -> <<2>>
               [] op.k \in {"r32", "off"} -> <<4>> [] op.k = "r64" -> <<8>>
               [] OTHER -> <<>>
IsRead(op) == op.k \in {"read", "skip", "r8", "r16", "r32", "r64", "off"}
Past(op) == BLess(Span, Wants(op))
Ends(op) == BLess(BSub(dlen, taken), Wants(op))

Advance(n) == [sc EXCEPT ![Len(sc)].i = BAdd(@, n)]

(* Writing *)
Pow32 == <<0, 0, 0, 0, 1>>
Pad4(d) == [j \in 1..4 |-> BDigit(d, j)]
OffsetSum(op) == BAdd(op.p, op.l)
Refused(op) == op.k = "woff" /\ ~BLess(OffsetSum(op), Pow32)
Bytes(op) == CASE op.k = "w" -> op.b [] op.k = "wb" -> <<op.v>>
               [] op.k = "woff" -> Pad4(OffsetSum(op))
IsWrite(op) == op.k \in {"w", "wb", "woff"}
\* how many of the n bytes of a call the writer takes
Accepts(n) == IF wfail < 0 \/ n = 0 THEN n
              ELSE IF mode = 2 THEN n
              ELSE IF Len(out) + n <= wfail THEN n
              ELSE IF mode = 1 \/ wfail < Len(out) THEN 0 ELSE wfail - Len(out)
Fails(n) == wfail >= 0 /\ n > 0 /\ (IF mode = 2 THEN Len(out) + n >= wfail ELSE Len(out) + n > wfail)

----------------------------------------------------------------------------
\* ok: 1 no error, 0 an error, 2 a panic. r: what is returned with success
Outcome(op) ==
  CASE IsRead(op) -> IF Past(op) \/ Ends(op) THEN [ok |-> 0, r |-> <<>>]
                     ELSE [ok |-> 1, r |-> IF op.k = "skip" THEN <<>>
                                           ELSE TLCEval(Input(taken, IF BLess(Wants(op), BOf(Period)) THEN BInt(Wants(op)) ELSE Period))]
    [] op.k = "scope" -> [ok |-> IF BLess(Span, op.n) THEN 0 ELSE 1, r |-> <<>>]
    [] op.k = "close" -> [ok |-> 1, r |-> <<>>]
    [] IsWrite(op) -> IF Refused(op) THEN [ok |-> 2, r |-> <<>>]
                      ELSE IF Fails(Len(Bytes(op))) THEN [ok |-> 0, r |-> <<>>]
                      ELSE [ok |-> 1, r |-> IF op.k = "woff" THEN OffsetSum(op) ELSE <<>>]

Enabled(op) == op.k = "close" => Len(sc) > 1

Do(op) ==
  /\ UNCHANGED <<dlen, wfail, mode>>
  /\ CASE IsRead(op) ->
            /\ UNCHANGED out
            /\ IF Past(op) THEN UNCHANGED <<taken, sc, dead>>
               ELSE IF Ends(op) THEN dead' = TRUE /\ UNCHANGED <<taken, sc>>
               ELSE taken' = BAdd(taken, Wants(op)) /\ sc' = Advance(Wants(op)) /\ UNCHANGED dead
       [] op.k = "scope" ->
            /\ UNCHANGED <<taken, out, dead>>
            /\ sc' = IF BLess(Span, op.n) THEN sc ELSE Append(sc, [i |-> <<>>, max |-> op.n])
       [] op.k = "close" ->
            /\ UNCHANGED <<taken, out, dead>>
            /\ sc' = [SubSeq(sc, 1, Len(sc) - 1) EXCEPT ![Len(sc) - 1].i = BAdd(@, Top.i)]
       [] IsWrite(op) ->
            /\ UNCHANGED <<taken, sc>>
            /\ IF Refused(op) THEN UNCHANGED <<out, dead>>
               ELSE LET x == Bytes(op) IN
                    out' = out \o SubSeq(x, 1, Accepts(Len(x))) /\ dead' = Fails(Len(x))

(* What can be observed in a state that is not dead *)
Seen == [i |-> Top.i, max |-> Top.max, span |-> Span, taken |-> taken, n |-> Len(out)]
=============================================================================
