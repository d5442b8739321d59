------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The API of zssz as a state machine.                                      *)
(*                                                                          *)
(* A user owns values in numbered slots and calls operations on them. An    *)
(* event e is one call: its kind e.k, its arguments, and its results.       *)
(* State:                                                                   *)
(*   slot   what every slot holds: [t |-> type, gv |-> Go value]            *)
(*   hash   the hash function in use (0 is SHA-256)                         *)
(*   memo   the answers given so far in this history, by question           *)
(*                                                                          *)
(* After(e) is the state after e. Judge(p, e) is "" when the results of e   *)
(* are ones property p allows in the current state, and otherwise says      *)
(* what is wrong. Properties are judged separately: a step may be fine for  *)
(* one and not for another.                                                 *)
(***************************************************************************)
EXTENDS Catalog

VARIABLES slot, hash, memo


Slots == 1..16
Nothing == [t |-> 0, gv |-> <<>>]

SessionInit ==
  /\ slot = [s \in Slots |-> Nothing]
  /\ hash = 0
  /\ memo = <<>>

T(e)  == IF Has(e, "t") THEN e.t ELSE slot[e.s].t
GvOf(e) == slot[e.s].gv
Crashed(e) == e.panic = 1

----------------------------------------------------------------------------
(* Questions and answers. Two events with the same question must have the  *)
(* same answer (for the properties that say so).                           *)

None == <<>>
\* the bytes that the reader can deliver, within the declared length
DeclaredInt(e) == IF BSmall(e.L) THEN BInt(e.L) ELSE Huge
Delivered(e) == SubSeq(e.b, 1, BMin(BMin(e.av, Len(e.b)), DeclaredInt(e)))
Enough(e) == BLeq(e.L, BOf(e.av))
Fresh(s) == slot[s].t # 0 /\ slot[s].gv = FreshOf(G(slot[s].t))

Verdict(e) == IF Crashed(e) THEN 2 ELSE e.ok
\* the SSZ value decoded, with the verdict
Decoded(g, e) == IF Verdict(e) # 1 THEN <<Verdict(e)>>
                 ELSE IF Shaped(g, e.gv) THEN <<1, Flat(g, e.gv)>> ELSE <<1, <<>>, <<>>>>

Key(e) ==
  CASE e.k \in {"enc", "size"} -> <<e.k, T(e), GvOf(e)>>
    [] e.k = "pretty" -> <<e.k, T(e), GvOf(e), e.ind>>
    [] e.k \in {"htr", "sr"} -> <<e.k, T(e), GvOf(e), hash>>
    [] e.k = "encw" -> <<e.k, T(e), GvOf(e), e.wp.at, e.wp.mode>>
    [] e.k \in {"dec", "dry"} /\ Enough(e) -> <<e.k, T(e), Delivered(e), e.L>>
    [] e.k = "fuzz" -> <<e.k, T(e), Delivered(e), e.L>>
    [] e.k = "type" -> <<e.k, T(e)>>
    [] OTHER -> None

Ans(e) ==
  IF Crashed(e) THEN <<>>
  ELSE CASE e.k = "enc" -> <<e.b, e.n, e.err>>
         [] e.k = "size" -> <<e.n>>
         [] e.k = "pretty" -> <<e.txt>>
         [] e.k \in {"htr", "sr"} -> <<e.root>>
         [] e.k = "encw" -> <<e.acc, e.n, e.err>>
         [] e.k = "dec" -> Decoded(G(T(e)), e)
         [] e.k = "fuzz" -> Append(Decoded(G(T(e)), e), e.n)
         [] e.k = "dry" -> <<e.ok>>
         [] e.k = "type" -> IF e.ok = 0 THEN <<0>> ELSE <<1, e.fx, e.fl, e.min, e.max, e.fmin, e.fmax>>
         [] OTHER -> <<>>

(* Two Go types with the same elaboration and two Go values carrying the same  *)
(* SSZ value are the same question at the level of SSZ.                        *)
SszKey(e) ==
  CASE e.k \in {"enc", "size"} -> <<e.k, Sp[T(e)], Flat(G(T(e)), GvOf(e))>>
    [] e.k \in {"htr", "sr"} -> <<e.k, Sp[T(e)], Flat(G(T(e)), GvOf(e)), hash>>
    [] e.k \in {"dec", "dry"} /\ Enough(e) -> <<e.k, Sp[T(e)], Delivered(e), e.L>>
    [] e.k = "type" /\ ~IsBad(Sp[T(e)]) -> <<e.k, Sp[T(e)]>>
    [] OTHER -> None

Asked(k) == k # None /\ k \in DOMAIN memo
Same(e) == Asked(Key(e)) => memo[Key(e)] = Ans(e)

\* Answers are remembered; of decodings only those into fresh memory.
Remembers(e) == Key(e) # None /\ (e.k \in {"dec"} => Fresh(e.s)) /\ ~Has(e, "cu")

----------------------------------------------------------------------------
(* The state afterwards *)

After(p, e) ==
  /\ slot' = CASE e.k \in {"new", "val"} -> [slot EXCEPT ![e.s] = [t |-> e.t, gv |-> e.gv]]
               [] e.k \in {"dec", "fuzz", "mut"} /\ ~Crashed(e) -> [slot EXCEPT ![e.s].gv = e.gv]
               [] OTHER -> slot
  /\ hash' = IF e.k = "hash" THEN e.h ELSE hash
  /\ memo' = LET k == IF p = "C14" THEN SszKey(e) ELSE Key(e)
                 m == IF Remembers(e) /\ k # None /\ k \notin DOMAIN memo THEN memo @@ (k :> Ans(e)) ELSE memo
             IN IF p = "C01" /\ e.k = "enc" /\ ~Crashed(e)
                THEN m @@ (<<"wire", T(e), e.b>> :> Flat(G(T(e)), GvOf(e))) ELSE m

----------------------------------------------------------------------------
(* Judgement. Chk(c, why, rest): why unless c, then rest. *)

\* (reading a value panics when its memory is not what it was)
Unchanged(e) == ~Crashed(e) /\ \A i \in 1..Len(e.all) : slot[e.all[i][1]].gv = e.all[i][2]

\* Bytes of memory the largest value of a Go type takes, roughly
RECURSIVE MemMax(_), MemSum(_, _)
MemMax(g) ==
  CASE g.k = "bool" -> <<1>>
    [] g.k = "uint" -> <<g.n>>
    [] g.k = "ptr" -> BAdd(<<8>>, MemMax(g.e))
    [] g.k = "array" -> BMul(BOf(g.n), MemMax(g.e))
    [] g.k = "slice" -> IF Has(g, "lim") THEN BAdd(<<32>>, BMul(g.lim, MemMax(g.e))) ELSE <<32>>  \* (without a limit: in omitted fields only)
    [] g.k = "struct" -> BAdd(<<8>>, MemSum(g.fs, 1))
    [] g.k = "bad" -> <<>>
MemSum(fs, i) == IF i > Len(fs) THEN <<>> ELSE BAdd(BAdd(<<8>>, MemMax(fs[i].t)), MemSum(fs, i + 1))
\* KiB: twice the largest value and a constant
MemBound(g) == BAdd(BShrCeil(BShrCeil(MemMax(g), 8), 1), <<0, 2>>)

JC01(e) ==
  CASE e.k = "enc" -> IF Crashed(e) THEN "Encode panics" ELSE IF e.err = 1 THEN "Encode fails" ELSE ""
    [] e.k = "dec" ->
         LET w == <<"wire", T(e), e.b>> IN
         IF w \notin DOMAIN memo THEN ""
         ELSE IF Crashed(e) THEN "Decode of an encoding panics"
         ELSE IF e.ok = 0 THEN "Decode of an encoding fails"
         ELSE IF ~Shaped(G(T(e)), e.gv) THEN "Decode leaves an invalid value"
         ELSE IF Flat(G(T(e)), e.gv) # memo[w] THEN "Decode yields another value" ELSE ""
    [] OTHER -> ""

JC02(e) ==
  IF e.k # "enc" THEN ""
  ELSE IF Crashed(e) THEN "Encode panics"
  ELSE IF e.err = 1 THEN "Encode fails"
  ELSE IF e.n # Len(e.b) THEN "count is not the number of bytes written"
  ELSE IF e.b # Ser(Sp[T(e)], Flat(G(T(e)), GvOf(e))) THEN "not the canonical serialization" ELSE ""

JC03(e) ==
  CASE e.k = "dec" ->
         IF Crashed(e) THEN "Decode panics"
         ELSE LET r == Parse(Sp[T(e)], e.b) IN
              IF r[1] /\ e.ok = 0 THEN "canonical encoding refused"
              ELSE IF ~r[1] /\ e.ok = 1 THEN "not a canonical encoding, but accepted"
              ELSE IF r[1] /\ ~(Shaped(G(T(e)), e.gv) /\ Flat(G(T(e)), e.gv) = r[2]) THEN "wrong value decoded" ELSE ""
    [] e.k = "enc" -> \* of what was just decoded
         IF Crashed(e) THEN "Encode panics"
         ELSE IF <<"dec", T(e), e.b, BOf(Len(e.b))>> \in DOMAIN memo THEN "" ELSE "re-encoding differs from the input"
    [] OTHER -> ""

JC04(e) == IF e.k = "decdry" /\ e.dec # e.dry
           THEN IF e.dec = 1 THEN "Decode accepts, DryCheck refuses" ELSE "DryCheck accepts, Decode refuses" ELSE ""

Reported(e) == <<"type", T(e)>> \in DOMAIN memo
Rep(e) == memo[<<"type", T(e)>>]
JC05(e) ==
  CASE e.k = "type" ->
         LET s == Sp[T(e)] IN
         IF Crashed(e) THEN "panics"
         ELSE IF e.ok = 0 THEN "definition refused"
         ELSE IF (e.fx = 1) # s.fx THEN "IsFixed is wrong"
         ELSE IF BFits(s.min, 8) /\ e.min # s.min THEN "MinLen is wrong"
         ELSE IF BFits(s.max, 8) /\ e.max # s.max THEN "MaxLen is wrong"
         ELSE IF s.k \in {"cont", "vec", "basic", "bytesN", "bitvec"} /\ e.fl # BOf(s.fl) THEN "FixedLen is wrong" ELSE ""
    [] e.k = "size" -> 
         IF Crashed(e) THEN "SizeOf panics"
         ELSE LET k == <<"enc", T(e), GvOf(e)>> IN
              IF Asked(k) /\ Len(memo[k]) = 3 /\ BOf(Len(memo[k][1])) # e.n THEN "SizeOf is not the encoded size"
              ELSE IF Reported(e) /\ Len(Rep(e)) = 7 /\ (BLess(e.n, Rep(e)[4]) \/ (BFits(Sp[T(e)].max, 8) /\ BLess(Rep(e)[5], e.n)))
                   THEN "SizeOf outside MinLen..MaxLen" ELSE ""
    [] e.k = "enc" ->
         LET k == <<"size", T(e), GvOf(e)>> IN
         IF ~Crashed(e) /\ e.err = 0 /\ Asked(k) /\ memo[k] # <<>> /\ memo[k][1] # BOf(Len(e.b)) THEN "SizeOf is not the encoded size" ELSE ""
    [] OTHER -> ""

JC06(e) ==
  IF e.k # "htr" THEN ""
  ELSE IF Crashed(e) THEN "HashTreeRoot panics"
  ELSE IF e.tree # HTR(Sp[T(e)], Flat(G(T(e)), GvOf(e))) THEN "tree" ELSE ""

JC07(e) ==
  IF e.k # "sr" THEN ""
  ELSE IF Crashed(e) THEN "SigningRoot panics"
  ELSE IF e.tree # SigningRoot(Sp[T(e)], Flat(G(T(e)), GvOf(e))) THEN "tree" ELSE ""

JC19(e) ==
  IF e.k \notin {"htr", "sr"} THEN ""
  ELSE IF Crashed(e) THEN "panics"
  ELSE IF ~Same(e) THEN "another root for the same value and hash function"
  ELSE IF e.tree # (IF e.k = "htr" THEN HTR(Sp[T(e)], Flat(G(T(e)), GvOf(e)))
                    ELSE SigningRoot(Sp[T(e)], Flat(G(T(e)), GvOf(e)))) THEN "tree" ELSE ""

RECURSIVE CumLen(_, _)
CumLen(ms, i) == IF i = 0 THEN 0 ELSE CumLen(ms, i - 1) + Len(ms[i].b)
\* the k-th message of a stream
MsgWhy(e, i) ==
  LET m == e.ms[i]
      r == e.res[i]
      full == CumLen(e.ms, i) <= e.av
      k == <<IF m.dry = 1 THEN "dry" ELSE "dec", m.t, m.b, BOf(Len(m.b))>>
      ans == IF r.ok = 0 \/ m.dry = 1 THEN <<r.ok>>
             ELSE IF Shaped(G(m.t), r.gv) THEN <<1, Flat(G(m.t), r.gv)>> ELSE <<1, <<>>, <<>>>>
  IN IF r.used > Len(m.b) THEN "takes more than the declared length"
     ELSE IF r.ok = 1 /\ r.used # Len(m.b) THEN "success without taking the declared length"
     ELSE IF ~full THEN IF r.ok = 1 THEN "success though the input ended early" ELSE ""
     ELSE IF Asked(k) /\ memo[k] # ans THEN "another result in a stream" ELSE ""

JC09(e) ==
  CASE e.k \in {"dec", "dry"} ->
         IF ~Enough(e) /\ (Crashed(e) \/ e.ok = 1) THEN "no error though the input ended early"
         ELSE IF ~Crashed(e) /\ BLess(e.L, BOf(e.used)) THEN "takes more than the declared length"
         ELSE IF Verdict(e) = 1 /\ BOf(e.used) # e.L THEN "success without taking the declared length"
         ELSE IF ~Same(e) THEN "the result depends on the reader" ELSE ""
    [] e.k = "str" ->
         IF Crashed(e) THEN "panics"
         ELSE LET bad == SelectSeq([i \in 1..Len(e.res) |-> MsgWhy(e, i)], LAMBDA w : w # "")
              IN IF bad = <<>> THEN "" ELSE bad[1]
    [] OTHER -> ""

Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* a write to a writer that fails, of something whose encoding is full
WriteWhy(e, full) ==
  IF Crashed(e) THEN "Encode panics"
  ELSE IF e.after = 1 THEN "writes after a failure"
  ELSE IF ~Prefix(e.acc, full) THEN "accepted bytes are no prefix of the encoding"
  ELSE IF e.n # Len(e.acc) THEN "count is not the number of bytes accepted"
  ELSE IF e.failed = 1 /\ (e.err = 0 \/ e.same = 0) THEN "the writer's error is not returned"
  ELSE IF e.failed = 0 /\ e.err = 1 THEN "an error though the writer never failed"
  ELSE IF e.failed = 0 /\ e.acc # full THEN "not the whole encoding" ELSE ""
JC10(e) ==
  IF e.k = "enc" THEN IF ~Crashed(e) /\ e.err = 0 /\ e.n # Len(e.b) THEN "count is not the number of bytes accepted" ELSE ""
  ELSE IF e.k # "encw" THEN ""
  ELSE IF Crashed(e) THEN "Encode panics"
  ELSE LET full == memo[<<"enc", T(e), GvOf(e)>>] IN
       IF Len(full) < 3 THEN "" ELSE WriteWhy(e, full[1])

JC11(e) ==
  CASE e.k = "dec" ->
         IF ~Enough(e) \/ ~Asked(Key(e)) THEN ""
         ELSE IF memo[Key(e)] # Ans(e) THEN "the result depends on what the destination held"
         ELSE IF Verdict(e) = 1 /\ Len(Ans(e)) = 2 /\ ~Agree(G(T(e)), GvOf(e), e.gv, Ans(e)[2]) THEN "changes an omitted field" ELSE ""
    [] e.k = "obs" -> IF Unchanged(e) THEN "" ELSE "a value changed that nothing was done to"
    [] OTHER -> ""

JC12(e) ==
  CASE e.k = "fuzz" ->
         LET rep == Rep(e)
             n   == BOf(Len(e.b))
             whole == <<"fuzz", T(e), e.of, e.L>>
         IN IF Crashed(e) THEN "DecodeFuzzBytes panics"
            \* the reader ended or failed before the end of the input e.of, of which decoding takes so many bytes
            ELSE IF Has(e, "of")
                 THEN IF Asked(whole) /\ Len(memo[whole]) = 3 /\ BLess(BOf(e.av), memo[whole][3]) /\ e.ok = 1
                      THEN "no error though the input ended early" ELSE ""
            ELSE IF BLess(n, rep[6]) THEN IF e.ok = 1 THEN "input shorter than the minimum accepted" ELSE ""
            ELSE IF e.ok = 0 THEN "long enough input refused"
            ELSE IF ~WellFormed(G(T(e)), e.gv) THEN "not a valid value"
            ELSE IF e.n # BOf(e.used) THEN "count is not the number of bytes taken"
            ELSE IF BLess(e.n, rep[6]) THEN "count below the minimum fuzz length"
            ELSE IF BLess(n, e.n) THEN "count exceeds the input"
            ELSE IF BFits(FuzzUp(Sp[T(e)]), 8) /\ BLess(rep[7], e.n) THEN "count above the maximum fuzz length"
            ELSE IF ~Same(e) THEN "equal inputs, different results" ELSE ""
    [] e.k = "enc" -> IF Crashed(e) \/ e.err = 1 THEN "the value does not encode" ELSE ""
    [] e.k = "dec" -> IF Crashed(e) \/ e.ok = 0 THEN "the encoded value does not decode"
                      ELSE IF Decoded(G(T(e)), e) # <<1, Flat(G(T(e)), slot[1].gv)>> THEN "the value does not decode back" ELSE ""
    [] e.k = "htr" -> IF Crashed(e) THEN "the value does not hash" ELSE ""
    [] OTHER -> ""

JC14(e) ==
  CASE e.k = "type" -> IF Crashed(e) THEN "panics"
                       ELSE IF (e.ok = 1) = IsBad(Sp[T(e)])
                       THEN IF e.ok = 1 THEN "unsupported type accepted" ELSE "supported type refused"
                       ELSE IF Asked(SszKey(e)) /\ memo[SszKey(e)] # Ans(e) THEN "same flattening, other properties" ELSE ""
    [] e.k = "getssz" -> IF Crashed(e) THEN "panics"
                         ELSE IF (e.ok = 1) = IsBad(Sp[T(e)]) THEN "GetSSZ: supported or not is wrong" ELSE ""
    [] e.k \in {"enc", "size", "htr", "sr", "dec", "dry"} ->
         IF Asked(SszKey(e)) /\ memo[SszKey(e)] # Ans(e) THEN "same flattening, different result" ELSE ""
    [] OTHER -> ""

JC16(e) ==
  IF e.k # "mem" THEN ""
  ELSE IF Crashed(e) THEN "Decode panics"
  ELSE IF e.ok = 1 THEN "accepted"
  ELSE IF BLess(MemBound(G(T(e))), BOf(e.kib)) THEN "allocates more than the limits allow" ELSE ""

JC17(e) == IF Same(e) THEN "" ELSE "the result depends on the byte order"

(* e.full: the text, without white space. e.ind: the unit of indentation, white space. *)
JC21(e) ==
  IF e.k # "pretty" THEN ""
  ELSE IF Crashed(e) THEN "Pretty panics"
  ELSE IF ~Same(e) THEN "another text than before"
  ELSE IF e.full # TextOf(G(T(e)), GvOf(e)) THEN "not the text of the value" ELSE ""

(* With custom definitions inside (e.cu) an operation gives what it gives without. e.cm = 2: *)
(* the custom definitions leave bytes unread, which their parents must notice.                *)
Inverted(t) == \E i \in 1..Len(Types[t].cls) : Types[t].cls[i] = "inv"
\* where the custom definitions encode in a way of their own, which is part of the type
JC18Own(e) ==
  CASE e.k = "enc" -> JC02(e)
    [] e.k = "encw" -> WriteWhy(e, Ser(Sp[T(e)], Flat(G(T(e)), GvOf(e))))
    [] e.k = "size" -> IF Crashed(e) THEN "SizeOf panics"
                       ELSE IF e.n # BOf(Len(Ser(Sp[T(e)], Flat(G(T(e)), GvOf(e))))) THEN "SizeOf is not the encoded size" ELSE ""
    [] e.k = "type" -> JC05(e)
    [] e.k = "htr" -> JC06(e)
    [] e.k = "sr" -> JC07(e)
    [] e.k = "pretty" -> IF Same(e) THEN "" ELSE "another text than before"
    [] e.k = "dec" -> JC03(e)
    [] e.k = "dry" -> IF Crashed(e) THEN "DryCheck panics"
                      ELSE IF (e.ok = 1) # Parse(Sp[T(e)], e.b)[1] THEN "the verdict of DryCheck is wrong" ELSE ""
    [] OTHER -> ""

JC18(e) ==
  IF Has(e, "cu") /\ e.past > 0 THEN "reads past the scope"
  ELSE IF Has(e, "cu") /\ Inverted(T(e)) THEN JC18Own(e)
  ELSE IF Has(e, "cm") /\ e.cm = 2
  THEN IF e.unread > 0 /\ Verdict(e) = 1 THEN "accepted though a definition left bytes unread" ELSE ""
  ELSE IF e.k = "encw" THEN JC10(e)
  ELSE IF Same(e) THEN "" ELSE "another result with custom definitions inside"

JC20(e) ==
  CASE e.k = "obs" -> IF Unchanged(e) THEN "" ELSE "a value changed"
    [] e.k \in {"enc", "encw", "size", "htr", "sr", "dry", "pretty", "type"} ->
         IF ~Same(e) THEN "another result than before"
         ELSE IF Has(e, "inputChanged") THEN "the input changed"
         ELSE IF Has(e, "memChanged") THEN "memory of the value changed" ELSE ""
    [] OTHER -> ""

Judge(p, e) ==
  CASE p = "C01" -> JC01(e) [] p = "C02" -> JC02(e) [] p = "C03" -> JC03(e) [] p = "C04" -> JC04(e)
    [] p = "C05" -> JC05(e) [] p = "C06" -> JC06(e) [] p = "C07" -> JC07(e) [] p = "C09" -> JC09(e)
    [] p = "C10" -> JC10(e) [] p = "C11" -> JC11(e) [] p = "C12" -> JC12(e) [] p = "C14" -> JC14(e)
    [] p = "C16" -> JC16(e) [] p = "C17" -> JC17(e) [] p = "C18" -> JC18(e)
    [] p = "C19" -> JC19(e) [] p = "C20" -> JC20(e) [] p = "C21" -> JC21(e)

(* What the user puts into a slot is in the domain of the properties. *)
InDomain(e) == e.k = "val" => WellFormed(G(e.t), e.gv)
=============================================================================
