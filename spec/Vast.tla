-------------------------------- MODULE Vast --------------------------------
(***************************************************************************)
(* The lengths of types with arrays of any number of elements: Elab of      *)
(* SSZ.tla once more, without TLC's 31-bit integers. A G-type has the       *)
(* lengths of arrays and bitvectors as digits here.                         *)
(***************************************************************************)
EXTENDS Catalog

VNone == [ok |-> FALSE, fx |-> FALSE, fl |-> <<>>, min |-> <<>>, max |-> <<>>]
VFix(n) == [ok |-> TRUE, fx |-> TRUE, fl |-> n, min |-> n, max |-> n]
VVar(fl, min, max) == [ok |-> TRUE, fx |-> FALSE, fl |-> fl, min |-> min, max |-> max]
VOffset == <<4>>

RECURSIVE VLens(_), VFields(_)
\* the lengths of the serialised fields, in order
VFields(fs) ==
  FlattenSeq(TLCEval([i \in 1..Len(fs) |->
    IF fs[i].omit THEN <<>>
    ELSE IF fs[i].squash /\ fs[i].t.k # "struct" THEN <<VNone>>
    ELSE IF Squashed(fs[i]) THEN VFields(fs[i].t.fs) ELSE <<VLens(fs[i].t)>>]))
VLens(g) ==
  CASE Has(g, "inv") -> VLens([a \in DOMAIN g \ {"inv"} |-> g[a]])
    [] g.k = "bool" -> VFix(<<1>>)
    [] g.k = "uint" -> VFix(BOf(g.n))
    [] g.k = "ptr"  -> VLens(g.e)
    [] g.k = "bad"  -> VNone
    [] g.k = "array" /\ IsByte(g.e) -> IF Has(g, "bl") /\ BShrCeil(g.bl, 3) # g.n THEN VNone ELSE VFix(g.n)
    [] g.k = "array" ->
         LET e == VLens(g.e) IN
         IF ~e.ok THEN VNone
         ELSE IF e.fx THEN VFix(BMul(e.fl, g.n))
         ELSE VVar(BMul(VOffset, g.n), BMul(BAdd(e.min, VOffset), g.n), BMul(BAdd(e.max, VOffset), g.n))
    [] g.k = "slice" ->
         IF ~Has(g, "lim") THEN VNone
         ELSE IF IsByte(g.e) /\ Has(g, "bl") THEN VVar(<<>>, <<1>>, BShrCeil(BAdd(g.lim, <<1>>), 3))
         ELSE LET e == VLens(g.e) IN
              IF ~e.ok THEN VNone ELSE VVar(<<>>, <<>>, BMul(IF e.fx THEN e.fl ELSE BAdd(e.max, VOffset), g.lim))
    [] g.k = "struct" ->
         LET fs == VFields(g.fs)
             sum(Of(_)) == FoldLeft(LAMBDA a, f : BAdd(a, Of(f)), <<>>, fs)
         IN IF \E i \in 1..Len(fs) : ~fs[i].ok THEN VNone
            ELSE IF \A i \in 1..Len(fs) : fs[i].fx THEN VFix(sum(LAMBDA f : f.fl))
            ELSE VVar(sum(LAMBDA f : IF f.fx THEN f.fl ELSE VOffset), sum(LAMBDA f : IF f.fx THEN f.min ELSE BAdd(f.min, VOffset)),
                      sum(LAMBDA f : IF f.fx THEN f.max ELSE BAdd(f.max, VOffset)))

----------------------------------------------------------------------------
(* Agreement with Elab, on a type of the catalogue *)
RECURSIVE VOf(_)
VOf(g) ==
  CASE g.k = "array" -> [a \in DOMAIN g |-> IF a \in {"n", "bl"} THEN BOf(g[a]) ELSE IF a = "e" THEN VOf(g.e) ELSE g[a]]
    [] g.k \in {"ptr", "slice"} -> [a \in DOMAIN g |-> IF a = "e" THEN VOf(g.e) ELSE g[a]]
    [] g.k = "struct" -> [a \in DOMAIN g |-> IF a = "fs" THEN TLCEval([i \in 1..Len(g.fs) |-> [g.fs[i] EXCEPT !.t = VOf(@)]]) ELSE g[a]]
    [] OTHER -> g
VAgrees(t) ==
  LET v == VLens(VOf(G(t)))
      s == Sp[t]
  IN IF IsBad(s) THEN ~v.ok
     ELSE v = [ok |-> TRUE, fx |-> s.fx, fl |-> BOf(s.fl), min |-> s.min, max |-> s.max]
=============================================================================
