----------------------------- MODULE HugeTrace -----------------------------
(***************************************************************************)
(* Recorded operations on values of up to several gigabytes. Each line of   *)
(* the trace is one value of one type and what was done with it.            *)
(***************************************************************************)
EXTENDS Catalog, Huge
VARIABLES line, bad

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Prop == IOEnv.PROP

Panics(r) == r.panic = 1
\* does x carry the value v
Got(c, x, v) == HShaped(c.g, x.gv) /\ HFlat(c.g, x.gv) = v
\* is there an encoding
Known(c) == c.ser[1]

\* the verdicts and results on one input e.b (all of it delivered, and more)
WhyIn(c, e) ==
  LET d == e.dec
      y == e.dry
      \* recorded with the case: dec is absent from the largest cases
      hasDec == Has(d, "ok")
      r == IF Prop \in {"C03"} THEN HParse(c.s, e.b) ELSE No
      used(x, what) == IF ~Panics(x) /\ BLess(RLen(e.b), x.used) THEN what \o " takes more than the declared length"
                       ELSE IF x.ok = 1 /\ x.used # RLen(e.b) THEN what \o ": success without taking the declared length" ELSE ""
  IN CASE Prop = "C01" ->
            IF e.own = 0 \/ ~hasDec THEN ""
            ELSE IF Panics(d) THEN "Decode of an encoding panics"
            ELSE IF d.ok = 0 THEN "Decode of an encoding fails"
            ELSE IF ~Got(c, d, c.v) THEN "Decode yields another value" ELSE ""
       [] Prop = "C03" ->
            IF ~hasDec THEN ""
            ELSE IF Panics(d) THEN "Decode panics"
            ELSE IF r[1] /\ d.ok = 0 THEN "canonical encoding refused"
            ELSE IF ~r[1] /\ d.ok = 1 THEN "not a canonical encoding, but accepted"
            ELSE IF r[1] /\ ~Got(c, d, r[2]) THEN "wrong value decoded" ELSE ""
       [] Prop = "C04" ->
            IF ~hasDec THEN ""
            ELSE IF d.ok = y.ok THEN ""
            ELSE IF d.ok = 1 THEN "Decode accepts, DryCheck refuses" ELSE "DryCheck accepts, Decode refuses"
       [] Prop = "C09" ->
            IF e.early = 1
            THEN IF y.ok = 1 \/ (hasDec /\ d.ok = 1) THEN "success though the input ended early" ELSE ""
            ELSE LET a == used(y, "DryCheck") IN
                 IF a # "" THEN a
                 ELSE IF hasDec /\ used(d, "Decode") # "" THEN used(d, "Decode")
                 ELSE IF hasDec /\ \E x \in {e.frag} : x.ok # d.ok \/ (x.ok = 1 /\ HFlat(c.g, x.gv) # HFlat(c.g, d.gv))
                 THEN "the result depends on the reader" ELSE ""
       [] Prop = "C11" ->
            IF ~hasDec \/ e.early = 1 THEN ""
            ELSE IF e.again.ok # d.ok \/ (d.ok = 1 /\ HFlat(c.g, e.again.gv) # HFlat(c.g, d.gv))
            THEN "the result depends on what the destination held" ELSE ""
       [] Prop = "C17" ->
            IF ~hasDec \/ e.early = 1 THEN ""
            ELSE IF e.be.ok # d.ok \/ (d.ok = 1 /\ HFlat(c.g, e.be.gv) # HFlat(c.g, d.gv)) \/ e.bedry.ok # y.ok
            THEN "the result depends on the byte order" ELSE ""
       [] OTHER -> ""

WhyEnc(c, e) ==
  CASE Prop \in {"C01", "C02"} ->
         IF ~Known(c) THEN ""
         ELSE IF Panics(e) THEN "Encode panics"
         ELSE IF e.err = 1 THEN "Encode fails"
         ELSE IF Prop = "C01" THEN ""
         ELSE IF e.n # RLen(e.b) THEN "count is not the number of bytes written"
         ELSE IF e.b # c.ser[2] THEN "not the canonical serialization" ELSE ""
    [] Prop = "C18" ->
         IF ~Known(c) /\ ~Panics(e) /\ e.err = 0 THEN "an offset that does not fit in four bytes is written" ELSE ""
    [] Prop = "C17" -> IF Known(c) /\ (e.be.b # e.b \/ e.be.n # e.n) THEN "the encoding depends on the byte order" ELSE ""
    [] Prop = "C20" -> IF Known(c) /\ (e.again.b # e.b \/ e.again.n # e.n) THEN "another result for the same value" ELSE ""
    [] OTHER -> ""

RPrefix(a, b) == BLeq(RLen(a), RLen(b)) /\ RTake(b, RLen(a)) = a
WhyEncw(c, e) ==
  IF Prop # "C10" \/ ~Known(c) THEN ""
  ELSE IF Panics(e) THEN "Encode panics"
  ELSE IF e.after = 1 THEN "writes after a failure"
  ELSE IF ~RPrefix(e.acc, c.ser[2]) THEN "accepted bytes are no prefix of the encoding"
  ELSE IF e.n # RLen(e.acc) THEN "count is not the number of bytes accepted"
  ELSE IF e.failed = 1 /\ (e.err = 0 \/ e.same = 0) THEN "the writer's error is not returned"
  ELSE IF e.failed = 0 /\ e.err = 1 THEN "an error though the writer never failed"
  ELSE IF e.failed = 0 /\ e.acc # c.ser[2] THEN "not the whole encoding" ELSE ""

WhySize(c, e) ==
  IF Prop # "C05" \/ ~Known(c) THEN ""
  ELSE IF Panics(e) THEN "SizeOf panics"
  ELSE IF e.n # RLen(c.ser[2]) THEN "SizeOf is not the encoded size"
  ELSE IF BLess(e.n, e.min) \/ (BFits(c.s.max, 8) /\ BLess(e.max, e.n)) THEN "SizeOf outside MinLen..MaxLen" ELSE ""

\* the same about a value and its flattening
WhyNorm(c, e) ==
  LET a == e.a
      b == e.b
      ng == c.ng
      ok(x) == ~Panics(x)
      both(x, y) == Panics(x) = Panics(y)
  IN IF Prop # "C14" THEN ""
     ELSE IF e.refused = 1 THEN "the flattening is refused"
     ELSE IF HFlat(ng, e.ngv) # c.v THEN "harness: not the flattening"
     ELSE IF ~both(a.enc, b.enc) \/ (ok(a.enc) /\ (a.enc.err # b.enc.err \/ a.enc.n # b.enc.n \/ a.enc.b # b.enc.b)) THEN "encodes differently"
     ELSE IF ~both(a.size, b.size) \/ (ok(a.size) /\ a.size.n # b.size.n) THEN "another size"
     ELSE IF ~both(a.htr, b.htr) \/ (ok(a.htr) /\ a.htr.root # b.htr.root) THEN "another root"
     ELSE IF Has(a, "sr") /\ (~both(a.sr, b.sr) \/ (ok(a.sr) /\ a.sr.root # b.sr.root)) THEN "another signing root"
     ELSE IF \E i \in 1..Len(a.in) : LET x == a.in[i]  y == b.in[i] IN
               \/ x.b # y.b
               \/ ~both(x.dec, y.dec) \/ x.dec.ok # y.dec.ok \/ x.dry.ok # y.dry.ok
               \/ (x.dec.ok = 1 /\ (~HShaped(c.g, x.dec.gv) \/ HFlat(c.g, x.dec.gv) # HFlat(ng, y.dec.gv)))
          THEN "decodes differently" ELSE ""

\* a value out of arbitrary bytes
WhyFuzz(c, e) ==
  LET f == e.f
      n == RLen(e.b)
      v == HFlat(c.g, f.gv)
      r == HSer(c.s, v)
  IN IF Panics(f) \/ Panics(e.again) THEN "DecodeFuzzBytes panics"
     ELSE IF BLess(n, e.min) THEN IF f.ok = 1 \/ e.again.ok = 1 THEN "input shorter than the minimum accepted" ELSE ""
     ELSE IF f.ok = 0 \/ e.again.ok = 0 THEN "long enough input refused"
     ELSE IF ~HShaped(c.g, f.gv) \/ ~r[1] \/ HParse(c.s, r[2]) # Yes(v) THEN "not a valid value"
     ELSE IF f.n # f.used THEN "count is not the number of bytes taken"
     ELSE IF BLess(f.n, e.min) THEN "count below the minimum fuzz length"
     ELSE IF BLess(n, f.n) THEN "count exceeds the input"
     ELSE IF BFits(FuzzUp(c.s), 8) /\ BLess(e.max, f.n) THEN "count above the maximum fuzz length"
     ELSE IF e.again.n # f.n \/ ~HShaped(c.g, e.again.gv) \/ HFlat(c.g, e.again.gv) # v THEN "equal inputs, different results"
     ELSE IF Panics(e.enc) \/ e.enc.err = 1 THEN "the value does not encode"
     ELSE IF Panics(e.dec) \/ e.dec.ok = 0 THEN "the encoded value does not decode"
     ELSE IF ~Got(c, e.dec, v) THEN "the value does not decode back"
     ELSE IF Panics(e.htr) THEN "the value does not hash" ELSE ""

Why(c, e) ==
  CASE e.k = "enc" -> WhyEnc(c, e)
    [] e.k = "in" -> WhyIn(c, e)
    [] e.k = "encw" -> WhyEncw(c, e)
    [] e.k = "size" -> WhySize(c, e)
    [] e.k \in {"htr", "sr"} -> IF Prop \in {"C06", "C07", "C19"} /\ Panics(e) THEN "panics" ELSE ""
    [] e.k = "norm" -> WhyNorm(c, e)
    [] e.k = "fuzz" -> WhyFuzz(c, e)
    [] e.k = "obs" -> IF Prop = "C20" /\ HFlat(c.g, e.gv) # c.v THEN "the value changed" ELSE ""

\* the trees whose roots are to be compared
Trees(c, e) ==
  CASE e.k = "htr" /\ Prop \in {"C06", "C19"} -> <<HHTR(c.s, c.v)>>
    [] e.k = "sr" /\ Prop \in {"C07", "C19"} ->
         LET n == BMax2(Len(c.v) - 1, 0) IN <<RunTree(TLCEval([i \in 1..n |-> <<(<<1>>), HHTR(c.s.fs[i], c.v[i])>>]), Depth(n))>>
    [] OTHER -> <<>>

(***************************************************************************)
(* Series of many equal elements: k.n elements k.el. Their encoding and     *)
(* their tree are known position by position.                               *)
(***************************************************************************)
WideByte(s, E, n, p) ==
  LET l == Len(E) IN
  IF s.e.fx THEN E[((p - 1) % l) + 1]
  ELSE IF p <= 4 * n THEN OffBytes(4 * n + ((p - 1) \div 4) * l)[((p - 1) % 4) + 1]
  ELSE E[((p - 1 - 4 * n) % l) + 1]
WideLen(s, E, n) == n * (Len(E) + IF s.e.fx THEN 0 ELSE 4)
WideOK(s, E, n, b) == Len(b) = WideLen(s, E, n) /\ \A p \in 1..Len(b) : b[p] = WideByte(s, E, n, p)

WideTree(s, el, n) ==
  LET E == Ser(s.e, el)
      per == 32 \div Len(E)
      chunk(m) == Leaf(FlattenSeq([i \in 1..m |-> E]))
      runs == IF s.e.k = "basic"
              THEN (IF n >= per THEN <<<<BOf(n \div per), chunk(per)>>>> ELSE <<>>)
                   \o (IF n % per # 0 THEN <<<<(<<1>>), chunk(n % per)>>>> ELSE <<>>)
              ELSE <<<<BOf(n), HTR(s.e, el)>>>>
      depth == IF s.k = "vec" THEN IF s.e.k = "basic" THEN Depth((n + per - 1) \div per) ELSE Depth(n)
               ELSE IF s.e.k = "basic" THEN PackedDepth(s.lim, s.e.n) ELSE BCeilLog2(s.lim)
  IN IF s.k = "vec" THEN RunTree(runs, depth) ELSE HMixIn(RunTree(runs, depth), BOf(n))

\* what was decoded: x.n elements, all equal to x.el
WideGot(s, g, x, el, n) == x.n = n /\ x.same = 1 /\ Shaped(g, x.el) /\ Flat(g, x.el) = el
WhyWide(k, e) ==
  LET s == Sp[k.t]
      g == Types[k.t].g.e
      el == Flat(g, k.el)
      E == Ser(s.e, el)
  IN CASE e.k = "enc" /\ Prop \in {"C01", "C02"} ->
            IF Panics(e) THEN "Encode panics" ELSE IF e.err = 1 THEN "Encode fails"
            ELSE IF Prop = "C02" /\ e.n # Len(e.b) THEN "count is not the number of bytes written"
            ELSE IF Prop = "C02" /\ ~WideOK(s, E, k.n, e.b) THEN "not the canonical serialization" ELSE ""
       [] e.k = "size" /\ Prop = "C05" ->
            IF Panics(e) THEN "SizeOf panics" ELSE IF e.n # WideLen(s, E, k.n) THEN "SizeOf is not the encoded size" ELSE ""
       [] e.k = "in" /\ Prop \in {"C01", "C03"} ->
            IF Panics(e.dec) THEN "Decode panics"
            ELSE IF e.dec.ok = 0 THEN "canonical encoding refused"
            ELSE IF ~WideGot(s, g, e.dec, el, k.n) THEN "wrong value decoded" ELSE ""
       [] e.k = "in" /\ Prop = "C04" -> IF e.dec.ok # e.dry.ok THEN "Decode and DryCheck differ" ELSE ""
       \* without its last byte
       [] e.k = "cut" /\ Prop = "C03" ->
            IF Panics(e.dec) THEN "Decode panics"
            ELSE IF s.e.fx /\ Len(E) > 1 /\ e.dec.ok = 1 THEN "not a canonical encoding, but accepted" ELSE ""
       [] e.k = "cut" /\ Prop = "C04" -> IF e.dec.ok # e.dry.ok THEN "Decode and DryCheck differ" ELSE ""
       [] e.k = "htr" /\ Prop \in {"C06", "C19"} -> IF Panics(e) THEN "panics" ELSE ""
       [] OTHER -> ""
WideTrees(k, e) ==
  IF e.k = "htr" /\ Prop \in {"C06", "C19"} THEN <<WideTree(Sp[k.t], Flat(Types[k.t].g.e, k.el), k.n)>> ELSE <<>>

NeedsSer == Prop \in {"C01", "C02", "C05", "C10", "C17", "C18", "C20"}
Case(k) ==
  LET s == Sp[k.t]
      v == HFlat(Types[k.t].g, k.gv)
  IN TLCEval([g |-> Types[k.t].g, ng |-> Types[k.nt].g, s |-> s, v |-> v, ser |-> IF NeedsSer THEN HSer(s, v) ELSE NoRope])

Init == line \in 1..Len(Trace) /\ bad = "?"
Next ==
  /\ bad = "?"
  /\ LET k == Trace[line]
         wide == Has(k, "el")
         c == IF wide THEN <<>> ELSE Case(k)
         ws == TLCEval([i \in 1..Len(k.ev) |-> IF wide THEN WhyWide(k, k.ev[i]) ELSE Why(c, k.ev[i])])
         bs == SelectSeq([i \in 1..Len(ws) |-> i], LAMBDA i : ws[i] # "")
     IN /\ bad' = IF bs = <<>> THEN "" ELSE ws[bs[1]]
        /\ IF bs = <<>> THEN TRUE ELSE PrintT("REJECT " \o ToJson([line |-> line, pos |-> bs[1], why |-> ws[bs[1]]]))
        /\ \A i \in 1..Len(k.ev) :
             LET ts == IF wide THEN WideTrees(k, k.ev[i]) ELSE Trees(c, k.ev[i])
             IN IF ts = <<>> THEN TRUE ELSE PrintT("TREE " \o ToJson([line |-> line, pos |-> i, h |-> k.ev[i].h, root |-> k.ev[i].root, tree |-> ts[1]]))
  /\ line' = line
=============================================================================
