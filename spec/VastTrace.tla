------------------------------ MODULE VastTrace ------------------------------
(***************************************************************************)
(* What the library says about the lengths of types of up to 2^45 bytes     *)
(* (k = "type"), and about the size of a value that is all zeros except     *)
(* for its last list, which has e.n elements of fixed length (k = "size").  *)
(***************************************************************************)
EXTENDS Vast
VARIABLES line, bad

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

RECURSIVE LastList(_)
\* the type of the elements of the last list
LastList(g) ==
  CASE g.k = "slice" -> g.e
    [] g.k \in {"ptr", "array"} -> LastList(g.e)
    [] g.k = "struct" -> LastList(g.fs[Len(g.fs)].t)

WhyVast(e) ==
  LET s == VLens(e.g) IN
  \* nothing is said about types none of whose values has a length below 2^64
  IF s.ok /\ ~BFits(s.min, 8) THEN ""
  ELSE IF e.panic = 1 THEN "panics"
  ELSE IF e.k = "type"
  THEN IF s.ok # (e.ok = 1) THEN IF s.ok THEN "definition refused" ELSE "definition of an unsupported type"
       ELSE IF ~s.ok THEN ""
       ELSE IF (e.fx = 1) # s.fx THEN "IsFixed is wrong"
       ELSE IF BFits(s.min, 8) /\ e.min # s.min THEN "MinLen is wrong"
       ELSE IF BFits(s.max, 8) /\ e.max # s.max THEN "MaxLen is wrong"
       ELSE IF e.g.k \in {"struct", "array"} /\ e.fl # s.fl THEN "FixedLen is wrong" ELSE ""
  ELSE IF e.size # BAdd(s.min, BMul(VLens(LastList(e.g)).fl, e.n)) THEN "SizeOf is not the encoded size" ELSE ""

Init == line \in 1..Len(Trace) /\ bad = "?"
Next ==
  /\ bad = "?"
  /\ bad' = WhyVast(Trace[line])
  /\ IF bad' = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([line |-> line, why |-> bad']))
  /\ line' = line
=============================================================================
