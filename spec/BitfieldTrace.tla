---------------------------- MODULE BitfieldTrace ----------------------------
(* Recorded histories of bitfield operations against Bitfield. *)
EXTENDS Bitfield, Json, IOUtils
VARIABLES sess, pos, bad
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Init == sess \in 1..Len(Trace) /\ pos = 0 /\ bad = "" /\ b = Trace[sess].b
Step(e) == IF e.k = "set" THEN b' = SetAns(e.i, e.v) ELSE b' = b
Why(e) == IF e.panic = 1 THEN "panics"
          ELSE IF e.k # "set" /\ e.r # Answer(e) THEN "wrong answer"
          ELSE IF e.after # b' THEN "the bytes are wrong afterwards" ELSE ""
Next ==
  /\ bad = "" /\ pos < Len(Trace[sess].ev)
  /\ LET e == Trace[sess].ev[pos + 1] IN
     /\ Step(e)
     /\ bad' = Why(e)
     /\ bad' # "" => PrintT("REJECT " \o ToJson([sess |-> sess, pos |-> pos + 1, why |-> bad', expected |-> Answer(e)]))
  /\ pos' = pos + 1 /\ sess' = sess
=============================================================================
