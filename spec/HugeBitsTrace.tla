----------------------------- MODULE HugeBitsTrace -----------------------------
(* Recorded histories of operations on bitfields of up to 2^33 bits against HugeBits. *)
EXTENDS HugeBits, Json, IOUtils
VARIABLES sess, pos, bad, field
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Init == sess \in 1..Len(Trace) /\ pos = 0 /\ bad = "" /\ field = Trace[sess].b
Why(e) == IF e.panic = 1 THEN "panics"
          ELSE IF e.k # "set" /\ e.r # HAnswer(field, e) THEN "wrong answer"
          ELSE IF e.after # field' THEN "the bytes are wrong afterwards" ELSE ""
Next ==
  /\ bad = "" /\ pos < Len(Trace[sess].ev)
  /\ LET e == Trace[sess].ev[pos + 1] IN
     /\ field' = HAfter(field, e)
     /\ bad' = Why(e)
     /\ (bad' # "" => PrintT("REJECT " \o ToJson([sess |-> sess, pos |-> pos + 1, why |-> bad', expected |-> HAnswer(field, e)])))
  /\ pos' = pos + 1 /\ sess' = sess
=============================================================================
