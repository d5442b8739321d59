---------------------------- MODULE ContextTrace ----------------------------
(* Recorded histories of context operations against Context. *)
EXTENDS Context, Json, IOUtils
VARIABLES sess, pos, bad
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Init == /\ sess \in 1..Len(Trace) /\ pos = 0 /\ bad = ""
        /\ dlen = Trace[sess].dlen /\ wfail = Trace[sess].wfail /\ mode = Trace[sess].mode
        /\ dead = FALSE /\ ReaderInit /\ WriterInit
Why(e) ==
  LET o == Outcome(e.op) IN
  IF e.ok = 2 /\ o.ok # 2 THEN "panics"
  ELSE IF e.ok # o.ok THEN CASE o.ok = 0 -> "succeeds where it must fail" [] o.ok = 2 -> "an offset that does not fit is accepted" [] OTHER -> "fails"
  ELSE IF e.ok = 1 /\ (e.r # o.r \/ e.per # 1) THEN "returns something else"
  ELSE IF IsRead(e.op) /\ ~dead' /\ (e.seen.taken # Seen'.taken) THEN "takes another number of bytes from the input"
  ELSE IF ~dead' /\ IsRead(e.op) /\ (e.seen.i # Seen'.i \/ e.seen.max # Seen'.max \/ e.seen.span # Seen'.span) THEN "index or span wrong"
  ELSE IF e.op.k \in {"scope", "close"} /\ (e.seen.i # Seen'.i \/ e.seen.max # Seen'.max \/ e.seen.span # Seen'.span \/ e.seen.taken # Seen'.taken) THEN "scope not accounted"
  ELSE IF IsWrite(e.op) /\ (e.seen.n # Seen'.n \/ e.acc # SubSeq(out', Len(out) + 1, Len(out'))) THEN "what was written or counted is wrong" ELSE ""
Next ==
  /\ bad = "" /\ ~dead /\ pos < Len(Trace[sess].ev)
  /\ LET e == Trace[sess].ev[pos + 1] IN
     /\ Do(e.op)
     /\ bad' = Why(e)
     /\ (bad' # "" => PrintT("REJECT " \o ToJson([sess |-> sess, pos |-> pos + 1, why |-> bad', expected |-> [o |-> Outcome(e.op), seen |-> Seen']])))
  /\ pos' = pos + 1 /\ sess' = sess
=============================================================================
