--------------------------- MODULE ConcurrentTrace ---------------------------
(* Recorded sessions with concurrent calls, checked against Concurrent. *)
EXTENDS Concurrent

VARIABLES sess, pos, bad

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TraceInit ==
  /\ ConcurrentInit
  /\ sess \in 1..Len(Trace)
  /\ pos = 0
  /\ bad = ""

TraceNext ==
  /\ bad = ""
  /\ pos < Len(Trace[sess].ev)
  /\ LET e == Trace[sess].ev[pos + 1]
         w == IF ~COrdered(e) THEN "harness: events out of order"
              ELSE IF ~InDomain(e) THEN "harness: value out of domain" ELSE CJudge(e)
     IN /\ bad' = w
        /\ IF w = "" THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([sess |-> sess, pos |-> pos + 1, why |-> w, h |-> 0, tree |-> <<>>]))
        /\ CAfter(e)
  /\ pos' = pos + 1
  /\ sess' = sess
=============================================================================
