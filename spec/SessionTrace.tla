---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Sessions recorded from the real code, checked against Session: every     *)
(* recorded event must be a step the property allows. The sessions of a     *)
(* run are the initial states, so that TLC's workers share them.            *)
(***************************************************************************)
EXTENDS Session

VARIABLES sess, pos, bad

tvars == <<slot, hash, memo, sess, pos, bad>>

Prop == IOEnv.PROP
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

TraceInit ==
  /\ SessionInit
  /\ sess \in 1..Len(Trace)
  /\ pos = 0
  /\ bad = ""

Expected(e) ==
  CASE e.k = "htr" -> HTR(Sp[T(e)], Flat(G(T(e)), GvOf(e)))
    [] e.k = "sr" -> SigningRoot(Sp[T(e)], Flat(G(T(e)), GvOf(e)))
    [] OTHER -> <<>>

TraceNext ==
  /\ bad = ""
  /\ pos < Len(Trace[sess].ev)
  /\ LET e == Trace[sess].ev[pos + 1]
         w == IF InDomain(e) THEN Judge(Prop, e) ELSE "harness: value out of domain"
     IN /\ bad' = w
        /\ IF w = "" THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([sess |-> sess, pos |-> pos + 1, why |-> w, h |-> hash,
                                            tree |-> IF w = "tree" THEN Expected(e) ELSE <<>>]))
        /\ After(Prop, e)
  /\ pos' = pos + 1
  /\ sess' = sess

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
