------------------------------ MODULE Schedules ------------------------------
(***************************************************************************)
(* Calls on one type definition that run at the same time, reduced to what  *)
(* matters for interference: a call goes through its input piece by piece,  *)
(* puts each piece in scratch memory, is at a gate there (a call of the     *)
(* reader, writer or hash function: user code, where other calls may run),  *)
(* and then takes the piece from the scratch memory into its result.        *)
(*                                                                          *)
(* With scratch memory of its own every call yields under every             *)
(* interleaving what it yields alone (Isolated). With SHARED it does not:   *)
(* that configuration must fail, and shows that the schedules emitted here  *)
(* tell the difference. Every complete behaviour is emitted as a schedule   *)
(* for the real code.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Shared == "SHARED" \in DOMAIN IOEnv
Deep == "DEEP" \in DOMAIN IOEnv

VARIABLES len, scratch, at, out, sched, shown
vars == <<len, scratch, at, out, sched, shown>>

Lens == IF Deep THEN [1..2 -> 1..5] \cup {f \in [1..3 -> 1..3] : f[1] + f[2] + f[3] <= 7} \cup {[p \in 1..4 |-> 1]}
        ELSE [1..2 -> 1..4] \cup {f \in [1..3 -> 1..2] : TRUE}
Procs == DOMAIN len
Mem(p) == IF Shared THEN 1 ELSE p
Piece(p, i) == <<p, i>>
Alone(p) == [i \in 1..len[p] |-> Piece(p, i)]

\* at[p] = i: at the gate of piece i; 0: not begun; len[p] + 1: done
Init ==
  /\ len \in Lens
  /\ scratch = [p \in DOMAIN len |-> <<>>]
  /\ at = [p \in DOMAIN len |-> 0]
  /\ out = [p \in DOMAIN len |-> <<>>]
  /\ sched = <<>>
  /\ shown = FALSE

Done(p) == at[p] = len[p] + 1

\* from one gate to the next
Step(p) ==
  /\ ~Done(p)
  /\ out' = IF at[p] = 0 THEN out ELSE [out EXCEPT ![p] = Append(@, scratch[Mem(p)])]
  /\ scratch' = IF at[p] < len[p] THEN [scratch EXCEPT ![Mem(p)] = Piece(p, at[p] + 1)] ELSE scratch
  /\ at' = [at EXCEPT ![p] = @ + 1]
  /\ sched' = Append(sched, p)
  /\ UNCHANGED <<len, shown>>

AllDone == \A p \in Procs : Done(p)
Show ==
  /\ AllDone /\ ~shown /\ shown' = TRUE
  /\ ("EMIT" \in DOMAIN IOEnv => PrintT("EMIT " \o ToJson([len |-> [p \in 1..Len(len) |-> len[p]], s |-> sched])))
  /\ UNCHANGED <<len, scratch, at, out, sched>>

Next == Show \/ \E p \in Procs : Step(p)

Isolated == \A p \in Procs : Done(p) => out[p] = Alone(p)
Prefixes == \A p \in Procs : out[p] = SubSeq(Alone(p), 1, Len(out[p]))
=============================================================================
