----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* The API with several processes. On top of the events of Session, which   *)
(* are calls that run alone, a process p begins a call (k = "beg"), passes  *)
(* gates (k = "gate": its reader, writer or hash function is called, and    *)
(* other processes may run), and ends it (k = "end", with the results).     *)
(*                                                                          *)
(* The answer at the end is the one the same question had when it was       *)
(* asked alone; and what other slots hold is untouched.                     *)
(***************************************************************************)
EXTENDS Session

VARIABLES act

CProcs == 1..8
Idle == [k |-> "idle"]
ConcurrentInit == SessionInit /\ act = [p \in CProcs |-> Idle]

Open == <<>>  \* asked alone twice, with different answers (or crashing): nothing to compare with

CAfter(e) ==
  CASE e.k = "beg"  -> /\ act' = [act EXCEPT ![e.p] = e.call]
                       /\ UNCHANGED <<slot, hash, memo>>
    [] e.k = "gate" -> UNCHANGED <<act, slot, hash, memo>>
    [] e.k = "end"  -> /\ act' = [act EXCEPT ![e.p] = Idle]
                       /\ slot' = IF e.res.k = "dec" /\ ~Crashed(e.res) THEN [slot EXCEPT ![e.res.s].gv = e.res.gv] ELSE slot
                       /\ UNCHANGED <<hash, memo>>
    [] OTHER -> /\ UNCHANGED <<act, hash>>
                /\ slot' = CASE e.k \in {"new", "val"} -> [slot EXCEPT ![e.s] = [t |-> e.t, gv |-> e.gv]]
                             [] e.k = "dec" /\ ~Crashed(e) -> [slot EXCEPT ![e.s].gv = e.gv]
                             [] OTHER -> slot
                /\ memo' = LET k == Key(e) IN
                           IF ~Remembers(e) THEN memo
                           ELSE IF k \notin DOMAIN memo THEN memo @@ (k :> Ans(e))
                           ELSE IF memo[k] # Ans(e) THEN [memo EXCEPT ![k] = Open] ELSE memo

\* an event out of order is a defect of the recorder
COrdered(e) ==
  CASE e.k = "beg"  -> act[e.p] = Idle
    [] e.k = "gate" -> act[e.p] # Idle
    [] e.k = "end"  -> act[e.p] # Idle /\ act[e.p].k = e.res.k
    [] OTHER -> \A p \in CProcs : act[p] = Idle

CJudge(e) ==
  CASE e.k = "end" ->
         LET k == Key(e.res) IN
         IF k \in DOMAIN memo /\ memo[k] # Open /\ memo[k] # Ans(e.res) THEN "another result than alone" ELSE ""
    [] e.k = "race" -> "data race"
    [] e.k = "obs" -> IF Unchanged(e) THEN "" ELSE "a value changed"
    [] OTHER -> ""
=============================================================================
