----------------------------- MODULE Merkleizer -----------------------------
(***************************************************************************)
(* The streaming merkleizer as a machine: leaves are pushed one by one on a *)
(* stack of complete subtrees, equal ones are merged, and what is left is   *)
(* padded with zero subtrees up to the depth of the limit.                  *)
(*   cnt leaves, limit lim (digits); stk: <<depth, tree>> from the left     *)
(* TLC checks that every run ends in the tree that SSZ prescribes, that the *)
(* branches of that tree fold back to it, and emits each run's results for  *)
(* replay into merkle.Merkleize and merkle.ConstructProof.                  *)
(***************************************************************************)
EXTENDS SSZ, Json, IOUtils

CONSTANTS MaxCount, Limits, Patterns

VARIABLES cnt, lim, pat, pushed, stk, phase
vars == <<cnt, lim, pat, pushed, stk, phase>>

D == BCeilLog2(lim)
\* leaf i (from 0) of the run; pattern 1: all different, 2: all equal, 3: some zero, 4: all zero
LeafOf(i) == CASE pat = 1 -> <<0, <<i + 1>>>>
               [] pat = 2 -> <<0, <<7>>>>
               [] pat = 3 -> IF i % 2 = 0 THEN Z(0) ELSE <<0, <<i + 1>>>>
               [] pat = 4 -> Z(0)
Leaves(n) == [i \in 1..n |-> LeafOf(i - 1)]

Init ==
  /\ lim \in Limits
  /\ cnt \in {c \in 0..MaxCount : BLeq(BOf(c), lim)}
  /\ pat \in Patterns
  /\ pushed = 0
  /\ stk = <<>>
  /\ phase = "run"

Top == stk[Len(stk)]
Below == stk[Len(stk) - 1]
CanMerge == Len(stk) >= 2 /\ Top[1] = Below[1]

Push ==
  /\ phase = "run" /\ ~CanMerge /\ pushed < cnt
  /\ stk' = Append(stk, <<0, LeafOf(pushed)>>)
  /\ pushed' = pushed + 1
  /\ UNCHANGED <<cnt, lim, pat, phase>>
Merge ==
  /\ phase = "run" /\ CanMerge
  /\ stk' = Append(SubSeq(stk, 1, Len(stk) - 2), <<Top[1] + 1, Node(Below[2], Top[2])>>)
  /\ UNCHANGED <<cnt, lim, pat, pushed, phase>>
\* all leaves are in: fill up the right side
Pad ==
  /\ phase = "run" /\ ~CanMerge /\ pushed = cnt
  /\ IF stk = <<>> THEN stk' = <<<<0, Z(0)>>>>
     ELSE /\ Len(stk) > 1 \/ Top[1] < D
          /\ stk' = [stk EXCEPT ![Len(stk)] = <<Top[1] + 1, Node(Top[2], Z(Top[1]))>>]
  /\ UNCHANGED <<cnt, lim, pat, pushed, phase>>

----------------------------------------------------------------------------
\* Branches
IdxBits(x, d) == [j \in 1..d |-> LET g == BDigit(x, (j - 1) \div 8 + 1) IN (g \div 2^((j - 1) % 8)) % 2]
BranchAt(x) == Branch(Leaves(cnt), D, IdxBits(x, D))

\* the indices asked for: all small ones, those around the count, the powers of two, the last
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN <<1>> ELSE BMulD(Pow2(k - 1), 2)
Near(x) == {x, BAdd(x, <<1>>)} \cup (IF x = <<>> THEN {} ELSE {BSub(x, <<1>>)})
Indices == {x \in {BOf(i) : i \in 0..(MaxCount + 3)}
                  \cup UNION {Near(Pow2(k)) : k \in {5, 6, 7, 8, 15, 16, 20, 31, 32, 33, 62, 63}}
                  \cup {BSub(lim, <<1>>)}
            : BLess(x, lim)}

Result ==
  [cnt |-> cnt, lim |-> lim, leaves |-> Leaves(cnt), depth |-> D, tree |-> Top[2],
   br |-> LET xs == SetToSeq(Indices) IN [i \in 1..Len(xs) |-> [idx |-> xs[i], b |-> BranchAt(xs[i])]]]

Finished == phase = "run" /\ pushed = cnt /\ Len(stk) = 1 /\ Top[1] = D
Finish ==
  /\ Finished
  /\ phase' = "done"
  /\ IF "EMIT" \in DOMAIN IOEnv THEN PrintT("EMIT " \o ToJson(Result)) ELSE TRUE
  /\ UNCHANGED <<cnt, lim, pat, pushed, stk>>

Next == Push \/ Merge \/ Pad \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
\* the stack holds complete subtrees of falling depth that cover the leaves pushed
RECURSIVE Covered(_)
Covered(s) == IF s = <<>> THEN 0 ELSE 2^(s[1][1]) + Covered(Tail(s))
StackOK ==
  /\ \A i \in 1..(Len(stk) - 1) : stk[i][1] >= stk[i + 1][1]
  /\ pushed < cnt => Covered(stk) = pushed
  /\ Len(stk) > 0 => Top[1] <= D

RootOK == phase = "done" => stk = <<<<D, Tree(Leaves(cnt), D)>>>>
BranchOK == phase = "done" =>
  \A x \in Indices :
    LET ib == IdxBits(x, D)
        b  == BranchAt(x)
    IN Len(b) = D /\ FoldBranch(LeafAt(Leaves(cnt), ib), b, ib, 1) = Top[2]
\* Every behaviour ends, none gets stuck.
NoDeadEnd == phase = "done" \/ Finished \/ ENABLED (Push \/ Merge \/ Pad)
Terminates == <>(phase = "done")
=============================================================================
