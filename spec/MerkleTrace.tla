---------------------------- MODULE MerkleTrace ----------------------------
(***************************************************************************)
(* Recorded calls of Merkleize and ConstructProof for the same leaves and   *)
(* limit. Trees are recovered from the hash calls. Each line of the trace   *)
(* is one case: cnt, lim, leaves, the root, and branches for some indices.  *)
(***************************************************************************)
EXTENDS SSZ, Json, IOUtils
VARIABLES line, bad

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Prop == IOEnv.PROP

IdxBits(x, d) == [j \in 1..d |-> LET g == BDigit(x, (j - 1) \div 8 + 1) IN (g \div 2^((j - 1) % 8)) % 2]

WhyBranch(e, q, leaves, d) ==
  LET ib == IdxBits(q.idx, d) IN
  IF q.panic = 1 THEN "ConstructProof panics"
  ELSE IF Len(q.b) # d THEN "not one sibling per level"
  ELSE IF FoldBranch(LeafAt(leaves, ib), q.b, ib, 1) # e.tree THEN "fold" ELSE ""

Why(e) ==
  LET leaves == TLCEval([i \in 1..Len(e.leaves) |-> Leaf(e.leaves[i])])
      d == BCeilLog2(e.lim)
      ws == TLCEval([i \in 1..Len(e.br) |-> WhyBranch(e, e.br[i], leaves, d)])
      bs == SelectSeq([i \in 1..Len(ws) |-> i], LAMBDA i : ws[i] # "")
  IN IF e.panic = 1 THEN <<"Merkleize panics", 0>>
     ELSE IF Prop = "C19" /\ e.tree # Tree(leaves, d) THEN <<"tree", 0>>
     ELSE IF bs # <<>> THEN <<ws[bs[1]], bs[1]>> ELSE <<"", 0>>

Init == line \in 1..Len(Trace) /\ bad = "?"
Next ==
  /\ bad = "?"
  /\ LET w == Why(Trace[line]) IN
     /\ bad' = w[1]
     /\ IF w[1] = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([line |-> line, why |-> w[1], br |-> w[2],
           tree |-> IF w[1] = "tree" THEN Tree(TLCEval([i \in 1..Len(Trace[line].leaves) |-> Leaf(Trace[line].leaves[i])]), BCeilLog2(Trace[line].lim)) ELSE <<>>]))
  /\ line' = line
=============================================================================
