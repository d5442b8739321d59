--------------------------- MODULE HugeMerkleTrace ---------------------------
(***************************************************************************)
(* Recorded calls of Merkleize and ConstructProof on up to millions of      *)
(* leaves, given as runs of equal ones. Each line of the trace is one case: *)
(* runs <<count, leaf>>, lim, the root, and branches for some indices. The  *)
(* trees printed are evaluated by the harness and compared with the roots.  *)
(***************************************************************************)
EXTENDS Huge, Json, IOUtils
VARIABLES line, bad

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Prop == IOEnv.PROP

IdxBits(i, d) == [j \in 1..d |-> LET g == BDigit(i, (j - 1) \div 8 + 1) IN (g \div 2^((j - 1) % 8)) % 2]

WhyBranch(q, d) == IF q.panic = 1 THEN "ConstructProof panics"
                   ELSE IF Len(q.b) # d THEN "not one sibling per level" ELSE ""

Runs(e) == TLCEval([i \in 1..Len(e.runs) |-> <<e.runs[i][1], Leaf(e.runs[i][2])>>])

\* what is to be compared: <<branch (0: the root), tree, root>>. A branch that leads from the leaf to
\* the root of the tree is the branch of the tree.
Compare(e) ==
  LET ls == Runs(e)
      d == BCeilLog2(e.lim)
      lead(q) == FoldBranch(HLeafAt(ls, q.idx), TLCEval([j \in 1..d |-> Leaf(q.b[j])]), TLCEval(IdxBits(q.idx, d)), 1)
  IN (IF Prop = "C08" THEN <<>> ELSE <<<<0, RunTree(ls, d), e.root>>>>)
     \o FlattenSeq([i \in 1..Len(e.br) |-> <<<<i, lead(e.br[i]), e.root>>>>])

Init == line \in 1..Len(Trace) /\ bad = "?"
Next ==
  /\ bad = "?"
  /\ LET e == Trace[line]
         d == BCeilLog2(e.lim)
         ws == TLCEval([i \in 1..Len(e.br) |-> WhyBranch(e.br[i], d)])
         bs == SelectSeq([i \in 1..Len(ws) |-> i], LAMBDA i : ws[i] # "")
         why == IF e.panic = 1 THEN "Merkleize panics" ELSE IF bs # <<>> THEN ws[bs[1]] ELSE ""
         cs == IF why = "" THEN TLCEval(Compare(e)) ELSE <<>>
     IN /\ bad' = why
        /\ IF why = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson([line |-> line, why |-> why, br |-> IF bs = <<>> THEN 0 ELSE bs[1]]))
        /\ \A i \in 1..Len(cs) : PrintT("TREE " \o ToJson([line |-> line, br |-> cs[i][1], h |-> e.hash, tree |-> cs[i][2], root |-> cs[i][3]]))
  /\ line' = line
=============================================================================
