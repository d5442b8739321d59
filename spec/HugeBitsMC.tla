------------------------------ MODULE HugeBitsMC ------------------------------
(* HugeBits.tla agrees with Bitfield.tla: every operation on every byte slice of the universe. *)
EXTENDS Bitfield, HugeBits
VARIABLE steps
Alphabet == {0, 1, 2, 3, 64, 127, 128, 129, 255}
Init == b = <<>> /\ steps = 0
Next == Len(b) < 3 /\ \E x \in Alphabet : b' = Append(b, x) /\ steps' = steps + 1
Agrees ==
  LET r == ROf(b)
      n == 8 * Len(b)
      same(e) == HAnswer(r, e) = BOf(Answer(e))
  IN /\ \A i \in 0..(n - 1) :
          /\ HBit(r, BOf(i)) = GetAns(i)
          /\ \A val \in {0, 1} : HSet(r, BOf(i), val) = ROf(SetAns(i, val))
     /\ same([k |-> "len"]) /\ same([k |-> "zero"])
     /\ \A m \in 0..(n + 9) : same([k |-> "lc", n |-> BOf(m)]) /\ same([k |-> "vc", n |-> BOf(m)])
=============================================================================
