---------------------------- MODULE MerkleizerMC ----------------------------
EXTENDS Merkleizer
Upto == IF "MAXCOUNT" \in DOMAIN IOEnv /\ IOEnv.MAXCOUNT = "big" THEN 36 ELSE 13
Small == {BOf(i) : i \in 0..(Upto + 4)}
Big == UNION {Near(Pow2(k)) : k \in {5, 6, 7, 8, 12, 16, 31, 32, 33, 40, 62, 63}} \cup {<<255, 255, 255, 255, 255, 255, 255, 255>>}
MCLimits == Small \cup Big
MCMax == Upto
MCPatterns == {1, 2, 3, 4}
=============================================================================
