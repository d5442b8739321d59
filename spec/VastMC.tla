------------------------------- MODULE VastMC -------------------------------
(* Vast.tla agrees with SSZ.tla on every type of the catalogue. *)
EXTENDS Vast
VARIABLE vtyp
Init == vtyp \in 1..Len(Types)
Next == UNCHANGED vtyp
LengthsAgree == VAgrees(vtyp)
=============================================================================
