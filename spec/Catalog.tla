------------------------------- MODULE Catalog -------------------------------
(***************************************************************************)
(* The Go types of a run, generated by tools/gencat.py both as Go source    *)
(* and as G-types (see SSZ): a tuple of records with the G-type in g.       *)
(***************************************************************************)
EXTENDS Json, IOUtils, Pretty
Types == TLCEval(ndJsonDeserialize(IOEnv.CATALOG))
G(t) == Types[t].g
Sp == LET C == Types IN TLCEval([t \in 1..Len(C) |-> Elab(C[t].g)])
=============================================================================
