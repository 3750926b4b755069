------------------------------- MODULE MCHtx -------------------------------
EXTENDS Htx
(* keys 1..3 share a slot (key 1 is the empty key), keys 4..5 another one *)
Slot5 == <<1, 1, 1, 2, 2>>
Class5 == <<1, 2, 2, 2, 2>>
Slot4 == <<1, 1, 2, 2>>
Class4 == <<1, 2, 2, 2>>
Slot6 == <<1, 1, 1, 1, 2, 2>>
Class6 == <<1, 2, 2, 2, 2, 2>>
=============================================================================
