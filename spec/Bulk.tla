-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Bulk operations: what they mean (SiameseDb: the single operations in     *)
(* slice order) and how they are done (in key order, the sort being stable, *)
(* the results put back in the order of the slice), for every slice up to a *)
(* length over a few keys, on every content.                                *)
(***************************************************************************)
EXTENDS SiameseDb, Json

CONSTANTS NK, NV, MaxPut, MaxLen, Bug, Log   \* Bug: none, reverse, dedup

VARIABLES act
vars == <<dbVars, act>>
View == maps

Id == <<"p", "m", "">>
Init ==
  /\ nk = NK /\ dbs = [d \in {1} |-> "p"] /\ hs = [h \in {1} |-> Id]
  /\ maps = [id \in {Id} |-> NewMap("S", TRUE)]
  /\ act = <<"init">>

Slices(n) == UNION {[1 .. l -> 1 .. NK] : l \in 0 .. n}
Vals(ks) == [DOMAIN ks -> 1 .. NV]
(* only the content matters here *)
Plain(m) == [m EXCEPT !.chg = TRUE, !.osk = TRUE, !.osc = Empty, !.dkk = TRUE, !.dkc = Empty]
Next ==
  \/ \E ks \in Slices(MaxPut) : \E vs \in Vals(ks) :
       /\ maps' = [maps EXCEPT ![Id] = Plain([@ EXCEPT !.mem = BulkPutC(@, ks, vs)])]
       /\ act' = <<"bput", ks, vs>>
  \/ \E ks \in Slices(MaxLen) :
       /\ maps' = [maps EXCEPT ![Id] = Plain([@ EXCEPT !.mem = BulkDelC(@, ks)])]
       /\ act' = <<"bdel", ks>>
  \/ \E ks \in Slices(MaxLen) : UNCHANGED maps /\ act' = <<"bget", ks>>
NextAll == Next /\ UNCHANGED <<nk, dbs, hs>>
Spec == Init /\ [][NextAll]_vars
Logged == Log => PrintT(ToJson([s |-> maps[Id].mem, a |-> act', t |-> maps'[Id].mem]))

-----------------------------------------------------------------------------
(* the way it is done *)
Before(ks, i, j) ==
  IF Bug = "reverse" THEN ks[i] < ks[j] \/ (ks[i] = ks[j] /\ i > j)
  ELSE ks[i] < ks[j] \/ (ks[i] = ks[j] /\ i < j)
Order(ks) ==
  LET s == SetToSortSeq(DOMAIN ks, LAMBDA i, j : Before(ks, i, j)) IN
  IF Bug = "dedup" THEN SelectSeq(s, LAMBDA i : \A j \in DOMAIN ks : ks[j] = ks[i] => i <= j) ELSE s
DonePut(c, ks, vs) == FoldLeft(LAMBDA a, i : PutC(a, ks[i], vs[i]), c, Order(ks))
DoneDel(c, ks) ==
  FoldLeft(LAMBDA a, i : [c |-> DelC(a.c, ks[i]), r |-> [a.r EXCEPT ![i] = a.c[ks[i]]]],
           [c |-> c, r |-> [i \in DOMAIN ks |-> 0]], Order(ks))
DoneGet(c, ks) == FoldLeft(LAMBDA r, i : [r EXCEPT ![i] = c[ks[i]]], [i \in DOMAIN ks |-> 0], Order(ks))

(* in every reachable content *)
SameAsSingle ==
  LET c == maps[Id].mem IN
  /\ \A ks \in Slices(MaxPut) : \A vs \in Vals(ks) : DonePut(c, ks, vs) = BulkPutC(c, ks, vs)
  /\ \A ks \in Slices(MaxLen) :
       /\ DoneDel(c, ks).c = BulkDelC(c, ks) /\ DoneDel(c, ks).r = BulkDelR(c, ks)
       /\ DoneGet(c, ks) = BulkGetR(c, ks)
=============================================================================
