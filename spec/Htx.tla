-------------------------------- MODULE Htx --------------------------------
(***************************************************************************)
(* The hash index beside the tree: a slot remembers the record of the key   *)
(* that was last inserted into the slot; a get or put first looks at the    *)
(* record of its slot, then searches the tree.  Records of deleted keys     *)
(* are reused (last in, first out per size), a free record reads as the     *)
(* empty key.                                                               *)
(*                                                                          *)
(* Key 1 is the empty key.  SlotOf: key -> slot, ClassOf: key -> size class *)
(* of its record.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS NK, NV, SlotOf, ClassOf, MaxRecs, Bug, Log

Keys == 1 .. NK
Slots == {SlotOf[k] : k \in Keys}
Classes == {ClassOf[k] : k \in Keys}

VARIABLES
  dict,  \* what the map has to be: key -> value, 0: none
  rec,   \* key records: [key (0: free), val, c]
  free,  \* class -> free records, the first one first
  slot,  \* slot -> record, 0: none
  tree,  \* the tree: key -> record, 0: not in it
  act
vars == <<dict, rec, free, slot, tree, act>>
View == <<dict, rec, free, slot, tree>>

Init ==
  /\ dict = [k \in Keys |-> 0]
  /\ rec = <<>> /\ free = [c \in Classes |-> <<>>]
  /\ slot = [s \in Slots |-> 0] /\ tree = [k \in Keys |-> 0]
  /\ act = <<"init", 0, 0>>

(* the key that is read in a record *)
KeyIn(r) == IF rec[r].key = 0 THEN 1 ELSE rec[r].key
Hit(k) == LET r == slot[SlotOf[k]] IN r # 0 /\ KeyIn(r) = k

Get(k) ==
  LET r == slot[SlotOf[k]] IN
  IF Hit(k) THEN rec[r].val
  ELSE IF Bug = "trust" /\ r # 0 THEN 0
  ELSE IF tree[k] = 0 THEN 0
  ELSE rec[tree[k]].val

Put(k, v) ==
  /\ act' = <<"put", k, v>>
  /\ dict' = [dict EXCEPT ![k] = v]
  /\ IF Hit(k)
     THEN /\ rec' = [rec EXCEPT ![slot[SlotOf[k]]].val = v]
          /\ UNCHANGED <<free, slot, tree>>
     ELSE IF tree[k] # 0
     THEN /\ rec' = [rec EXCEPT ![tree[k]].val = v]
          /\ UNCHANGED <<free, slot, tree>>
     ELSE LET c == ClassOf[k]
              l == free[c]
              r == IF l = <<>> THEN Len(rec) + 1 ELSE Head(l)
              e == [key |-> k, val |-> v, c |-> c]
          IN  /\ rec' = IF l = <<>> THEN Append(rec, e) ELSE [rec EXCEPT ![r] = e]
              /\ free' = IF l = <<>> THEN free ELSE [free EXCEPT ![c] = Tail(l)]
              /\ tree' = [tree EXCEPT ![k] = r]
              /\ slot' = [slot EXCEPT ![SlotOf[k]] = r]

Del(k) ==
  /\ act' = <<"del", k, 0>>
  /\ dict' = [dict EXCEPT ![k] = 0]
  /\ IF tree[k] = 0 THEN UNCHANGED <<rec, free, slot, tree>>
     ELSE LET r == tree[k] IN
          /\ rec' = [rec EXCEPT ![r] = [key |-> 0, val |-> 0, c |-> @.c]]
          /\ free' = [free EXCEPT ![rec[r].c] = <<r>> \o @]
          /\ tree' = [tree EXCEPT ![k] = 0]
          /\ slot' = IF Bug = "keep" THEN slot
                     ELSE IF Bug = "keepempty" /\ k = 1 THEN slot
                     ELSE [slot EXCEPT ![SlotOf[k]] = 0]

Next ==
  \/ \E k \in Keys, v \in 1 .. NV : Put(k, v)
  \/ \E k \in Keys : Del(k)
Spec == Init /\ [][Next]_vars
Logged == Log => PrintT(ToJson([s |-> View, a |-> act', t |-> View']))

-----------------------------------------------------------------------------
(* a get never sees the hash index *)
Transparent == \A k \in Keys : Get(k) = dict[k]
(* the tree is the map *)
TreeIsDict == \A k \in Keys : IF tree[k] = 0 THEN dict[k] = 0
                              ELSE rec[tree[k]].key = k /\ rec[tree[k]].val = dict[k]
(* a slot refers to a live record of a key of the slot *)
SlotsLive == \A s \in Slots : slot[s] # 0 =>
               /\ rec[slot[s]].key # 0
               /\ SlotOf[rec[slot[s]].key] = s
=============================================================================
