------------------------------- MODULE MCTree -------------------------------
(* Every reachable tree over the keys 1..NK (Mode "keys"), or every reachable
   shape with at most NK keys: the keys are numbered 1..n after each step
   (Mode "shape").                                                          *)
EXTENDS BTree, Json
CONSTANTS NK, Mode, Log
VARIABLES t, act

RECURSIVE Map(_, _)
Map(nd, f) == [k |-> [i \in DOMAIN nd.k |-> f[nd.k[i]]],
               d |-> [i \in DOMAIN nd.d |-> Map(nd.d[i], f)]]
Count(x) == Len(InOrder(x))
(* renumber: the keys in order become 1..n; up: the odd key is in between *)
Norm(x) == LET s == InOrder(x) IN
  Map(x, [v \in ToSet(s) |-> CHOOSE i \in DOMAIN s : s[i] = v])
Up(x) == Map(x, [v \in 1 .. Count(x) |-> 2 * v])

(* a step that only changes the number of keys of one node, or more than that *)
RECURSIVE Sizes(_)
Sizes(nd) == <<Len(nd.k)>> \o FlattenSeq([i \in DOMAIN nd.d |-> Sizes(nd.d[i])])
Kind(x, y) ==
  LET a == Sizes(x)  b == Sizes(y) IN
  IF Len(a) # Len(b) THEN "nodes"
  ELSE IF Cardinality({i \in DOMAIN a : a[i] # b[i]}) > 1 THEN "moved" ELSE "plain"

Init == t = EmptyTree /\ act = <<"init", 0>>
KeyStep ==
  \E key \in 1 .. NK :
    \/ t' = Insert(t, key) /\ act' = <<"put", key>>
    \/ t' = Delete(t, key) /\ act' = <<"del", key>>
ShapeStep ==
  \/ /\ Count(t) < NK
     /\ \E p \in 0 .. Count(t) : t' = Norm(Insert(Up(t), 2 * p + 1)) /\ act' = <<"put", p>>
  \/ \E r \in 1 .. Count(t) : t' = Norm(Delete(t, r)) /\ act' = <<"del", r>>
Next == IF Mode = "keys" THEN KeyStep ELSE ShapeStep
Spec == Init /\ [][Next]_<<t, act>>
View == t

Logged == Log => PrintT(ToJson([s |-> t, a |-> Append(act', Kind(t, t')), t |-> t']))

TreeInv ==
  /\ WellFormed(t)
  /\ Sorted(InOrder(t))
  /\ Iteration(t) = InOrder(t) /\ StaysEnded(t)
  /\ \A key \in 1 .. NK : Find(t, key) <=> key \in ToSet(InOrder(t))
(* an operation changes exactly the one key *)
Content(x) == ToSet(InOrder(x))
Effect == [][Mode = "keys" =>
    Content(t') = IF act'[1] = "put" THEN Content(t) \cup {act'[2]} ELSE Content(t) \ {act'[2]}]_<<t, act>>
EffectCount == [][Mode = "shape" =>
    Count(t') = Count(t) + (IF act'[1] = "put" THEN 1 ELSE -1)]_<<t, act>>
=============================================================================
