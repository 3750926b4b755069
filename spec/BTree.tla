------------------------------- MODULE BTree -------------------------------
(***************************************************************************)
(* The index tree as the code maintains it: insertion with a split on the   *)
(* way up, deletion with a rotation of one key or a unification of two      *)
(* nodes on the way up, the removal of an empty top node, and the iterator  *)
(* (a stack of nodes with a key and a child position each).                 *)
(*                                                                          *)
(* A node is [k |-> keys in order, d |-> children]; a leaf has no children. *)
(* Bug names a mutation of the algorithm; "none" is the algorithm.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS MaxK,  \* a node which reaches this number of keys is split
          Half,  \* least number of branches of a node other than the top
          Bug

Leaf(nd) == nd.d = <<>>
EmptyTree == [k |-> <<>>, d |-> <<>>]
Branches(nd) == Len(nd.k) + 1

(* number of keys of the node below a key *)
Below(nd, key) == Cardinality({i \in DOMAIN nd.k : nd.k[i] < key})
Has(nd, i, key) == i < Len(nd.k) /\ nd.k[i + 1] = key

Take(s, n) == SubSeq(s, 1, n)
Skip(s, n) == SubSeq(s, n + 1, Len(s))

-----------------------------------------------------------------------------
(* insertion                                                                *)

Split(k, d) ==
  LET h == IF Bug = "split" THEN Half - 1 ELSE Half
      l == [k |-> Take(k, h - 1), d |-> IF d = <<>> THEN <<>> ELSE Take(d, h)]
      r == [k |-> Skip(k, h), d |-> IF d = <<>> THEN <<>> ELSE Skip(d, h)]
  IN  [k |-> <<k[h]>>, d |-> <<l, r>>]

(* [a |-> the node is active: its one key and two children belong into the
   parent, n |-> the node]                                                  *)
RECURSIVE Ins(_, _)
Ins(nd, key) ==
  LET i == Below(nd, key) IN
  IF Has(nd, i, key) THEN [a |-> FALSE, n |-> nd]
  ELSE
    LET sub == IF Leaf(nd) THEN [a |-> TRUE, n |-> [k |-> <<key>>, d |-> <<>>]]
               ELSE Ins(nd.d[i + 1], key)
    IN  IF ~ sub.a THEN [a |-> FALSE, n |-> [nd EXCEPT !.d[i + 1] = sub.n]]
        ELSE LET k2 == Take(nd.k, i) \o sub.n.k \o Skip(nd.k, i)
                 d2 == IF Leaf(nd) THEN <<>>
                       ELSE Take(nd.d, i) \o sub.n.d \o Skip(nd.d, i + 1)
             IN  IF Len(k2) < MaxK + (IF Bug = "over" THEN 1 ELSE 0)
                 THEN [a |-> FALSE, n |-> [k |-> k2, d |-> d2]]
                 ELSE [a |-> TRUE, n |-> Split(k2, d2)]

Insert(t, key) ==
  IF t.k = <<>> THEN [k |-> <<key>>, d |-> <<>>] ELSE Ins(t, key).n

-----------------------------------------------------------------------------
(* deletion                                                                 *)

Under(nd) == Branches(nd) < Half - (IF Bug = "under" THEN 1 ELSE 0)

Join(l, key, r) == [k |-> l.k \o <<key>> \o r.k, d |-> l.d \o r.d]

(* child i of the node may have lost a key; its right sibling helps *)
BalanceLeft(nd, i) ==
  IF Leaf(nd) \/ ~ Under(nd.d[i]) THEN nd
  ELSE LET a == nd.d[i]
           b == nd.d[i + 1]
           key == nd.k[i]
       IN  IF Branches(b) = Half
           THEN [k |-> Take(nd.k, i - 1) \o Skip(nd.k, i),
                 d |-> Take(nd.d, i - 1) \o <<Join(a, key, b)>> \o Skip(nd.d, i + 1)]
           ELSE [k |-> [nd.k EXCEPT ![i] = b.k[1]],
                 d |-> [nd.d EXCEPT
                   ![i] = [k |-> a.k \o <<key>>,
                           d |-> IF Leaf(a) THEN <<>> ELSE a.d \o <<b.d[1]>>],
                   ![i + 1] = [k |-> Tail(b.k), d |-> IF Leaf(b) THEN <<>> ELSE Tail(b.d)]]]

(* the same for the last child, its left sibling helps *)
BalanceRight(nd, j) ==
  IF Leaf(nd) \/ ~ Under(nd.d[j]) THEN nd
  ELSE LET i == j - 1
           a == nd.d[j]
           b == nd.d[i]
           key == nd.k[i]
       IN  IF Branches(b) = Half
           THEN [k |-> Take(nd.k, i - 1) \o Skip(nd.k, i),
                 d |-> Take(nd.d, i - 1) \o <<Join(b, key, a)>> \o Skip(nd.d, j)]
           ELSE [k |-> [nd.k EXCEPT ![i] = Last(b.k)],
                 d |-> [nd.d EXCEPT
                   ![j] = [k |-> <<IF Bug = "rotate" THEN Last(b.k) ELSE key>> \o a.k,
                           d |-> IF Leaf(a) THEN <<>> ELSE <<Last(b.d)>> \o a.d],
                   ![i] = [k |-> Front(b.k), d |-> IF Leaf(b) THEN <<>> ELSE Front(b.d)]]]

(* removes the greatest key of a subtree: [key, n] *)
RECURSIVE DelMax(_)
DelMax(nd) ==
  IF Leaf(nd) THEN [key |-> Last(nd.k), n |-> [nd EXCEPT !.k = Front(@)]]
  ELSE LET j == Len(nd.d)
           r == DelMax(nd.d[j])
           n1 == [nd EXCEPT !.d[j] = r.n]
       IN  [key |-> r.key, n |-> IF Bug = "delmax" THEN n1 ELSE BalanceRight(n1, j)]

RECURSIVE Del(_, _)
Del(nd, key) ==
  IF nd.k = <<>> THEN nd
  ELSE LET i == Below(nd, key) IN
    IF Has(nd, i, key)
    THEN IF Leaf(nd) THEN [nd EXCEPT !.k = Take(@, i) \o Skip(@, i + 1)]
         ELSE LET r == DelMax(nd.d[i + 1])
              IN  BalanceLeft([k |-> [nd.k EXCEPT ![i + 1] = r.key],
                               d |-> [nd.d EXCEPT ![i + 1] = r.n]], i + 1)
    ELSE IF Leaf(nd) THEN nd
    ELSE LET n1 == [nd EXCEPT !.d[i + 1] = Del(@, key)]
         IN  IF i + 1 = Len(n1.d) THEN BalanceRight(n1, i + 1) ELSE BalanceLeft(n1, i + 1)

Trim(t) == IF Len(t.d) = 1 /\ Bug # "trim" THEN t.d[1] ELSE t
Delete(t, key) == Trim(Del(t, key))

-----------------------------------------------------------------------------
(* search and iteration                                                     *)

RECURSIVE Find(_, _)
Find(nd, key) ==
  LET i == Below(nd, key) IN
  IF Has(nd, i, key) THEN TRUE
  ELSE IF Leaf(nd) THEN FALSE
  ELSE Find(nd.d[i + 1], key)

RECURSIVE InOrder(_)
InOrder(nd) ==
  IF Leaf(nd) THEN nd.k
  ELSE FlattenSeq([i \in DOMAIN nd.d |->
         InOrder(nd.d[i]) \o (IF i <= Len(nd.k) THEN <<nd.k[i]>> ELSE <<>>)])

(* the iterator: a stack of [n |-> node, ki, di] (positions from 0), the top
   of the stack last                                                        *)
RECURSIVE LeftSpine(_)
LeftSpine(nd) ==
  <<[n |-> nd, ki |-> 0, di |-> 0]>> \o (IF Leaf(nd) THEN <<>> ELSE LeftSpine(nd.d[1]))
IterNew(t) == IF t.k = <<>> THEN <<>> ELSE LeftSpine(t)

(* pop until a node has a child left that was not visited *)
RECURSIVE Climb(_)
Climb(st) ==
  LET s1 == Front(st) IN
  IF s1 = <<>> THEN <<>>
  ELSE LET s2 == [s1 EXCEPT ![Len(s1)].di = @ + 1] IN
       IF s2[Len(s2)].di < Len(s2[Len(s2)].n.d) THEN s2
       ELSE IF Bug = "climb" THEN Front(s2) ELSE Climb(s2)

(* [key |-> the key or 0 at the end, st |-> the stack] *)
RECURSIVE IterNext(_)
IterNext(st) ==
  IF st = <<>> THEN [key |-> 0, st |-> st]
  ELSE
    LET e == Last(st) IN
    IF e.ki >= e.di /\ ~ Leaf(e.n)
    THEN IterNext(Append(st, [n |-> e.n.d[e.di + 1], ki |-> 0, di |-> 0]))
    ELSE IF e.ki >= Len(e.n.k) THEN [key |-> 0, st |-> st]
    ELSE LET key == e.n.k[e.ki + 1]
             st1 == [st EXCEPT ![Len(st)].ki = @ + 1]
         IN  IF e.ki + 1 < Len(e.n.k) THEN [key |-> key, st |-> st1]
             ELSE IF ~ Leaf(e.n)
             THEN [key |-> key, st |-> Append(st1, [n |-> e.n.d[e.di + 1], ki |-> 0, di |-> 0])]
             ELSE [key |-> key, st |-> Climb(st1)]

RECURSIVE IterAll(_, _)
IterAll(st, fuel) ==
  IF fuel = 0 THEN <<-1>>
  ELSE LET r == IterNext(st) IN
       IF r.key = 0 THEN <<>> ELSE <<r.key>> \o IterAll(r.st, fuel - 1)
Iteration(t) == IterAll(IterNew(t), Len(InOrder(t)) + 2)
(* after the end it stays ended *)
RECURSIVE IterEnd(_, _)
IterEnd(st, fuel) ==
  LET r == IterNext(st) IN IF r.key = 0 \/ fuel = 0 THEN r.st ELSE IterEnd(r.st, fuel - 1)
StaysEnded(t) == LET s == IterEnd(IterNew(t), Len(InOrder(t)) + 2) IN IterNext(s).key = 0

-----------------------------------------------------------------------------
(* what a tree must be                                                      *)

RECURSIVE Depths(_)
Depths(nd) == IF Leaf(nd) THEN {1} ELSE {1 + x : x \in UNION {Depths(nd.d[i]) : i \in DOMAIN nd.d}}

RECURSIVE NodesOf(_)
NodesOf(nd) == {nd} \cup UNION {NodesOf(nd.d[i]) : i \in DOMAIN nd.d}

WellFormed(t) ==
  /\ Cardinality(Depths(t)) = 1
  /\ \A nd \in NodesOf(t) :
       /\ Len(nd.k) < MaxK
       /\ ~ Leaf(nd) => Len(nd.d) = Len(nd.k) + 1
       /\ nd # t => Branches(nd) >= Half
  /\ t.k = <<>> => Leaf(t)
Sorted(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
=============================================================================
