------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* Space in a record file: records of fixed sizes, one free list per size   *)
(* class (last in, first out), one common list for all large sizes (first   *)
(* record that is large enough, never split).  An owner (a key of the map)  *)
(* has at most one record.                                                  *)
(*                                                                          *)
(* Sizes are numbers; sizes from Large on share a list.  Fixed = TRUE: the  *)
(* size belongs to the owner (key records), otherwise each write chooses    *)
(* one (values).                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Owners, Sizes, Large, Fixed, MaxRecs, Bug, Log

VARIABLES rec,   \* the file: sequence of [sz, own]; own 0: free
          free,  \* list -> sequence of record numbers, the first one first
          act
vars == <<rec, free, act>>
View == <<rec, free>>

Lists == {s \in Sizes : s < Large} \cup {Large}
ListOf(sz) == IF sz < Large THEN sz ELSE Large
(* the size of an owner's record, if it is fixed *)
SizeSeq == SetToSortSeq(Sizes, <)
SizeOf(o) == SizeSeq[1 + (o % Len(SizeSeq))]

Init == rec = <<>> /\ free = [c \in Lists |-> <<>>] /\ act = <<"init", 0, 0>>

RecOf(o) == {i \in DOMAIN rec : rec[i].own = o}
Has(o) == RecOf(o) # {}
TheRec(o) == CHOOSE i \in RecOf(o) : TRUE

(* [rec, free] -> with record i freed *)
Push(st, i) ==
  LET sz == st.rec[i].sz IN
  [rec |-> [st.rec EXCEPT ![i].own = 0],
   free |-> IF Bug = "lose" /\ sz >= Large THEN st.free
            ELSE [st.free EXCEPT ![ListOf(sz)] = <<i>> \o @]]

(* the position in the list of the record to take, 0: none *)
Fit(st, sz) ==
  LET l == st.free[ListOf(sz)] IN
  IF sz < Large THEN IF l = <<>> THEN 0 ELSE 1
  ELSE LET S == {j \in DOMAIN l : IF Bug = "strict" THEN st.rec[l[j]].sz > sz ELSE st.rec[l[j]].sz >= sz}
       IN  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k

Take(st, o, sz) ==
  LET j == Fit(st, sz)
      c == ListOf(sz) IN
  IF j = 0 THEN [rec |-> Append(st.rec, [sz |-> sz, own |-> o]), free |-> st.free]
  ELSE LET i == st.free[c][j] IN
       [rec |-> [st.rec EXCEPT ![i] = [sz |-> IF Bug = "shrink" THEN sz ELSE st.rec[i].sz, own |-> o]],
        free |-> IF Bug = "relink" /\ j > 1
                 THEN [st.free EXCEPT ![c] = SubSeq(@, 1, j - 1)]
                 ELSE [st.free EXCEPT ![c] = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))]]

Now == [rec |-> rec, free |-> free]
Becomes(st) == rec' = st.rec /\ free' = st.free

Write(o, sz) ==
  /\ act' = <<"put", o, sz>>
  /\ Becomes(IF ~ Has(o) THEN Take(Now, o, sz)
             ELSE LET i == TheRec(o) IN
                  IF sz <= rec[i].sz THEN Now
                  ELSE Take(Push(Now, i), o, sz))
Delete(o) ==
  /\ Has(o)
  /\ act' = <<"del", o, 0>>
  /\ Becomes(Push(Now, TheRec(o)))

Next ==
  \/ \E o \in Owners, sz \in Sizes : (Fixed => sz = SizeOf(o)) /\ Write(o, sz)
  \/ \E o \in Owners : Delete(o)
Spec == Init /\ [][Next]_vars
Small == Len(rec) <= MaxRecs

Logged == (Log /\ Len(rec') <= MaxRecs) =>
             PrintT(ToJson([s |-> View, a |-> act', t |-> View']))

-----------------------------------------------------------------------------
FreeSeq == FlattenSeq([k \in 1 .. Cardinality(Lists) |-> free[SetToSortSeq(Lists, <)[k]]])
(* every record is used by one owner, or is once on the list of its size *)
Accounted ==
  /\ \A o \in Owners : Cardinality(RecOf(o)) <= 1
  /\ ToSet(FreeSeq) = {i \in DOMAIN rec : rec[i].own = 0}
  /\ Len(FreeSeq) = Cardinality(ToSet(FreeSeq))
  /\ \A c \in Lists : \A k \in DOMAIN free[c] : ListOf(rec[free[c][k]].sz) = c
(* the file grows only if no free record would do; a record never changes its size *)
GrowsOnlyIfNeeded ==
  [][Len(rec') > Len(rec) =>
       /\ Len(rec') = Len(rec) + 1
       /\ LET n == rec'[Len(rec')].sz IN
          \A i \in DOMAIN rec : rec[i].own = 0 =>
             IF n < Large THEN rec[i].sz # n ELSE rec[i].sz < n]_vars
SizesStay == [][\A i \in DOMAIN rec : rec'[i].sz = rec[i].sz]_vars
(* records of one small size: never more than owners; large ones of at least
   a size: never more than owners                                           *)
Bounded ==
  \A s \in Sizes : Cardinality({i \in DOMAIN rec : IF s < Large THEN rec[i].sz = s ELSE rec[i].sz = s})
                     <= Cardinality(Owners) + (IF Fixed THEN 0 ELSE 1)
=============================================================================
