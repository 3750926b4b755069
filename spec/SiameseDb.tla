----------------------------- MODULE SiameseDb -----------------------------
(***************************************************************************)
(* What a user of siamesedb relies on: databases (directories) of named,    *)
(* typed maps, several handles to each of them, sessions, and what a kill   *)
(* of the process or a loss of power leaves behind.                         *)
(*                                                                          *)
(* A key is its rank 1..nk in the order of the keys of the scenario, a      *)
(* value an identity 1.., 0 is "no entry".  The content of a map is a       *)
(* sequence of length nk.                                                   *)
(*                                                                          *)
(* The module is used in three ways: MCSiameseDb explores it exhaustively   *)
(* with small constants, TraceDb replays recorded executions of the real    *)
(* library through its actions, and Storage refines its durability part.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES
  nk,     \* number of keys of the universe
  maps,   \* map id -> state of the map, for every map that exists
  dbs,    \* database handle -> path
  hs      \* map handle -> map id

dbVars == <<nk, maps, dbs, hs>>

(* A map id is <<path, name, "">>; in a memory database the type is part of
   the identity: <<path, name, type>>.                                      *)
Path(id) == id[1]

(* State of a map:
     typ   key type it was created with
     file  TRUE for a file map
     mem   content that every handle shows
     chg   changed since the last successful sync (a new map is changed)
     osk   the files as the operating system has them show exactly osc
     dkk   storage alone shows exactly dkc
     opn   an open session holds the map
     may   a failed sync of the database may have saved the map
     made  a sync has succeeded: storage has the map                        *)

Empty == [k \in 1 .. nk |-> 0]

NewMap(t, f) ==
  [typ |-> t, file |-> f, mem |-> Empty, chg |-> TRUE,
   osk |-> TRUE, osc |-> Empty, dkk |-> TRUE, dkc |-> Empty, opn |-> TRUE,
   may |-> FALSE, made |-> FALSE]

-----------------------------------------------------------------------------
(* the dictionary: contents and results                                     *)

Ranks(c) == SelectSeq([i \in 1 .. Len(c) |-> i], LAMBDA k : c[k] # 0)
Entries(c) == LET r == Ranks(c) IN [i \in 1 .. Len(r) |-> <<r[i], c[r[i]]>>]

PutC(c, k, v) == [c EXCEPT ![k] = v]
DelC(c, k) == [c EXCEPT ![k] = 0]

(* bulk operations are the single operations in slice order *)
BulkPutC(c, ks, vs) ==
  FoldLeft(LAMBDA a, i : PutC(a, ks[i], vs[i]), c, [i \in 1 .. Len(ks) |-> i])
BulkDelC(c, ks) == FoldLeft(LAMBDA a, k : DelC(a, k), c, ks)
BulkGetR(c, ks) == [i \in 1 .. Len(ks) |-> c[ks[i]]]
BulkDelR(c, ks) ==
  FoldLeft(LAMBDA a, k : [c |-> DelC(a.c, k), r |-> Append(a.r, a.c[k])],
           [c |-> c, r |-> <<>>], ks).r

-----------------------------------------------------------------------------
(* sessions                                                                 *)

PathOpen(p) == \E d \in DOMAIN dbs : dbs[d] = p

(* what remains open with the given handles; a map whose last reference is
   gone is closed: its files show its content.                              *)
Closed(m) == [m EXCEPT !.opn = FALSE, !.osk = TRUE, !.osc = m.mem,
                       !.dkk = m.dkk /\ ~ m.chg, !.chg = FALSE, !.may = FALSE]
Held(id, dd, hh) ==
  \/ \E d \in DOMAIN dd : dd[d] = Path(id)
  \/ \E h \in DOMAIN hh : hh[h] = id
AfterDrop(dd, hh) ==
  [id \in {i \in DOMAIN maps : maps[i].file \/ Held(i, dd, hh)} |->
     IF maps[id].opn /\ ~ Held(id, dd, hh) THEN Closed(maps[id]) ELSE maps[id]]

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

OpenDb(d, p) ==
  /\ dbs' = With(dbs, d, p)
  /\ UNCHANGED <<nk, maps, hs>>

CloneDb(d, o) ==
  /\ o \in DOMAIN dbs
  /\ dbs' = With(dbs, d, dbs[o])
  /\ UNCHANGED <<nk, maps, hs>>

DropDb(d) ==
  /\ d \in DOMAIN dbs
  /\ dbs' = Without(dbs, d)
  /\ maps' = AfterDrop(Without(dbs, d), hs)
  /\ UNCHANGED <<nk, hs>>

(* opening a map is refused iff it exists with another type *)
MapId(d, n, t, f) == <<dbs[d], n, IF f THEN "" ELSE t>>
Refused(d, n, t, f) ==
  LET id == MapId(d, n, t, f) IN id \in DOMAIN maps /\ maps[id].typ # t

OpenedMap(id, t, f) ==
  IF id \in DOMAIN maps THEN [maps EXCEPT ![id].opn = TRUE]
  ELSE With(maps, id, NewMap(t, f))

OpenMap(h, d, n, t, f) ==
  /\ d \in DOMAIN dbs
  /\ ~ Refused(d, n, t, f)
  /\ LET id == MapId(d, n, t, f) IN
       /\ maps' = OpenedMap(id, t, f)
       /\ hs' = With(hs, h, id)
  /\ UNCHANGED <<nk, dbs>>

(* the map is opened (and stays open in the database), the handle is dropped *)
TouchMap(d, n, t, f) ==
  /\ d \in DOMAIN dbs
  /\ ~ Refused(d, n, t, f)
  /\ maps' = OpenedMap(MapId(d, n, t, f), t, f)
  /\ UNCHANGED <<nk, dbs, hs>>

RefuseMap(d, n, t, f) ==
  /\ d \in DOMAIN dbs
  /\ Refused(d, n, t, f)
  /\ UNCHANGED dbVars

CloneMap(h, o) ==
  /\ o \in DOMAIN hs
  /\ hs' = With(hs, h, hs[o])
  /\ UNCHANGED <<nk, maps, dbs>>

DropMap(h) ==
  /\ h \in DOMAIN hs
  /\ hs' = Without(hs, h)
  /\ maps' = AfterDrop(dbs, Without(hs, h))
  /\ UNCHANGED <<nk, dbs>>

CloseAll ==
  /\ dbs' = <<>>
  /\ hs' = <<>>
  /\ maps' = AfterDrop(<<>>, <<>>)
  /\ UNCHANGED nk

-----------------------------------------------------------------------------
(* operations through a handle; every handle of a map acts on the one state *)

Mem(h) == maps[hs[h]].mem

(* an accepted write: what the files show is not promised any more *)
Wrote(m, c) == [m EXCEPT !.mem = c, !.chg = TRUE, !.osk = FALSE, !.dkk = FALSE,
                         !.may = FALSE]

Put(h, k, v) ==
  /\ h \in DOMAIN hs
  /\ maps' = [maps EXCEPT ![hs[h]] = Wrote(@, PutC(@.mem, k, v))]
  /\ UNCHANGED <<nk, dbs, hs>>

BulkPut(h, ks, vs) ==
  /\ h \in DOMAIN hs
  /\ maps' = IF Len(ks) = 0 THEN maps
             ELSE [maps EXCEPT ![hs[h]] = Wrote(@, BulkPutC(@.mem, ks, vs))]
  /\ UNCHANGED <<nk, dbs, hs>>

(* a delete of an absent key changes nothing that is promised *)
Del(h, k) ==
  /\ h \in DOMAIN hs
  /\ maps' = IF Mem(h)[k] = 0 THEN maps
             ELSE [maps EXCEPT ![hs[h]] = Wrote(@, DelC(@.mem, k))]
  /\ UNCHANGED <<nk, dbs, hs>>

BulkDel(h, ks) ==
  /\ h \in DOMAIN hs
  /\ maps' = IF \A i \in DOMAIN ks : Mem(h)[ks[i]] = 0 THEN maps
             ELSE [maps EXCEPT ![hs[h]] = Wrote(@, BulkDelC(@.mem, ks))]
  /\ UNCHANGED <<nk, dbs, hs>>

Read(h) == h \in DOMAIN hs /\ UNCHANGED dbVars

(* a flush gives the content to the operating system; an unchanged map
   needs none.                                                              *)
Flushed(m) == IF m.chg THEN [m EXCEPT !.osk = TRUE, !.osc = m.mem] ELSE m
Synced(m) ==
  IF m.chg THEN [m EXCEPT !.osk = TRUE, !.osc = m.mem,
                          !.dkk = TRUE, !.dkc = m.mem, !.chg = FALSE, !.may = FALSE,
                          !.made = TRUE]
  ELSE m
(* after a failure nothing new is promised, and the content in memory stays *)
Failed(m) == IF m.chg THEN [m EXCEPT !.osk = FALSE, !.dkk = FALSE, !.may = FALSE] ELSE m
PerhapsSaved(m) == IF m.chg THEN [m EXCEPT !.osk = FALSE, !.dkk = FALSE, !.may = TRUE] ELSE m

FlushOk(h) ==
  /\ h \in DOMAIN hs
  /\ maps' = [maps EXCEPT ![hs[h]] = Flushed(@)]
  /\ UNCHANGED <<nk, dbs, hs>>
SyncOk(h) ==
  /\ h \in DOMAIN hs
  /\ maps' = [maps EXCEPT ![hs[h]] = Synced(@)]
  /\ UNCHANGED <<nk, dbs, hs>>
SaveFails(h) ==
  /\ h \in DOMAIN hs
  /\ maps' = [maps EXCEPT ![hs[h]] = Failed(@)]
  /\ UNCHANGED <<nk, dbs, hs>>

InDb(id, d) == Path(id) = dbs[d] /\ maps[id].opn
DbSyncOk(d) ==
  /\ d \in DOMAIN dbs
  /\ maps' = [id \in DOMAIN maps |-> IF InDb(id, d) THEN Synced(maps[id]) ELSE maps[id]]
  /\ UNCHANGED <<nk, dbs, hs>>
(* some maps may have been saved before the failure; those are not dirty *)
DbSyncFails(d) ==
  /\ d \in DOMAIN dbs
  /\ maps' = [id \in DOMAIN maps |-> IF InDb(id, d) THEN PerhapsSaved(maps[id]) ELSE maps[id]]
  /\ UNCHANGED <<nk, dbs, hs>>
(* the answer to "is it dirty?" *)
AskDirty(h, answer) ==
  /\ h \in DOMAIN hs
  /\ maps' = [maps EXCEPT ![hs[h]] =
       IF ~ @.may THEN @ ELSE IF answer THEN [@ EXCEPT !.may = FALSE] ELSE Synced(@)]
  /\ UNCHANGED <<nk, dbs, hs>>

-----------------------------------------------------------------------------
(* a kill loses what the process held; a loss of power also what was not
   yet in storage.  Without a promise the content is arbitrary afterwards,
   these histories are not continued.                                       *)

KillOk == \A id \in DOMAIN maps : maps[id].osk
PowerOk == \A id \in DOMAIN maps : maps[id].dkk
Kill ==
  /\ KillOk
  /\ dbs' = <<>> /\ hs' = <<>>
  /\ maps' = [id \in DOMAIN maps |->
                [maps[id] EXCEPT !.mem = maps[id].osc, !.opn = FALSE,
                                 !.dkk = maps[id].dkk /\ ~ maps[id].chg, !.chg = FALSE,
                                 !.may = FALSE]]
  /\ UNCHANGED nk
PowerLoss ==
  /\ PowerOk
  /\ dbs' = <<>> /\ hs' = <<>>
  /\ maps' = [id \in {i \in DOMAIN maps : maps[i].made} |->    \* the others are not there
                [maps[id] EXCEPT !.mem = maps[id].dkc, !.osk = TRUE, !.osc = maps[id].dkc,
                                 !.opn = FALSE, !.chg = FALSE, !.may = FALSE]]
  /\ UNCHANGED nk

-----------------------------------------------------------------------------
(* properties of the design                                                 *)

TypeOK ==
  /\ \A id \in DOMAIN maps :
       /\ Len(maps[id].mem) = nk
       /\ maps[id].chg => maps[id].opn
       /\ maps[id].may => maps[id].chg
  /\ \A h \in DOMAIN hs : hs[h] \in DOMAIN maps /\ maps[hs[h]].opn

(* an unchanged map can lose nothing in a kill, and nothing in a loss of
   power if it was durable when it was opened                               *)
UnchangedIsSafe ==
  \A id \in DOMAIN maps : LET m == maps[id] IN
    (m.file /\ ~ m.chg) => (m.osk /\ m.osc = m.mem /\ (m.dkk => m.dkc = m.mem))

(* the type of a map never changes, and no map disappears; a map that was not
   yet synced can be lost with the power                                    *)
TypesStay ==
  [][\A id \in DOMAIN maps : (maps[id].file /\ (maps[id].made \/ dbs' # <<>> \/ hs' # <<>>)) => id \in DOMAIN maps' /\ maps'[id].typ = maps[id].typ]_dbVars

(* at most one map changes its content in one step, except in a crash *)
ContentIsolated ==
  [][(hs' # <<>> \/ dbs' # <<>>) =>
        Cardinality({id \in DOMAIN maps \cap DOMAIN maps' : maps'[id].mem # maps[id].mem}) <= 1]_dbVars

=============================================================================
