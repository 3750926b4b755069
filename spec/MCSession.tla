----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* Sessions, handles, types and crashes of SiameseDb with small constants,  *)
(* without a bound on the length of a history: the whole state graph.  Its  *)
(* transitions are walked by the real library (tools/gens.py).              *)
(***************************************************************************)
EXTENDS SiameseDb, Json
CONSTANTS NK, NV, DbIds, Handles, NameTypes, Ops, File, PerMap, Log

VARIABLES act
vars == <<dbVars, act>>
View == dbVars

P == "p"
Init == nk = NK /\ maps = <<>> /\ dbs = <<>> /\ hs = <<>> /\ act = <<"init">>

Step(op, args, a) == op \in Ops /\ a /\ act' = <<op>> \o args
FreeD == DbIds \ DOMAIN dbs
FreeH == Handles \ DOMAIN hs
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Stale == \E id \in DOMAIN maps : maps[id].opn
(* with PerMap, at most one handle for each map *)
MayOpen(id) == ~ PerMap \/ \A h \in DOMAIN hs : hs[h] # id

Next ==
  \/ FreeD # {} /\ dbs = <<>> /\ ~ Stale /\ Step("opendb", <<MinOf(FreeD)>>, OpenDb(MinOf(FreeD), P))
  \/ FreeD # {} /\ \E o \in DOMAIN dbs : Step("clonedb", <<MinOf(FreeD), o>>, CloneDb(MinOf(FreeD), o))
  \/ \E d \in DOMAIN dbs : Step("dropdb", <<d>>, DropDb(d))
  \/ FreeH # {} /\ \E d \in DOMAIN dbs, nt \in NameTypes :
       /\ MayOpen(MapId(d, nt[1], nt[2], File))
       /\ Step("open", <<MinOf(FreeH), d, nt[1], nt[2]>>, OpenMap(MinOf(FreeH), d, nt[1], nt[2], File))
  \/ \E d \in DOMAIN dbs, nt \in NameTypes :
       \/ Step("refuse", <<d, nt[1], nt[2]>>, RefuseMap(d, nt[1], nt[2], File))
       \/ Step("touch", <<d, nt[1], nt[2]>>, TouchMap(d, nt[1], nt[2], File))
  \/ FreeH # {} /\ \E o \in DOMAIN hs : Step("clone", <<MinOf(FreeH), o>>, CloneMap(MinOf(FreeH), o))
  \/ \E h \in DOMAIN hs :
       \/ Step("drop", <<h>>, DropMap(h))
       \/ \E k \in 1 .. NK : (\E v \in 1 .. NV : Step("put", <<h, k, v>>, Put(h, k, v)))
                             \/ Step("del", <<h, k>>, Del(h, k))
       \/ Step("flush", <<h>>, FlushOk(h)) \/ Step("sync", <<h>>, SyncOk(h))
  \/ \E d \in DOMAIN dbs : Step("dsync", <<d>>, DbSyncOk(d))
  \/ (dbs # <<>> \/ hs # <<>>) /\ Step("close", <<>>, CloseAll)
  \/ Step("kill", <<>>, Kill) \/ Step("power", <<>>, PowerLoss)

Spec == Init /\ [][Next]_vars
Logged == Log => PrintT(ToJson([s |-> View, a |-> act', t |-> View']))

Two == {<<"a", "S">>, <<"b", "S">>}
TwoTypes == {<<"a", "S">>, <<"a", "I">>}
ManyTypes == {<<"a", "S">>, <<"a", "I">>, <<"a", "B">>, <<"b", "S">>, <<"b", "I">>}
OneMap == {<<"a", "S">>}
Mixed == {<<"a", "S">>, <<"b", "I">>}
OpsHandles == {"opendb", "clonedb", "dropdb", "open", "clone", "drop", "put", "del", "close"}
OpsMemory == {"opendb", "clonedb", "open", "clone", "drop", "put", "del", "close"}
OpsSave == {"opendb", "dropdb", "open", "clone", "drop", "put", "del", "close", "flush", "sync", "dsync", "kill", "power"}
OpsTypes == {"opendb", "open", "refuse", "touch", "drop", "dropdb", "put", "del", "close"}
OpsMaps == {"opendb", "open", "drop", "put", "del", "close", "flush", "sync", "dsync", "kill", "power"}

(* every handle shows the one state of its map *)
OneState == \A g, h \in DOMAIN hs : hs[g] = hs[h] => Mem(g) = Mem(h)
(* nothing that is held is closed, nothing that is not held is open *)
OpenIffHeld == \A id \in DOMAIN maps : maps[id].opn => Held(id, dbs, hs)
(* a file map that is closed has its content in its files *)
ClosedIsWritten == \A id \in DOMAIN maps : (maps[id].file /\ ~ maps[id].opn) => maps[id].osk /\ maps[id].osc = maps[id].mem
(* one type per name of a file database *)
OneType == \A i, j \in DOMAIN maps : (maps[i].file /\ maps[j].file /\ i # j) => <<i[1], i[2]>> # <<j[1], j[2]>>
=============================================================================
