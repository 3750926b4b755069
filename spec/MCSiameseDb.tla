---------------------------- MODULE MCSiameseDb ----------------------------
(* Exhaustive exploration of SiameseDb with small constants. *)
EXTENDS SiameseDb
CONSTANTS NK, NV, DbIds, Handles, Names, Types, MaxOps

VARIABLES ops   \* bound of the history
vars == <<dbVars, ops>>

P == "p"
Init ==
  /\ nk = NK /\ maps = <<>> /\ dbs = <<>> /\ hs = <<>> /\ ops = 0

Step(a, name) == a /\ ops < MaxOps /\ ops' = ops + 1
FreeD == DbIds \ DOMAIN dbs
FreeH == Handles \ DOMAIN hs
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Stale == \E id \in DOMAIN maps : maps[id].opn

Next ==
  \/ FreeD # {} /\ dbs = <<>> /\ ~ Stale /\ Step(OpenDb(MinOf(FreeD), P), "opendb")
  \/ FreeD # {} /\ \E o \in DOMAIN dbs : Step(CloneDb(MinOf(FreeD), o), "clonedb")
  \/ \E d \in DOMAIN dbs : Step(DropDb(d), "dropdb")
  \/ FreeH # {} /\ \E d \in DOMAIN dbs, n \in Names, t \in Types :
       Step(OpenMap(MinOf(FreeH), d, n, t, TRUE), "open")
  \/ \E d \in DOMAIN dbs, n \in Names, t \in Types : Step(RefuseMap(d, n, t, TRUE), "refuse")
  \/ FreeH # {} /\ \E o \in DOMAIN hs : Step(CloneMap(MinOf(FreeH), o), "clone")
  \/ \E h \in DOMAIN hs :
       \/ Step(DropMap(h), "drop")
       \/ \E k \in 1 .. NK : (\E v \in 1 .. NV : Step(Put(h, k, v), "put")) \/ Step(Del(h, k), "del")
       \/ Step(FlushOk(h), "flush") \/ Step(SyncOk(h), "sync") \/ Step(SaveFails(h), "fail")
  \/ \E d \in DOMAIN dbs : Step(DbSyncOk(d), "dbsync") \/ Step(DbSyncFails(d), "dbfail")
  \/ Step(CloseAll, "close") \/ Step(Kill, "kill") \/ Step(PowerLoss, "power")

Spec == Init /\ [][Next]_vars

View == dbVars
=============================================================================
