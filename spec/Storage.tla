------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* How the promises of SiameseDb about kills and power losses are kept: a   *)
(* map has four files; a write goes into buffers of the process (index      *)
(* nodes first into a node cache), from there to the operating system, and  *)
(* with an fsync to storage.  Every action is the action of SiameseDb       *)
(* together with what happens to the buffers; the invariants say that a     *)
(* promise (osk: the files show osc; dkk: storage shows dkc) is only given  *)
(* when the mechanism keeps it.                                             *)
(*                                                                          *)
(* Maps are the names 1..NM of one database, each with one key.             *)
(***************************************************************************)
EXTENDS SiameseDb, Json

CONSTANTS NM, Files, Faulty, Evicts, Bug, Log

FSet == ToSet(Files)
AllFiles == <<"val", "key", "idx", "htx">>
OneFile == <<"val">>
TwoFiles == <<"val", "idx">>
Ms == 1 .. NM
Id(m) == <<"p", m, "">>

VARIABLES
  nc,    \* map -> the node cache holds changes
  buf,   \* map -> files with changes in buffers of the process
  uns,   \* map -> files with changes given to the system but not to storage
  old,   \* map -> files which were unsynced when the session began
  dirty, \* map -> the mark of the open map
  lost,  \* maps which lost something that was promised
  act
mech == <<nc, buf, uns, old, dirty, lost>>
vars == <<dbVars, mech, act>>
View == <<dbVars, mech>>

Init ==
  /\ nk = 1
  /\ dbs = [d \in {1} |-> "p"]
  /\ hs = [m \in Ms |-> Id(m)]
  /\ maps = [id \in {Id(m) : m \in Ms} |-> NewMap("S", TRUE)]
  /\ nc = [m \in Ms |-> FALSE]
  /\ buf = [m \in Ms |-> {}]
  /\ uns = [m \in Ms |-> FSet]     \* creation wrote the headers, a new map is dirty
  /\ old = [m \in Ms |-> {}]
  /\ dirty = [m \in Ms |-> TRUE]
  /\ lost = {}
  /\ act = <<"init">>

State(m) == [nc |-> nc[m], buf |-> buf[m], uns |-> uns[m], dirty |-> dirty[m], fail |-> FALSE, armed |-> <<"", "">>]
Put1(m, s) ==
  /\ nc' = [nc EXCEPT ![m] = s.nc] /\ buf' = [buf EXCEPT ![m] = s.buf]
  /\ uns' = [uns EXCEPT ![m] = s.uns] /\ dirty' = [dirty EXCEPT ![m] = s.dirty]
  /\ old' = [old EXCEPT ![m] = @ \cap s.uns]
  /\ UNCHANGED lost

-----------------------------------------------------------------------------
(* writes *)
Touched(kind) == CASE kind = "new" -> {"val", "key", "htx"}
                   [] kind = "upd" -> {"val"}
                   [] kind = "grow" -> {"val", "key"}
                   [] kind = "del" -> {"val", "key", "htx"}
WriteMech(m, kind) ==
  /\ buf' = [buf EXCEPT ![m] = @ \cup (Touched(kind) \cap FSet)]
  /\ nc' = [nc EXCEPT ![m] = @ \/ (kind \in {"new", "del"} /\ "idx" \in FSet)]
  /\ dirty' = [dirty EXCEPT ![m] = IF Bug = "updclean" /\ kind = "upd" THEN @ ELSE TRUE]
  /\ UNCHANGED <<uns, old, lost>>
  /\ act' = <<kind, m>>
Present(m) == maps[Id(m)].mem[1] # 0
New(m) == ~ Present(m) /\ Put(m, 1, 1) /\ WriteMech(m, "new")
Upd(m) == Present(m) /\ Put(m, 1, 1) /\ WriteMech(m, "upd")
Grow(m) == Present(m) /\ Put(m, 1, 1) /\ WriteMech(m, "grow")
Erase(m) == Present(m) /\ Del(m, 1) /\ WriteMech(m, "del")
(* a get that is not found through the hash index writes the node cache out *)
Miss(m) ==
  /\ Read(m) /\ act' = <<"miss", m>>
  /\ buf' = [buf EXCEPT ![m] = IF nc[m] THEN @ \cup {"idx"} ELSE @]
  /\ nc' = [nc EXCEPT ![m] = FALSE]
  /\ UNCHANGED <<uns, old, dirty, lost>>
(* such a get, or a full cache, cannot write: the get fails, the nodes stay *)
MissFails(m) ==
  /\ Faulty /\ nc[m]
  /\ Read(m) /\ act' = <<"missfail", m>>
  /\ IF Bug = "evictlost"
     THEN nc' = [nc EXCEPT ![m] = FALSE] /\ lost' = lost \cup {m}
     ELSE UNCHANGED <<nc, lost>>
  /\ UNCHANGED <<buf, uns, old, dirty>>
Ask(m) ==
  /\ maps[Id(m)].may
  /\ AskDirty(m, dirty[m]) /\ act' = <<"ask", m>>
  /\ UNCHANGED mech
(* a buffer is full: it is written at any time *)
Evict(m) ==
  /\ Evicts
  /\ \E f \in buf[m] :
       /\ buf' = [buf EXCEPT ![m] = @ \ {f}]
       /\ uns' = [uns EXCEPT ![m] = @ \cup {f}]
       /\ act' = <<"evict", m, f>>
  /\ UNCHANGED <<dbVars, nc, old, dirty, lost>>

-----------------------------------------------------------------------------
(* flush and sync of one map, file after file.  fault <<f, op>>: the first
   call op ("write", "sync") on file f fails; armed until it fires.         *)

WriteFile(s, f) ==
  LET s1 == IF f = "idx" /\ s.nc /\ Bug # "nodes" THEN [s EXCEPT !.nc = FALSE, !.buf = @ \cup {"idx"}] ELSE s IN
  IF f \notin s1.buf THEN s1
  ELSE IF s1.armed = <<f, "write">>
  THEN [s1 EXCEPT !.fail = TRUE, !.armed = <<"", "">>, !.uns = @ \cup {f}]
  ELSE [s1 EXCEPT !.buf = @ \ {f}, !.uns = @ \cup {f}]
SyncFile(s, f) ==
  LET s1 == WriteFile(s, f) IN
  IF s1.fail /\ Bug # "ignore" THEN s1
  ELSE IF s1.armed = <<f, "sync">> THEN [s1 EXCEPT !.fail = TRUE, !.armed = <<"", "">>]
  ELSE IF Bug = "skiphtx" /\ f = "htx" THEN s1
  ELSE [s1 EXCEPT !.uns = @ \ {f}]
FlushAll(s) ==
  IF ~ s.dirty THEN s
  ELSE LET r == FoldLeft(LAMBDA a, f : IF a.fail THEN a ELSE WriteFile(a, f), s, Files) IN
       IF Bug = "flushclean" /\ ~ r.fail THEN [r EXCEPT !.dirty = FALSE] ELSE r
SyncAll(s) ==
  IF ~ s.dirty THEN s
  ELSE LET s0 == IF Bug = "early" THEN [s EXCEPT !.dirty = FALSE] ELSE s
           r == FoldLeft(LAMBDA a, f : IF a.fail THEN a ELSE SyncFile(a, f), s0, Files)
       IN  IF r.fail THEN r ELSE [r EXCEPT !.dirty = FALSE]

Faults == {<<"", "">>} \cup (IF Faulty THEN FSet \X {"write", "sync"} ELSE {})
Arm(s, x) == [s EXCEPT !.armed = x]
Flush(m, x) ==
  LET r == FlushAll(Arm(State(m), x)) IN
  /\ Put1(m, r)
  /\ IF r.fail /\ Bug # "swallow" THEN SaveFails(m) ELSE FlushOk(m)
  /\ act' = <<"flush", m, x[1], x[2]>>
Sync(m, x, how) ==
  LET r == SyncAll(Arm(State(m), x)) IN
  /\ Put1(m, r)
  /\ IF r.fail /\ Bug # "ignore" THEN SaveFails(m) ELSE SyncOk(m)
  /\ act' = <<how, m, x[1], x[2]>>

(* all maps in turn, up to the first failure *)
DbSync(x) ==
  LET step(a, m) ==
        IF a.fail /\ Bug # "goon" THEN a
        ELSE LET r == SyncAll([State(m) EXCEPT !.armed = a.armed]) IN
             [armed |-> r.armed, fail |-> IF Bug = "goon" THEN r.fail ELSE a.fail \/ r.fail,
              st |-> [a.st EXCEPT ![m] = [r EXCEPT !.fail = FALSE]]]
      e == FoldLeft(step, [armed |-> x, fail |-> FALSE, st |-> [m \in Ms |-> State(m)]],
                    [i \in 1 .. NM |-> i])
  IN  /\ nc' = [m \in Ms |-> e.st[m].nc] /\ buf' = [m \in Ms |-> e.st[m].buf]
      /\ uns' = [m \in Ms |-> e.st[m].uns] /\ dirty' = [m \in Ms |-> e.st[m].dirty]
      /\ old' = [m \in Ms |-> old[m] \cap e.st[m].uns]
      /\ UNCHANGED lost
      /\ IF e.fail THEN DbSyncFails(1) ELSE DbSyncOk(1)
      /\ act' = <<"dsync", 0, x[1], x[2]>>

-----------------------------------------------------------------------------
(* the end of a session writes all buffers, it does not sync; all is opened
   again                                                                    *)
Reopened(mm) == [id \in DOMAIN mm |-> [mm[id] EXCEPT !.opn = TRUE]]
InOs(m) == ~ nc[m] /\ buf[m] = {}
OnDisk(m) == InOs(m) /\ uns[m] = {}
Session(u, l) ==
  /\ lost' = lost \cup l
  /\ nc' = [m \in Ms |-> FALSE] /\ buf' = [m \in Ms |-> {}]
  /\ uns' = u /\ old' = u
  /\ dirty' = [m \in Ms |-> FALSE]
  /\ UNCHANGED <<nk, dbs, hs>>
Reopen ==
  /\ maps' = Reopened([id \in DOMAIN maps |-> Closed(maps[id])])
  /\ Session([m \in Ms |-> uns[m] \cup (IF Bug = "dropnodes" THEN buf[m] ELSE buf[m] \cup (IF nc[m] THEN {"idx"} ELSE {}))],
             {m \in Ms : Bug = "dropnodes" /\ nc[m]})
  /\ act' = <<"reopen">>
Killed ==
  /\ KillOk
  /\ maps' = Reopened([id \in DOMAIN maps |->
       [maps[id] EXCEPT !.mem = maps[id].osc, !.dkk = @ /\ ~ maps[id].chg, !.chg = FALSE, !.may = FALSE]])
  /\ Session(uns, {m \in Ms : ~ InOs(m)})
  /\ act' = <<"kill">>
PowerLost ==
  /\ PowerOk
  /\ maps' = Reopened([id \in DOMAIN maps |->
       IF ~ maps[id].made THEN NewMap("S", TRUE)       \* created anew
       ELSE [maps[id] EXCEPT !.mem = maps[id].dkc, !.osk = TRUE, !.osc = maps[id].dkc, !.chg = FALSE, !.may = FALSE]])
  /\ LET anew(m) == ~ maps[Id(m)].made IN
     /\ lost' = lost \cup {m \in Ms : ~ anew(m) /\ ~ OnDisk(m) /\ ~ (maps[Id(m)].chg /\ maps[Id(m)].dkk)}
     /\ nc' = [m \in Ms |-> FALSE] /\ buf' = [m \in Ms |-> {}]
     /\ uns' = [m \in Ms |-> IF anew(m) THEN FSet ELSE {}]
     /\ old' = [m \in Ms |-> {}]
     /\ dirty' = [m \in Ms |-> anew(m)]
  /\ UNCHANGED <<nk, dbs, hs>>
  /\ act' = <<"power">>

Next ==
  \/ \E m \in Ms :
       \/ New(m) \/ Upd(m) \/ Grow(m) \/ Erase(m) \/ Miss(m) \/ MissFails(m) \/ Evict(m) \/ Ask(m)
       \/ \E x \in Faults : Flush(m, x) \/ Sync(m, x, "sync")
  \/ \E x \in Faults : DbSync(x)
  \/ Reopen \/ Killed \/ PowerLost
Spec == Init /\ [][Next]_vars
Logged == (Log /\ act'[1] \notin {"evict", "missfail"}) => PrintT(ToJson([s |-> View, a |-> act', t |-> View']))

-----------------------------------------------------------------------------
(* a promise is kept by the mechanism: the files are those of the content in
   memory, which is the promised one                                        *)
PromiseOs == \A m \in Ms : maps[Id(m)].osk => (InOs(m) /\ maps[Id(m)].osc = maps[Id(m)].mem)
PromiseDisk == \A m \in Ms : maps[Id(m)].dkk /\ maps[Id(m)].chg = FALSE =>
                  OnDisk(m) /\ maps[Id(m)].dkc = maps[Id(m)].mem
(* what was promised is there after the crash *)
NothingLost == lost = {}
(* not dirty: nothing changed in this session can be lost *)
NotDirtyIsSaved == \A m \in Ms : ~ dirty[m] => InOs(m) /\ uns[m] \subseteq old[m]
(* the mark covers what the specification calls changed *)
DirtyCovers == \A m \in Ms : (maps[Id(m)].chg /\ ~ maps[Id(m)].may) => dirty[m]
=============================================================================
