------------------------------ MODULE TraceDb ------------------------------
(***************************************************************************)
(* Replays a recorded execution of the real library (one JSON event per     *)
(* line, file named by the environment variable TRACE) through the actions  *)
(* of SiameseDb and judges the images of the files with Image and Stats.    *)
(*                                                                          *)
(* Each observation which the specification does not allow has one or more  *)
(* tags.  Scope is the set of tags of the property that is checked: a       *)
(* forbidden observation with a tag in Scope is printed as a violation;     *)
(* after a forbidden effect (whatever the tag) the state of the real system *)
(* is not known any more and the rest of the scenario is skipped.           *)
(***************************************************************************)
EXTENDS SiameseDb, Image, Stats, IOUtils, Json

CONSTANT Scope

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  l,      \* next event
  void,   \* the rest of the scenario is skipped
  kl, vl, \* lengths of the keys (by rank) and of the values (by identity)
  memd,   \* database handles which are in-memory databases
  obs,    \* map id -> what is known of its dirtiness: "T", "F", "?"
  snap,   \* files remembered: path, and whether they must stay the same
  last,   \* map id -> [i: event of the last image, n: elementary writes since]
  base    \* map id -> what the files may need at the peak of the data

auxVars == <<void, kl, vl, memd, obs, snap, last, base>>
vars == <<dbVars, l, auxVars>>

NoSnap == [p |-> "", clean |-> FALSE, quiet |-> FALSE]

Init ==
  /\ nk = 0 /\ maps = <<>> /\ dbs = <<>> /\ hs = <<>>
  /\ l = 1 /\ void = TRUE
  /\ kl = <<>> /\ vl = <<>> /\ memd = {} /\ obs = <<>>
  /\ snap = NoSnap /\ last = <<>> /\ base = <<>>

-----------------------------------------------------------------------------
If(c, tag) == IF c THEN {tag} ELSE {}

Content(h) == maps[hs[h]].mem
IdOf(p, n) == <<p, n, "">>
IsFile(d) == d \notin memd

(* not dirty: nothing that was changed since the map was opened can be lost *)
NotDirtyOk(m) ==
  /\ m.osk /\ m.osc = m.mem
  /\ (m.chg \/ m.dkk) => (m.dkk /\ m.dkc = m.mem)

(* after a successful sync nothing may be left unsynced, if all of it was
   durable before or something was to be saved                              *)
MustBeClean(m) == m.chg \/ m.dkk

OfDb(d) == {id \in DOMAIN maps : InDb(id, d) /\ maps[id].file}

BadImg(ev) ==
  LET id == IdOf(ev.p, ev.n)
      disk == ev.kind = "disk"
      tag == IF ev.kind = "create" THEN "create" ELSE ev.kind
  IN  IF id \notin DOMAIN maps THEN {}
      ELSE LET m == maps[id]
               known == IF disk THEN m.dkk ELSE m.osk
               c == IF disk THEN m.dkc ELSE m.osc
           IN  If(known /\ ~ (ev.ok /\ ev.use /\ ev.d = c /\ ev.kv = Entries(c)), tag)

BadImage(ev) ==
  LET id == IdOf(ev.p, ev.n) IN
  IF id \notin DOMAIN maps THEN {}
  ELSE LET m == maps[id]
           pre == IF id \in DOMAIN last THEN last[id] ELSE [i |-> 0, n |-> 0]
       IN  IF ~ m.osk THEN {}
           ELSE If(~ TreeOk(ev, Ranks(m.osc)), "tree")
           \cup If(~ SpaceOk(ev), "acct")
           \cup If(~ (HeadsOk(ev, m.typ) /\ ContentOk(ev, m.osc) /\ LengthsOk(ev, kl, vl)), "fmt")
           \cup If(~ HtxOk(ev, m.typ), "htx")
           \cup If(pre.i > 0 /\ ~ GrowOk(Trace[pre.i], ev, pre.n), "grow")

BadStats(ev) ==
  LET id == hs[ev.h]
      c == maps[id].mem
      pre == IF id \in DOMAIN last THEN last[id] ELSE [i |-> 0, n |-> 1]
  IN  IF ~ ev.ok THEN {"stat"}
      ELSE If(~ StatsContentOk(ev, c, kl, vl), "stat")
      \cup If(pre.i > 0 /\ pre.n = 0 /\ ~ StatsImageOk(ev, Trace[pre.i]), "stat")

BadSave(ev) ==
  LET m == maps[hs[ev.h]] IN
     If(ev.fired > 0 /\ ev.ok, "fault")
  \cup If(ev.fired = 0 /\ ~ ev.ok, "sync")
  \cup If(ev.e = "sync" /\ ev.ok /\ m.file /\ MustBeClean(m) /\ ev.un # <<>>, "sync")

Bad(ev) ==
  CASE ev.e = "open" -> If(~ ev.ok, "open")
    [] ev.e \in {"mo", "try"} ->
         LET r == Refused(ev.D, ev.n, ev.t, IsFile(ev.D)) IN
         If(r /\ ev.ok, "type") \cup If(~ r /\ ~ ev.ok, "open")
    [] ev.e = "put" -> If(~ ev.ok, "res")
    [] ev.e \in {"get", "del"} -> If(ev.r # Content(ev.h)[ev.k], "res")
    [] ev.e = "bput" -> If(~ ev.ok, "bulk")
    [] ev.e = "bget" -> If(~ ev.ok \/ ev.r # BulkGetR(Content(ev.h), ev.ks), "bulk")
    [] ev.e = "bdel" -> If(~ ev.ok \/ ev.r # BulkDelR(Content(ev.h), ev.ks), "bulk")
    [] ev.e = "iter" ->
         LET x == Entries(Content(ev.h))
             n == IF ev.part < 0 \/ ev.part > Len(x) THEN Len(x) ELSE ev.part
         IN  If(ev.kv # SubSeq(x, 1, n) \/ ~ ev.end, "iter")
    [] ev.e = "dump" -> If(ev.d # Content(ev.h), "res")
    [] ev.e \in {"flush", "sync"} -> BadSave(ev)
    [] ev.e = "fill" -> If(~ ev.ok, "fill")
    [] ev.e = "dsync" ->
         If(ev.fired > 0 /\ ev.ok, "fault") \cup If(ev.fired = 0 /\ ~ ev.ok, "sync")
         \cup If(ev.ok /\ \E i \in DOMAIN ev.un : \E id \in OfDb(ev.D) :
                   id[2] = ev.un[i][1] /\ MustBeClean(maps[id]), "sync")
    [] ev.e = "dirty" ->
         LET id == hs[ev.h] IN
         If(~ ev.r /\ ~ maps[id].may /\ ~ NotDirtyOk(maps[id]), "dirty")
         \cup If(obs[id] = "T" /\ ~ ev.r, "ro") \cup If(obs[id] = "F" /\ ev.r, "ro")
    [] ev.e = "img" -> BadImg(ev)
    [] ev.e = "image" -> BadImage(ev)
    [] ev.e = "stats" -> BadStats(ev)
    [] ev.e = "len" ->
         LET id == IdOf(ev.p, ev.n) IN
         If(ev.as \in {"base", "cmp"} /\ id \in DOMAIN base /\ LET b == base[id] IN
              \/ ev.key > b.key \/ ev.val > b.val \/ ev.idx > PeakIdx(ev.small, b.n)
              \/ ev.as = "cmp" /\ b.idx >= 0 /\ Ranks(maps[id].mem) = <<>> /\ ev.idx > b.idx, "grow")
    [] ev.e = "cmp" ->
         If(snap.p = ev.p /\ snap.clean /\ ~ ev.same, "ro")
         \cup If(snap.p = ev.p /\ snap.clean /\ snap.quiet /\ ev.wr # 0, "ro")
    (* an operation which reports, by an error or a panic, that a call of the
       system failed: allowed if one did                                     *)
    [] ev.e = "rfail" -> If(ev.fired = 0, "rfault")
    [] ev.e = "panic" -> {"panic"}
    [] OTHER -> {}

(* an observation: if it is wrong, the state is as before *)
Looks == {"get", "bget", "iter", "dump", "dirty", "img", "image", "stats", "len", "cmp", "fill", "rfail"}

-----------------------------------------------------------------------------
(* the effect of an event on the abstract state *)
DbStep(ev) ==
  CASE ev.e = "open" -> OpenDb(ev.D, ev.p)
    [] ev.e = "dclone" -> CloneDb(ev.D, ev.o)
    [] ev.e = "ddrop" -> DropDb(ev.D)
    [] ev.e = "mo" -> OpenMap(ev.h, ev.D, ev.n, ev.t, IsFile(ev.D))
    [] ev.e = "try" -> IF ev.ok THEN TouchMap(ev.D, ev.n, ev.t, IsFile(ev.D))
                       ELSE RefuseMap(ev.D, ev.n, ev.t, IsFile(ev.D))
    [] ev.e = "clone" -> CloneMap(ev.h, ev.o)
    [] ev.e = "drop" -> DropMap(ev.h)
    [] ev.e = "close" -> CloseAll
    [] ev.e = "put" -> Put(ev.h, ev.k, ev.v)
    [] ev.e = "del" -> Del(ev.h, ev.k)
    [] ev.e = "bput" -> BulkPut(ev.h, ev.ks, ev.vs)
    [] ev.e = "bdel" -> BulkDel(ev.h, ev.ks)
    [] ev.e = "flush" -> IF ev.ok THEN FlushOk(ev.h) ELSE SaveFails(ev.h)
    [] ev.e = "sync" -> IF ev.ok THEN SyncOk(ev.h) ELSE SaveFails(ev.h)
    [] ev.e = "dsync" -> IF ev.ok THEN DbSyncOk(ev.D) ELSE DbSyncFails(ev.D)
    [] ev.e \in {"get", "bget", "iter", "dump", "fill", "stats"} -> Read(ev.h)
    [] ev.e = "rfail" -> IF ev.op \in {"mapopen", "trymap"} THEN UNCHANGED dbVars ELSE Read(ev.h)
    [] ev.e = "dirty" -> AskDirty(ev.h, ev.r)
    [] ev.e = "known" ->
         /\ maps' = With(maps, IdOf(ev.p, ev.n),
                      [NewMap(ev.t, TRUE) EXCEPT !.mem = ev.d, !.osc = ev.d, !.opn = FALSE,
                                                 !.chg = FALSE, !.dkk = FALSE])
         /\ UNCHANGED <<nk, dbs, hs>>
    [] OTHER -> UNCHANGED dbVars

(* elementary writes of an event, on which map, and its path *)
Writes(ev) ==
  CASE ev.e \in {"put", "del"} -> 1
    [] ev.e \in {"bput", "bdel"} -> Len(ev.ks)
    [] OTHER -> 0

ObsNext(ev) ==
  LET o == [id \in DOMAIN maps' |-> IF id \in DOMAIN obs THEN obs[id] ELSE "?"] IN
  CASE ev.e \in {"put", "bput", "bdel", "flush"} /\ ~ (ev.e = "flush" /\ ~ ev.ok) ->
         [o EXCEPT ![hs[ev.h]] = "?"]
    [] ev.e = "del" -> [o EXCEPT ![hs[ev.h]] = "?"]
    [] ev.e \in {"flush", "sync"} /\ ~ ev.ok -> [o EXCEPT ![hs[ev.h]] = "T"]
    [] ev.e = "sync" -> [o EXCEPT ![hs[ev.h]] = "?"]
    [] ev.e = "dirty" -> [o EXCEPT ![hs[ev.h]] = IF ev.r THEN "T" ELSE "F"]
    [] ev.e = "dsync" /\ ev.ok ->
         [id \in DOMAIN o |-> IF id \in OfDb(ev.D) THEN "F" ELSE o[id]]
    [] ev.e = "dsync" ->
         [id \in DOMAIN o |-> IF id \in OfDb(ev.D) THEN "?" ELSE o[id]]
    [] ev.e \in {"drop", "ddrop", "close", "kill", "power"} ->
         [id \in DOMAIN o |-> IF maps'[id].opn THEN o[id] ELSE "?"]
    [] OTHER -> o

AllClean(p) == \A id \in DOMAIN maps : (id[1] = p /\ maps[id].opn) => ~ maps[id].chg
SnapNext(ev) ==
  CASE ev.e = "snap" -> [p |-> ev.p, clean |-> AllClean(ev.p), quiet |-> TRUE]
    [] Writes(ev) > 0 ->
         IF hs[ev.h][1] = snap.p THEN [snap EXCEPT !.clean = FALSE] ELSE snap
    [] ev.e \in {"flush", "sync", "dsync", "drop", "ddrop", "close"} ->
         [snap EXCEPT !.quiet = FALSE]
    [] ev.e \in {"mo", "try"} ->
         IF dbs[ev.D] # snap.p THEN snap
         ELSE [snap EXCEPT !.quiet = FALSE,
                           !.clean = @ /\ MapId(ev.D, ev.n, ev.t, IsFile(ev.D)) \in DOMAIN maps]
    [] ev.e \in {"kill", "power", "fixture"} -> NoSnap
    [] OTHER -> snap

LastNext(ev) ==
  CASE ev.e = "image" -> With(last, IdOf(ev.p, ev.n), [i |-> l, n |-> 0])
    [] Writes(ev) > 0 ->
         IF hs[ev.h] \in DOMAIN last
         THEN [last EXCEPT ![hs[ev.h]].n = @ + Writes(ev)] ELSE last
    [] ev.e \in {"kill", "power", "fixture"} -> <<>>
    [] OTHER -> last

Apply(ev) ==
  /\ DbStep(ev)
  /\ memd' = CASE ev.e = "open" -> IF ev.mem THEN memd \cup {ev.D} ELSE memd \ {ev.D}
               [] ev.e = "dclone" -> IF ev.o \in memd THEN memd \cup {ev.D} ELSE memd \ {ev.D}
               [] OTHER -> memd
  /\ obs' = ObsNext(ev)
  /\ snap' = SnapNext(ev)
  /\ last' = LastNext(ev)
  /\ base' = IF ev.e # "len" THEN base
             ELSE LET id == IdOf(ev.p, ev.n) IN
               CASE ev.as = "peak" -> With(base, id, PeakOf(maps[id].mem, kl, vl))
                 [] ev.as = "base" /\ Ranks(maps[id].mem) = <<>> -> [base EXCEPT ![id].idx = ev.idx]
                 [] OTHER -> base
  /\ UNCHANGED <<void, kl, vl>>

Skip == UNCHANGED <<dbVars, auxVars>>
GoVoid == void' = TRUE /\ UNCHANGED <<dbVars, kl, vl, memd, obs, snap, last, base>>

Reset ==
  /\ nk' = 0 /\ maps' = <<>> /\ dbs' = <<>> /\ hs' = <<>>
  /\ void' = FALSE
  /\ kl' = <<>> /\ vl' = <<>> /\ memd' = {} /\ obs' = <<>>
  /\ snap' = NoSnap /\ last' = <<>> /\ base' = <<>>

Universe(ev) ==
  /\ nk' = ev.nk /\ kl' = ev.kl /\ vl' = ev.vl
  /\ UNCHANGED <<maps, dbs, hs, void, memd, obs, snap, last, base>>

Crash(ev) ==
  IF ev.e = "kill" /\ KillOk THEN Kill
  ELSE ev.e = "power" /\ PowerOk /\ PowerLoss
CrashOk(ev) == (ev.e = "kill" /\ KillOk) \/ (ev.e = "power" /\ PowerOk)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.e = "reset" THEN Reset
     ELSE IF void THEN Skip
     ELSE IF ev.e = "uni" THEN Universe(ev)
     ELSE IF ev.e \in {"kill", "power"} THEN
       IF ~ CrashOk(ev) THEN GoVoid
       ELSE /\ Crash(ev)
            /\ obs' = ObsNext(ev) /\ snap' = NoSnap /\ last' = <<>>
            /\ UNCHANGED <<void, kl, vl, memd, base>>
     ELSE LET b == Bad(ev) IN
       IF b = {} THEN Apply(ev)
       ELSE IF b \cap Scope # {} THEN PrintT(<<"VIOL", l, b \cap Scope>>) /\ GoVoid
       ELSE IF ev.e \in Looks THEN Apply(ev)
       ELSE GoVoid

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* checked on the way: the state that the trace drives through is one of the
   design                                                                   *)
TraceTypeOK == TypeOK
(* all events were consumed *)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
