------------------------------- MODULE Create -------------------------------
(***************************************************************************)
(* How a new map comes into being.  Its four files are opened one after the *)
(* other; a file without content gets its header.  The process can be       *)
(* killed between any two effects on the files, and again while the map is  *)
(* opened the next time.                                                    *)
(*                                                                          *)
(* A file is "absent", "empty", "part" (the hash index: header, but not its *)
(* whole length), "done", or "bad" (a length without the header: the next   *)
(* opening fails on it).                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Bug     \* none, lenfirst, nocomplete, noflush, clean

Files == <<"key", "val", "idx", "htx">>
FSet == ToSet(Files)

VARIABLES
  fs,      \* file -> what the system has
  buf,     \* files whose header is only in a buffer of the process
  pc,      \* <<"closed">>, <<"file", i, step>>, <<"save", i>>, <<"open">>, <<"failed">>
  dirty,   \* the mark of the open map
  synced,  \* a sync of the open map has returned Ok
  lost     \* a kill lost what a sync had promised
vars == <<fs, buf, pc, dirty, synced, lost>>

Init ==
  /\ fs = [f \in FSet |-> "absent"]
  /\ buf = {} /\ pc = <<"closed">> /\ dirty = FALSE /\ synced = FALSE /\ lost = FALSE

Start ==
  /\ pc = <<"closed">>
  /\ pc' = <<"file", 1, "create">>
  (* any file is missing or has no content: the map is new *)
  /\ dirty' = (Bug # "clean" /\ \E f \in FSet : fs[f] \in {"absent", "empty"})
  /\ UNCHANGED <<fs, buf, synced, lost>>

NextFile(i) == IF i < Len(Files) THEN <<"file", i + 1, "create">>
               ELSE IF Bug = "noflush" THEN <<"open">> ELSE <<"save", 1>>
File(i, step) ==
  LET f == Files[i]
      set(s) == fs' = [fs EXCEPT ![f] = s]
      go(p) == pc' = p
      stay == UNCHANGED <<dirty, synced, lost>>
  IN  CASE step = "create" ->
             /\ set(IF fs[f] = "absent" THEN "empty" ELSE fs[f])
             /\ go(<<"file", i, "init">>) /\ UNCHANGED buf /\ stay
        [] step = "init" /\ fs[f] = "bad" ->
             /\ go(<<"failed">>) /\ UNCHANGED <<fs, buf>> /\ stay
        [] step = "init" /\ fs[f] = "done" ->
             /\ go(NextFile(i)) /\ UNCHANGED <<fs, buf>> /\ stay
        [] step = "init" /\ fs[f] = "part" ->      \* complete the length
             /\ IF Bug = "nocomplete" THEN UNCHANGED fs ELSE set("done")
             /\ go(NextFile(i)) /\ UNCHANGED buf /\ stay
        [] step = "init" /\ fs[f] = "empty" /\ f # "htx" ->
             /\ buf' = buf \cup {f} /\ go(NextFile(i)) /\ UNCHANGED fs /\ stay
        [] step = "init" /\ fs[f] = "empty" /\ f = "htx" ->
             /\ IF Bug = "lenfirst" THEN set("bad") /\ buf' = buf \cup {f} ELSE set("part") /\ UNCHANGED buf
             /\ go(<<"file", i, "length">>) /\ stay
        [] step = "length" ->
             /\ IF fs[f] = "part" THEN set("done") ELSE UNCHANGED fs
             /\ go(NextFile(i)) /\ UNCHANGED buf /\ stay
WriteHeader(f) ==
  /\ fs' = IF f \in buf THEN [fs EXCEPT ![f] = "done"] ELSE fs
  /\ buf' = buf \ {f}
Opening ==
  \/ pc[1] = "file" /\ File(pc[2], pc[3])
  \/ /\ pc[1] = "save"
     /\ IF dirty THEN WriteHeader(Files[pc[2]]) ELSE UNCHANGED <<fs, buf>>
     /\ pc' = IF pc[2] < Len(Files) THEN <<"save", pc[2] + 1>> ELSE <<"open">>
     /\ UNCHANGED <<dirty, synced, lost>>

Sync ==
  /\ pc = <<"open">>
  /\ IF dirty THEN fs' = [f \in FSet |-> IF f \in buf THEN "done" ELSE fs[f]] /\ buf' = {}
     ELSE UNCHANGED <<fs, buf>>
  /\ dirty' = FALSE /\ synced' = TRUE
  /\ UNCHANGED <<pc, lost>>
Close ==
  /\ pc = <<"open">>
  /\ fs' = [f \in FSet |-> IF f \in buf THEN "done" ELSE fs[f]] /\ buf' = {}
  /\ pc' = <<"closed">> /\ dirty' = FALSE /\ synced' = FALSE /\ UNCHANGED lost
Kill ==
  /\ lost' = (lost \/ (synced /\ buf # {}))
  /\ buf' = {} /\ pc' = <<"closed">> /\ dirty' = FALSE /\ synced' = FALSE
  /\ UNCHANGED fs

Next == Start \/ Opening \/ Sync \/ Close \/ Kill
Spec == Init /\ [][Next]_vars

(* opening again never fails *)
OpensAgain == pc # <<"failed">>
(* an open map is complete: what is not in a file is in a buffer *)
OpenIsWhole == pc = <<"open">> => \A f \in FSet : fs[f] = "done" \/ f \in buf
(* once open, a kill leaves a whole map *)
OpenIsWritten == pc = <<"open">> => buf = {}
NothingLost == ~ lost
(* a header is never undone *)
Monotone == [][\A f \in FSet : fs[f] = "done" => fs'[f] = "done"]_vars
=============================================================================
