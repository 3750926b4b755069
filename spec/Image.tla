------------------------------- MODULE Image -------------------------------
(***************************************************************************)
(* What the files of one map look like when they are right.  An image is    *)
(* what an independent reader found in the files (harness/src/decode.rs):   *)
(*  im.val.rec  <<off, size, len, value id>>           in file order         *)
(*  im.key.rec  <<off, size, len, rank, value record>> in file order         *)
(*  im.idx.rec  <<off, size>>                          in file order         *)
(*  im.idx.node <<record, leaf, depth, key records, node records>> preorder  *)
(*  *.free      one list of record numbers per free list                     *)
(*  im.htx.slot <<slot, key record, hash slot of the key in that record>>    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

PieceClass == <<16, 24, 32, 48, 64, 80, 96, 112, 128, 256, 384, 512, 640, 768, 896, 1024>>
NodeClass(small) ==
  IF small THEN <<16, 32, 64, 96, 128, 160, 192, 224>>
  ELSE <<256, 512, 1024, 2048, 4096, 4352, 4608, 4864>>
NodeMax(small) == IF small THEN 6 ELSE 64
NodeHalf(small) == NodeMax(small) \div 2

KeyNeed(len) == len + 16       \* size, length, key, value offset
ValNeed(len) == len + 8        \* size, length, value
NodeNeed(leaf, n) == 6 + 8 * n + (IF leaf THEN 0 ELSE 8 * (n + 1))

-----------------------------------------------------------------------------
(* the tree                                                                 *)

NRec(nd) == nd[1]
NLeaf(nd) == nd[2]
NDepth(nd) == nd[3]
NKeys(nd) == nd[4]
NDowns(nd) == nd[5]

TreeReadable(im) ==
  /\ Len(im.idx.node) > 0
  /\ \A i \in DOMAIN im.idx.node : LET nd == im.idx.node[i] IN
       /\ NRec(nd) > 0 /\ NLeaf(nd) \in {0, 1}
       /\ \A j \in DOMAIN NKeys(nd) : NKeys(nd)[j] > 0
       /\ \A j \in DOMAIN NDowns(nd) : NDowns(nd)[j] > 0

(* the in-order list of the key records of the subtree that starts at
   position i of the preorder, and the position behind it                   *)
RECURSIVE Walk(_, _), WalkDowns(_, _, _, _)
Walk(ns, i) ==
  IF i > Len(ns) THEN [s |-> <<-1>>, n |-> i]
  ELSE IF NLeaf(ns[i]) = 1 THEN [s |-> NKeys(ns[i]), n |-> i + 1]
  ELSE WalkDowns(ns, i, 1, [s |-> <<>>, n |-> i + 1])
WalkDowns(ns, i, j, acc) ==
  IF j > Len(NDowns(ns[i])) THEN acc
  ELSE LET r == Walk(ns, acc.n)
           k == IF j <= Len(NKeys(ns[i])) THEN <<NKeys(ns[i])[j]>> ELSE <<>>
       IN  WalkDowns(ns, i, j + 1, [s |-> acc.s \o r.s \o k, n |-> r.n])
InOrder(im) == Walk(im.idx.node, 1).s

RankOf(im, k) == im.key.rec[k][4]
RanksInOrder(im) == LET s == InOrder(im) IN [i \in DOMAIN s |-> RankOf(im, s[i])]

NodesOk(im) ==
  LET ns == im.idx.node
      max == NodeMax(im.small) - 1
      half == NodeHalf(im.small)
      D == {NDepth(ns[i]) : i \in {j \in DOMAIN ns : NLeaf(ns[j]) = 1}}
  IN  /\ Cardinality(D) = 1
      /\ \A i \in DOMAIN ns :
           /\ Len(NKeys(ns[i])) <= max
           /\ NLeaf(ns[i]) = 0 => Len(NDowns(ns[i])) = Len(NKeys(ns[i])) + 1
           /\ i > 1 => Len(NKeys(ns[i])) + 1 >= half
           /\ (i = 1 /\ Len(NKeys(ns[i])) = 0) => (NLeaf(ns[i]) = 1)

(* the stored index is a well formed search tree over exactly these ranks   *)
TreeOk(im, ranks) ==
  /\ TreeReadable(im)
  /\ NodesOk(im)
  /\ RanksInOrder(im) = ranks

-----------------------------------------------------------------------------
(* space                                                                    *)

Tiled(rec, from, len) ==
  IF Len(rec) = 0 THEN len = from
  ELSE rec[1][1] = from /\ rec[Len(rec)][1] + rec[Len(rec)][2] = len

(* the class whose free list holds a record of a size; 0: no such size      *)
ClassOf(cls, size) ==
  LET n == Len(cls)
      S == {i \in 1 .. n : cls[i] = size}
  IN  IF S # {} THEN CHOOSE i \in S : TRUE
      ELSE IF size > cls[n] /\ size % 128 = 0 THEN n ELSE 0

Flat(ss) == FlattenSeq(ss)

(* every record is used exactly once or free exactly once *)
ExactlyOnce(n, used, free) ==
  LET all == used \o free IN
  /\ Len(all) = n
  /\ ToSet(all) = 1 .. n

FreeOk(f, cls) ==
  \A c \in DOMAIN f.free : \A i \in DOMAIN f.free[c] :
    /\ f.free[c][i] > 0
    /\ f.free[c][i] <= Len(f.rec)
    /\ ClassOf(cls, f.rec[f.free[c][i]][2]) = c
SizesOk(f, cls) == \A i \in DOMAIN f.rec : ClassOf(cls, f.rec[i][2]) > 0

UsedKeys(im) == Flat([i \in DOMAIN im.idx.node |-> NKeys(im.idx.node[i])])
UsedNodes(im) == [i \in DOMAIN im.idx.node |-> NRec(im.idx.node[i])]

SpaceOk(im) ==
  /\ TreeReadable(im)
  /\ Tiled(im.val.rec, 192, im.val.len)
  /\ Tiled(im.key.rec, 192, im.key.len)
  /\ Tiled(im.idx.rec, 128, im.idx.len)
  /\ SizesOk(im.val, PieceClass) /\ FreeOk(im.val, PieceClass)
  /\ SizesOk(im.key, PieceClass) /\ FreeOk(im.key, PieceClass)
  /\ SizesOk(im.idx, NodeClass(im.small)) /\ FreeOk(im.idx, NodeClass(im.small))
  /\ LET uk == UsedKeys(im)
         un == UsedNodes(im)
         uv == [i \in DOMAIN uk |-> im.key.rec[uk[i]][5]]
     IN  /\ \A i \in DOMAIN uv : uv[i] > 0
         /\ ExactlyOnce(Len(im.key.rec), uk, Flat(im.key.free))
         /\ ExactlyOnce(Len(im.val.rec), uv, Flat(im.val.free))
         /\ ExactlyOnce(Len(im.idx.rec), un, Flat(im.idx.free))
         /\ \A i \in DOMAIN uk : KeyNeed(im.key.rec[uk[i]][3]) <= im.key.rec[uk[i]][2]
         /\ \A i \in DOMAIN uv : ValNeed(im.val.rec[uv[i]][3]) <= im.val.rec[uv[i]][2]
         /\ \A i \in DOMAIN im.idx.node : LET nd == im.idx.node[i] IN
              NodeNeed(NLeaf(nd) = 1, Len(NKeys(nd))) <= im.idx.rec[NRec(nd)][2]

-----------------------------------------------------------------------------
(* the documented format, and the content that it says                      *)

HtSize == 16777216

HeadsOk(im, t) ==
  /\ im.val.sig /\ im.val.t = t
  /\ im.key.sig /\ im.key.t = t
  /\ im.idx.sig /\ im.idx.t = t
  /\ im.idx.top \in DOMAIN im.idx.rec

ContentOk(im, c) ==
  /\ TreeReadable(im)
  /\ LET s == InOrder(im)
         ranks == SelectSeq([i \in 1 .. Len(c) |-> i], LAMBDA k : c[k] # 0)
     IN  /\ [i \in DOMAIN s |-> RankOf(im, s[i])] = ranks
         /\ \A i \in DOMAIN s : LET v == im.key.rec[s[i]][5] IN
              /\ v > 0
              /\ im.val.rec[v][4] = c[ranks[i]]

(* a hash slot refers to a live key record whose key belongs to the slot    *)
HtxOk(im, t) ==
  im.htx.n = 0 \/
  /\ im.htx.n = HtSize /\ im.htx.len = 128 + 8 * HtSize
  /\ im.htx.sig /\ im.htx.t = t
  /\ LET live == ToSet(UsedKeys(im)) IN
     \A i \in DOMAIN im.htx.slot : LET s == im.htx.slot[i] IN
        s[2] \in live /\ s[3] = s[1]
=============================================================================
