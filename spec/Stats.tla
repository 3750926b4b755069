------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* What the check and statistics functions have to answer: for a content,   *)
(* and for an image of the files; and when a file is allowed to grow.       *)
(***************************************************************************)
EXTENDS Image, FiniteSetsExt

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})

(* histogram of a sequence of numbers, by ascending value *)
Hist(s) ==
  LET vs == SetToSortSeq(ToSet(s), <) IN
  [i \in DOMAIN vs |-> <<vs[i], Count(s, vs[i])>>]

(* number of records per size class *)
PerClass(cls, sizes) ==
  LET k == [i \in DOMAIN sizes |-> ClassOf(cls, sizes[i])] IN
  [c \in DOMAIN cls |-> <<cls[c], Count(k, c)>>]
FreePerClass(cls, free) == [c \in DOMAIN cls |-> <<cls[c], Len(free[c])>>]

StatsContentOk(ev, c, kl, vl) ==
  LET r == SelectSeq([i \in 1 .. Len(c) |-> i], LAMBDA k : c[k] # 0) IN
  /\ ev.bal /\ ev.mst /\ ev.dense
  /\ ev.kl = Hist([i \in DOMAIN r |-> kl[r[i]]])
  /\ ev.vl = Hist([i \in DOMAIN r |-> vl[c[r[i]]]])
  /\ Len(ev.gk) = Len(r)
  /\ ev.plain => ev.gr = r

StatsImageOk(ev, im) ==
  TreeReadable(im) =>
  LET uk == InOrder(im)
      uv == [i \in DOMAIN uk |-> im.key.rec[uk[i]][5]]
      un == UsedNodes(im)
      cls == NodeClass(im.small)
      ksz == [i \in DOMAIN uk |-> im.key.rec[uk[i]][2]]
      vsz == [i \in DOMAIN uv |-> im.val.rec[uv[i]][2]]
      nsz == [i \in DOMAIN un |-> im.idx.rec[un[i]][2]]
  IN  (\A i \in DOMAIN uv : uv[i] > 0) =>
      /\ ev.depth = Max({NDepth(im.idx.node[i]) : i \in DOMAIN im.idx.node})
      /\ ev.fn = FreePerClass(cls, im.idx.free)
      /\ ev.fk = FreePerClass(PieceClass, im.key.free)
      /\ ev.fv = FreePerClass(PieceClass, im.val.free)
      /\ ev.uk = PerClass(PieceClass, ksz)
      /\ ev.uv = PerClass(PieceClass, vsz)
      /\ ev.un = PerClass(cls, nsz)
      /\ ev.ks = Hist(ksz)
      /\ ev.vs = Hist(vsz)
      /\ ev.kc = Hist([i \in DOMAIN im.idx.node |-> Len(NKeys(im.idx.node[i]))])
      /\ ev.gk = [i \in DOMAIN uk |-> im.key.rec[uk[i]][1]]
      /\ (ev.full /\ im.htx.n > 0) =>
           /\ ev.hsz = im.htx.n
           /\ ev.hn = Len(im.htx.slot)
           /\ ev.hr = (ev.hn * 1000) \div ev.hsz

-----------------------------------------------------------------------------
(* lengths of the live records are those of the keys and values they hold *)
LengthsOk(im, kl, vl) ==
  LET s == InOrder(im) IN
  \A i \in DOMAIN s : LET k == im.key.rec[s[i]] IN
    /\ k[4] > 0 /\ k[3] = kl[k[4]]
    /\ k[5] > 0 /\ im.val.rec[k[5]][4] > 0
    /\ im.val.rec[k[5]][3] = vl[im.val.rec[k[5]][4]]

-----------------------------------------------------------------------------
(* A file has grown only if there was no free record of the size: pre and
   post are images, n elementary writes happened in between, and each of them
   takes at most "takes" records of a file.                                 *)
Appended(pre, post) ==
  {i \in DOMAIN post.rec : post.rec[i][1] >= pre.len}
FreeFor(pre, cls, size) ==
  LET c == ClassOf(cls, size) IN
  IF c = 0 THEN 0
  ELSE IF c < Len(cls) THEN Len(pre.free[c])
  ELSE Cardinality({j \in DOMAIN pre.free[c] :
          pre.free[c][j] > 0 /\ pre.rec[pre.free[c][j]][2] >= size})
NotWasteful(pre, post, cls, takes) ==
  \A i \in Appended(pre, post) : FreeFor(pre, cls, post.rec[i][2]) < takes

Depth(im) == Max({NDepth(im.idx.node[i]) : i \in DOMAIN im.idx.node})
GrowOk(pre, post, n) ==
  /\ NotWasteful(pre.val, post.val, PieceClass, n)
  /\ NotWasteful(pre.key, post.key, PieceClass, n)
  /\ LET d == IF Depth(pre) > Depth(post) THEN Depth(pre) ELSE Depth(post) IN
     NotWasteful(pre.idx, post.idx, NodeClass(post.small), n * (4 * d + 6))

(* Cycles of the same data: every key has the same value in each cycle, so
   the number of live records of a size never exceeds that at the peak.  A
   size with its own free list then needs no more records than that; large
   records share a list (first fit): a record of size s is only added when
   no free one is at least s, so at most "peak" records of each size.       *)
PieceRound(need) ==
  LET n == Len(PieceClass)
      S == {i \in 1 .. n - 1 : PieceClass[i] >= need}
  IN  IF S # {} THEN PieceClass[CHOOSE i \in S : \A j \in S : i <= j]
      ELSE ((need + 128) \div 128) * 128
PeakLen(needs) ==
  LET sz == [i \in DOMAIN needs |-> PieceRound(needs[i])]
      large == SelectSeq(sz, LAMBDA x : x >= PieceClass[Len(PieceClass)])
      small == SelectSeq(sz, LAMBDA x : x < PieceClass[Len(PieceClass)])
      sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
  IN  192 + sum(small) + Len(large) * FoldSet(LAMBDA x, a : a + x, 0, ToSet(large))
(* n keys need at most so many nodes at a time, some more within a step *)
PeakIdx(small, n) ==
  LET half == NodeHalf(small)
      top == NodeNeed(FALSE, NodeMax(small))
      used == SelectSeq(NodeClass(small), LAMBDA x : x < 2 * top)
  IN  128 + (7 + n \div (half - 1)) * FoldLeft(LAMBDA a, x : a + x, 0, used)
(* c: content at the peak *)
PeakOf(c, kl, vl) ==
  LET r == SelectSeq([i \in 1 .. Len(c) |-> i], LAMBDA k : c[k] # 0) IN
  [key |-> PeakLen([i \in DOMAIN r |-> KeyNeed(kl[r[i]])]),
   val |-> PeakLen([i \in DOMAIN r |-> ValNeed(vl[c[r[i]]])]),
   n |-> Len(r), idx |-> -1]
=============================================================================
