----------------------------- MODULE KVGatherSet -----------------------------
(***************************************************************************)
(* The file set a gather-write leaves under a prefix: a root file named by *)
(* the prefix, maps of file names level by level, and data parts at level  *)
(* 0.  A directory is a function from file names to what the file holds:   *)
(*   [k |-> "ok", t |-> tree], [k |-> "lax", ...] (not laid down by the    *)
(*   format, may be read or refused) or [k |-> "bad", ...].                *)
(***************************************************************************)
EXTENDS KVFormat

RECURSIVE Dec10(_)
Dec10(n) == IF n < 10 THEN << 48 + n >> ELSE Append(Dec10(n \div 10), 48 + (n % 10))
Text(n) == IF n < 0 THEN << 45 >> \o Dec10(-n) ELSE Dec10(n)

kRANK == << 82, 65, 78, 75 >>
kRANKS == << 82, 65, 78, 75, 83 >>
kLEVEL == << 76, 69, 86, 69, 76 >>
kFILE == << 70, 73, 76, 69 >>
kOFFSET == << 79, 70, 70, 83, 69, 84 >>

\* the only value stored under a key: <<>> or <<text>>
ValOf(t, k) == LET c == OrEmpty(Get(t, k))
               IN  IF Cardinality(DOMAIN c) # 1 THEN << >>
                   ELSE LET v == CHOOSE x \in DOMAIN c : TRUE IN << v >>
Is(t, k, n) == ValOf(t, k) = << Text(n) >>
Ranks(t) == OrEmpty(Get(t, kRANK))

RECURSIVE PSize(_)
PSize(t) == FoldSet(LAMBDA k, acc : acc + KLen(k) + 1 + PSize(OrEmpty(t[k])), 4, DOMAIN t)

Gone == [k |-> "bad", t |-> Empty]
FileOf(F, f) == IF f \in DOMAIN F THEN F[f] ELSE Gone
\* files a map lists
ListedBy(F, p, f) ==
  LET x == FileOf(F, f) IN
  IF x.k # "ok" \/ Is(x.t, kLEVEL, 0) THEN {}
  ELSE { p \o v[1] : v \in { y \in { ValOf(OrEmpty(Ranks(x.t)[r]), kFILE) : r \in DOMAIN Ranks(x.t) } : y # << >> } }
RECURSIVE Reach(_, _, _, _)
Reach(F, p, done, new) ==
  IF new = {} THEN done
  ELSE LET d2 == done \cup new
       IN  Reach(F, p, d2, (UNION { ListedBy(F, p, f) : f \in new }) \ d2)
Reached(F, p) == Reach(F, p, {}, {p})
Parts(F, p) == { f \in Reached(F, p) : FileOf(F, f).k = "ok" /\ Is(FileOf(F, f).t, kLEVEL, 0) }

SomeBad(F, p) == \E f \in Reached(F, p) : FileOf(F, f).k = "bad"
SomeLax(F, p) == \E f \in Reached(F, p) : FileOf(F, f).k = "lax"
WrongRanks(F, p, n) == \E f \in Parts(F, p) : ~Is(FileOf(F, f).t, kRANKS, n)

\* rank keys with multiplicity over parts
PartRanks(F, p) == UNION { { << f, r >> : r \in DOMAIN Ranks(FileOf(F, f).t) } : f \in Parts(F, p) }

\* a map at level v lists only files one level below, each once, whole, beginning at offset 0
MapOK(F, p, f, v) ==
  LET t == FileOf(F, f).t  R == Ranks(t) IN
  /\ DOMAIN R # {}
  /\ \A r \in DOMAIN R :
       LET e == OrEmpty(R[r])  name == ValOf(e, kFILE) IN
       /\ Has(name) /\ Is(e, kOFFSET, 0)
       /\ (p \o name[1]) \in DOMAIN F /\ F[p \o name[1]].k = "ok" /\ Is(F[p \o name[1]].t, kLEVEL, v - 1)
       /\ \A q \in DOMAIN R \ {r} : ValOf(OrEmpty(R[q]), kFILE) # name

LevelOf(t) == LET v == ValOf(t, kLEVEL) IN
              IF v = << >> \/ \E i \in DOMAIN v[1] : ~IsDigit(v[1][i]) \/ Len(v[1]) > 2 THEN -1
              ELSE FoldLeft(LAMBDA a, d : a * 10 + (d - 48), 0, v[1])

(* complete: every rank 0..n-1 in exactly one part, everything listed is there *)
Complete(F, p, n) ==
  /\ p \in DOMAIN F /\ F[p].k = "ok"
  /\ LET R == Reached(F, p) IN
     /\ \A f \in R : /\ FileOf(F, f).k = "ok"
                     /\ Is(F[f].t, kRANKS, n)
                     /\ LevelOf(F[f].t) >= 0
                     /\ (LevelOf(F[f].t) > 0 => MapOK(F, p, f, LevelOf(F[f].t)))
     /\ LevelOf(F[p].t) >= 1
     /\ LET PR == PartRanks(F, p) IN
        /\ Cardinality(PR) = n
        /\ { x[2] : x \in PR } = { Text(i) : i \in 0..(n - 1) }
\* what rank i (its key) has in a complete set
DataOf(F, p, i) == LET f == CHOOSE x \in Parts(F, p) : Text(i) \in DOMAIN Ranks(F[x].t)
                   IN  Solid(OrEmpty(Ranks(F[f].t)[Text(i)]))

\* no file collects more than a segment beyond its largest contribution
FileBounded(t, seg) ==
  LET R == Ranks(t)
      total == FoldSet(LAMBDA r, acc : acc + PSize(OrEmpty(R[r])), 0, DOMAIN R)
      largest == FoldSet(LAMBDA r, acc : LET s == PSize(OrEmpty(R[r])) IN IF s > acc THEN s ELSE acc, 0, DOMAIN R)
  IN  total <= seg + largest
Bounded(F, p, seg) == \A f \in Reached(F, p) : FileBounded(F[f].t, seg)
=============================================================================
