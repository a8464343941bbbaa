------------------------------ MODULE KVFormat ------------------------------
(***************************************************************************)
(* The packed form of trees and the file format, at the level of bytes.    *)
(***************************************************************************)
EXTENDS KVBase, Bitwise

(*------------------------------ CRC-32 ------------------------------------*)
\* 32-bit words are <<high 16 bits, low 16 bits>>
Xor2(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
Shr1(a) == << a[1] \div 2, (a[2] \div 2) + (a[1] % 2) * 32768 >>
Shr8(a) == << a[1] \div 256, (a[2] \div 256) + (a[1] % 256) * 256 >>
Poly == << 60856, 33568 >>              \* edb8 8320
RECURSIVE CrcEntry(_, _)
CrcEntry(c, n) == IF n = 0 THEN c
                  ELSE CrcEntry(IF c[2] % 2 = 1 THEN Xor2(Shr1(c), Poly) ELSE Shr1(c), n - 1)
\* the table, written out because TLC would recompute it for every byte
CrcTable1 == <<
  <<0,0>>, <<30471,12438>>, <<60942,24876>>, <<39177,20922>>, <<1901,50201>>, <<28778,62607>>, <<59747,42293>>, <<40548,38307>>,
  <<3803,34866>>, <<31196,47268>>, <<57557,59678>>, <<38866,55688>>, <<2486,19499>>, <<32433,31933>>, <<59320,11527>>, <<37055,7569>>,
  <<7607,4196>>, <<27312,8434>>, <<62393,29000>>, <<33982,16862>>, <<6874,54397>>, <<28125,58603>>, <<62676,46417>>, <<33747,34247>>,
  <<4972,38998>>, <<25707,43200>>, <<64866,63866>>, <<35429,51692>>, <<5121,23631>>, <<25350,27865>>, <<64015,15715>>, <<36104,3573>>,
  <<15214,8392>>, <<19561,4190>>, <<54624,16868>>, <<41575,29042>>, <<15363,58577>>, <<19204,54343>>, <<53773,34301>>, <<42250,46443>>,
  <<13749,43258>>, <<17074,39020>>, <<56251,51670>>, <<44220,63808>>, <<13016,27875>>, <<17887,23669>>, <<56534,3535>>, <<43985,15705>>,
  <<9945,12460>>, <<20958,58>>, <<51415,20864>>, <<49104,24854>>, <<8628,62645>>, <<22195,50211>>, <<53178,38297>>, <<47293,42255>>,
  <<10242,47262>>, <<24325,34824>>, <<50700,55730>>, <<45323,59684>>, <<12143,31879>>, <<22632,19473>>, <<49505,7595>>, <<46694,11581>>,
  <<30428,16784>>, <<475,28934>>, <<39122,8380>>, <<61397,4138>>, <<29105,34185>>, <<1718,46367>>, <<40895,58533>>, <<59576,54323>>,
  <<30727,51618>>, <<3840,63796>>, <<38409,43150>>, <<57614,38936>>, <<32618,3515>>, <<2157,15661>>, <<37220,27799>>, <<58979,23553>>,
  <<27499,20980>>, <<7276,24930>>, <<34149,12504>>, <<62050,78>>, <<27654,38381>>, <<6913,42363>>, <<33288,62657>>, <<62735,50263>>,
  <<26032,55750>>, <<4791,59728>>, <<35774,47338>>, <<64697,34940>>, <<25309,7647>>, <<5594,11593>>, <<36051,31987>>, <<64468,19557>>,
  <<19890,24920>>, <<15029,20942>>, <<41916,116>>, <<54459,12514>>, <<19167,42305>>, <<15832,38359>>, <<42193,50285>>, <<54230,62715>>,
  <<17257,59754>>, <<13422,55804>>, <<44391,34886>>, <<55904,47312>>, <<17412,11635>>, <<13059,7653>>, <<43530,19551>>, <<56589,31945>>,
  <<20485,28988>>, <<9986,16810>>, <<48651,4112>>, <<51468,8326>>, <<22376,46373>>, <<8303,34227>>, <<47462,54281>>, <<52833,58527>>,
  <<24286,63758>>, <<10713,51608>>, <<45264,38946>>, <<51159,43188>>, <<22963,15639>>, <<11956,3457>>, <<47037,23611>>, <<49338,27821>>,
  <<60856,33568>>, <<39615,46006>>, <<950,57868>>, <<29873,53914>>, <<60117,18233>>, <<40402,30639>>, <<1243,9749>>, <<29660,5763>>,
  <<58211,2834>>, <<37988,15236>>, <<3437,27198>>, <<31338,23208>>, <<58382,53003>>, <<37641,65437>>, <<2560,44583>>, <<32007,40625>>,
  <<61455,37700>>, <<34568,41938>>, <<7681,62056>>, <<26886,49918>>, <<63330,22365>>, <<32869,26571>>, <<6508,13937>>, <<28267,1767>>,
  <<65236,7030>>, <<35283,11232>>, <<4314,31322>>, <<26589,19148>>, <<63929,57199>>, <<36542,61433>>, <<6071,48707>>, <<24752,36565>>,
  <<54998,41960>>, <<41425,37758>>, <<14552,49860>>, <<20447,62034>>, <<53691,26609>>, <<42684,22375>>, <<16309,1757>>, <<18610,13899>>,
  <<55309,11226>>, <<44810,6988>>, <<13827,19190>>, <<16644,31328>>, <<57184,61379>>, <<43111,57173>>, <<12654,36591>>, <<18025,48761>>,
  <<52065,45964>>, <<48230,33562>>, <<9583,53920>>, <<21096,57910>>, <<52236,30613>>, <<47883,18179>>, <<8706,5817>>, <<21765,9775>>,
  <<50618,15294>>, <<45757,2856>>, <<11188,23186>>, <<23731,27140>>, <<49879,65447>>, <<46544,53041>>, <<11481,40587>>, <<23518,44573>>,
  <<39780,49840>>, <<60515,61990>>, <<30058,41884>>, <<621,37642>>, <<39945,1705>>, <<60174,13887>>, <<29191,26501>>, <<1280,22291>>,
  <<38335,19074>>, <<58040,31252>>, <<31665,11182>>, <<3254,6968>>, <<37586,36507>>, <<58837,48653>>, <<31964,61367>>, <<3035,57121>>,
  <<34515,53972>>, <<61908,57922>>, <<26845,46072>>, <<8154,33646>>, <<33214,5837>>, <<63161,9819>>, <<28592,30689>>, <<6327,18295>>,
  <<34824,23270>>, <<65295,27248>>, <<26118,15306>>, <<4353,2908>>, <<36709,40703>>, <<63586,44649>>, <<24939,65491>>, <<5740,53061>>,
  <<40970,57976>>, <<55053,53998>>, <<19972,33620>>, <<14595,46018>>, <<42855,9825>>, <<53344,5879>>, <<18793,18253>>, <<15982,30683>>,
  <<44753,27210>>, <<55766,23260>>, <<16607,2918>>, <<14296,15344>>, <<43452,44627>>, <<57019,40645>>, <<18354,53119>>, <<12469,65513>>,
  <<48573,61980>>, <<51898,49802>>, <<21427,37680>>, <<9396,41894>>, <<47824,13829>>, <<52695,1683>>, <<21726,22313>>, <<9177,26559>>,
  <<45926,31278>>, <<50273,19128>>, <<23912,6914>>, <<10863,11156>>, <<46091,48695>>, <<49932,36513>>, <<23045,57115>>, <<11522,61325>> >>
ASSUME \A n \in 0..255 : CrcTable1[n + 1] = CrcEntry(<< 0, n >>, 8)
CrcStep(c, b) == Xor2(Shr8(c), CrcTable1[((c[2] % 256) ^^ b) + 1])
Ones == << 65535, 65535 >>
Crc32(s) == Xor2(FoldLeft(CrcStep, Ones, s), Ones)
Word(w) == << w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256 >>

(*----------------------------- packed trees -------------------------------*)
BE32(n) == << (n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
RECURSIVE PackSize(_)
PackSize(t) == FoldSet(LAMBDA k, acc : acc + KLen(k) + 1 + PackSize(OrEmpty(t[k])), 4, DOMAIN t)
\* one packing of an observed tree (keys in the given order)
RECURSIVE PackList(_)
PackList(L) == FoldLeft(LAMBDA acc, e : acc \o e[1] \o << 0 >> \o PackList(OrEmpty(e[2])), BE32(Len(L)), L)

RECURSIVE ZeroAt(_, _, _)
\* first zero byte at or after i, looked for in blocks
ZeroAt(b, i, hi) == IF i > hi THEN 0
                    ELSE LET e == IF i + 63 < hi THEN i + 63 ELSE hi
                             z == SelectInSeq(SubSeq(b, i, e), LAMBDA x : x = 0)
                         IN IF z > 0 THEN i + z - 1 ELSE ZeroAt(b, e + 1, hi)

BadDec == [ok |-> FALSE, p |-> 0, l |-> << >>]
\* decode a tree starting at byte i, not reading beyond byte hi
RECURSIVE DecTree(_, _, _)
DecTree(b, i, hi) ==
  IF i + 3 > hi THEN BadDec
  ELSE IF b[i] # 0 THEN BadDec
  ELSE LET n == b[i+1] * 65536 + b[i+2] * 256 + b[i+3] IN
       IF n > (hi - i - 3) \div 5 THEN BadDec
       ELSE FoldLeft(LAMBDA acc, j :
              IF ~acc.ok THEN acc
              ELSE LET z == ZeroAt(b, acc.p, hi) IN
                   IF z = 0 THEN BadDec
                   ELSE LET s == DecTree(b, z + 1, hi) IN
                        IF ~s.ok THEN BadDec
                        ELSE [ok |-> TRUE, p |-> s.p,
                              l |-> Append(acc.l, << SubSeq(b, acc.p, z - 1), << s.l >> >>)],
              [ok |-> TRUE, p |-> i + 4, l |-> << >>], [j \in 1..n |-> j])

\* b is a packed form of tree t: complete, no byte more or less
IsPackOf(b, t) == LET d == DecTree(b, 1, Len(b)) IN
  d.ok /\ d.p = Len(b) + 1 /\ ObsSound(d.l) /\ Abs(d.l) = Solid(t)

(*-------------------------------- files -----------------------------------*)
Magic == << 149, 31, 195, 245 >>
HeaderStart == Magic \o << 0, 1, 0, 1 >>                \* magic, type, version
Header(size, flags) == HeaderStart \o << 0, 0, 0, 0 >> \o BE32(size) \o << 0, 0, 0, flags >>
PersistBody(body) == LET h == Header(24 + Len(body), 1) \o body IN h \o Word(Crc32(h))
\* a file following the format without a checksum
PlainBody(body) == Header(20 + Len(body), 0) \o body

(***************************************************************************)
(* In traces with token keys, files of 20 bytes and more are represented by *)
(*   << 512, size, digest of the bytes, first 20 bytes, checksum state,    *)
(*      packed tree before the last four bytes, packed tree up to the end >> *)
(* with the size as eight bytes; checksum state 1: the last four of the    *)
(* bytes the header announces are the CRC-32 of those before them; a tree  *)
(* is << >> where the bytes are none, otherwise << list, complete (0/1) >>. *)
(***************************************************************************)
IsBig(b) == Len(b) = 7 /\ b[1] = 512
BytesLen(b) == IF IsBig(b) THEN b[2][5] * 16777216 + b[2][6] * 65536 + b[2][7] * 256 + b[2][8] ELSE Len(b)
BigPersist(b, t) ==
  /\ b[4] = HeaderStart \o b[2] \o << 0, 0, 0, 1 >>
  /\ b[5] = 1
  /\ Has(b[6]) /\ b[6][2] = 1 /\ ObsSound(b[6][1]) /\ Abs(b[6][1]) = Solid(t)

\* the persistent form of tree t, as the format documents it
IsPersistOf(b, t) ==
  IF IsBig(b) THEN BigPersist(b, t) ELSE
  /\ Len(b) >= 28
  /\ SubSeq(b, 1, 20) = Header(Len(b), 1)
  /\ SubSeq(b, Len(b) - 3, Len(b)) = Word(Crc32(SubSeq(b, 1, Len(b) - 4)))
  /\ LET d == DecTree(b, 21, Len(b) - 4) IN
       d.ok /\ d.p = Len(b) - 3 /\ ObsSound(d.l) /\ Abs(d.l) = Solid(t)

\* what a reader must make of the bytes of a file:
\*   empty: zero bytes, nothing read;  bad: must be refused;  ok: tree l;
\*   lax:   not laid down by the format, may be refused or read as tree l
Rd(c, l) == [c |-> c, l |-> l]
ReadBig(b) ==
  IF SubSeq(b[4], 1, 8) # HeaderStart THEN Rd("bad", << >>)
  ELSE LET size == SubSeq(b[4], 9, 16)
           crc  == b[4][20] % 2 = 1
           d    == IF crc THEN b[6] ELSE b[7]
       IN IF ~LexLE(size, b[2]) THEN Rd("bad", << >>)
          ELSE IF crc /\ b[5] # 1 THEN Rd("bad", << >>)
          ELSE IF d = << >> THEN Rd("bad", << >>)
          ELSE IF ~ObsSound(d[1]) \/ d[2] # 1 \/ SubSeq(b[4], 17, 19) # << 0, 0, 0 >> \/ b[4][20] > 1
               THEN Rd("lax", d[1])
          ELSE Rd("ok", d[1])
ReadBytes(b) ==
  IF IsBig(b) THEN ReadBig(b)
  ELSE IF Len(b) = 0 THEN Rd("empty", << >>)
  ELSE IF Len(b) < 20 THEN Rd("bad", << >>)
  ELSE IF SubSeq(b, 1, 8) # HeaderStart THEN Rd("bad", << >>)
  ELSE IF SubSeq(b, 9, 12) # << 0, 0, 0, 0 >> \/ b[13] # 0 THEN Rd("bad", << >>)
  ELSE LET size == b[14] * 65536 + b[15] * 256 + b[16]
           crc  == b[20] % 2 = 1
           end  == IF crc THEN size - 4 ELSE size
       IN IF size > Len(b) \/ end < 24 THEN Rd("bad", << >>)
          ELSE IF crc /\ SubSeq(b, size - 3, size) # Word(Crc32(SubSeq(b, 1, end))) THEN Rd("bad", << >>)
          ELSE LET d == DecTree(b, 21, end) IN
               IF ~d.ok THEN Rd("bad", << >>)
               ELSE IF ~ObsSound(d.l) \/ d.p # end + 1 \/ SubSeq(b, 17, 19) # << 0, 0, 0 >> \/ b[20] > 1
                    THEN Rd("lax", d.l)
               ELSE Rd("ok", d.l)

\* a read into tree t returned rc and left t2
ReadOK(b, t, rc, t2) ==
  LET r == ReadBytes(b)
      dup == r.c = "lax" /\ ~ObsSound(r.l)
  IN  \/ r.c = "empty" /\ t2 = t
      \/ r.c = "bad" /\ rc # 0 /\ t2 = t
      \/ r.c = "ok" /\ rc = 0 /\ t2 = Merge(t, Abs(r.l))
      \/ r.c = "lax" /\ rc # 0 /\ t2 = t
      \/ r.c = "lax" /\ rc = 0 /\ (dup \/ t2 = Merge(t, Abs(r.l)))
=============================================================================
