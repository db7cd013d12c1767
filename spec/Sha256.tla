------------------------------- MODULE Sha256 -------------------------------
(* The SHA-256 compression function (FIPS 180-4) on words << high, low >> of  *)
(* two 16-bit halves, and the function the Table16 chip computes: the working *)
(* variables after the 64 rounds, without the addition of the chaining value. *)
EXTENDS Integers, Sequences, Bitwise, TLC
M16 == 65536
P2 == [k \in 0..16 |-> <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>[k + 1]]
XorW(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
AndW(a, b) == << a[1] & b[1], a[2] & b[2] >>
NotW(a) == << 65535 - a[1], 65535 - a[2] >>
Plus(a, b) == LET l == a[2] + b[2] IN << (a[1] + b[1] + (l \div M16)) % M16, l % M16 >>
(* rotation and shift to the right *)
Rot16(a, k) == << (a[1] \div P2[k]) + (a[2] % P2[k]) * P2[16 - k], (a[2] \div P2[k]) + (a[1] % P2[k]) * P2[16 - k] >>
Rotr(a, k) == IF k >= 16 THEN Rot16(<< a[2], a[1] >>, k - 16) ELSE Rot16(a, k)
Shr(a, k) == << a[1] \div P2[k], (a[2] \div P2[k]) + (a[1] % P2[k]) * P2[16 - k] >>     \* k < 16

BSig0(x) == XorW(Rotr(x, 2), XorW(Rotr(x, 13), Rotr(x, 22)))
BSig1(x) == XorW(Rotr(x, 6), XorW(Rotr(x, 11), Rotr(x, 25)))
SSig0(x) == XorW(Rotr(x, 7), XorW(Rotr(x, 18), Shr(x, 3)))
SSig1(x) == XorW(Rotr(x, 17), XorW(Rotr(x, 19), Shr(x, 10)))
Ch(x, y, z) == XorW(AndW(x, y), AndW(NotW(x), z))
Maj(x, y, z) == XorW(AndW(x, y), XorW(AndW(x, z), AndW(y, z)))

IV == << <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>> >>
K == << <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>, <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>, <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>, <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>, <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>, <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>, <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>> >>

RECURSIVE Sched(_)
Sched(w) == IF Len(w) = 64 THEN w
            ELSE LET i == Len(w) + 1
                     x == Plus(Plus(SSig1(w[i - 2]), w[i - 7]), Plus(SSig0(w[i - 15]), w[i - 16]))
                 IN Sched(TLCEval(Append(w, x)))
RECURSIVE Rounds(_, _, _)
Rounds(s, w, i) ==
  IF i > 64 THEN s
  ELSE LET t1 == Plus(Plus(s[8], BSig1(s[5])), Plus(Ch(s[5], s[6], s[7]), Plus(K[i], w[i])))
           t2 == Plus(BSig0(s[1]), Maj(s[1], s[2], s[3]))
       IN Rounds(TLCEval(<< Plus(t1, t2), s[1], s[2], s[3], Plus(s[4], t1), s[5], s[6], s[7] >>), w, i + 1)
Compress(s, block) == Rounds(s, Sched(block), 1)

(* The chip: blocks one after the other, each starting from the output of the one before *)
RECURSIVE Chain(_, _)
Chain(s, ws) == IF Len(ws) < 16 THEN s ELSE Chain(TLCEval(Compress(s, SubSeq(ws, 1, 16))), SubSeq(ws, 17, Len(ws)))
Chip(ws) == Chain(IV, ws)
(* SHA-256 itself, of a message that is already padded; only used to check the definitions *)
RECURSIVE Hash(_, _)
Hash(s, ws) == IF Len(ws) < 16 THEN s
               ELSE LET c == TLCEval(Compress(s, SubSeq(ws, 1, 16)))
                    IN Hash(TLCEval([i \in 1..8 |-> Plus(s[i], c[i])]), SubSeq(ws, 17, Len(ws)))
(* "abc", FIPS 180-4 *)
Abc == << <<24930, 25472>> >> \o [i \in 1..14 |-> <<0, 0>>] \o << <<0, 24>> >>
ASSUME Hash(IV, Abc) = << <<47736, 5823>>, <<36609, 53226>>, <<16705, 16606>>, <<23982, 8739>>, <<45059, 24995>>, <<38423, 31388>>, <<46096, 65377>>, <<61952, 5549>> >>

(* Spreading: bit i of a 16-bit number goes to bit 2i *)
RECURSIVE Spread8(_, _)
Spread8(x, k) == IF k = 8 THEN 0 ELSE (x % 2) * (IF k = 7 THEN 16384 ELSE P2[2 * k]) + Spread8(x \div 2, k + 1)
SpreadHi(x) == Spread8(x \div 256, 0)
SpreadLo(x) == Spread8(x % 256, 0)
(* the class of a number by its bit length: the lookup argument proves ranges with it *)
Tag(x) == CASE x < 128 -> 0 [] x < 1024 -> 1 [] x < 2048 -> 2 [] x < 8192 -> 3 [] x < 16384 -> 4 [] OTHER -> 5
=============================================================================
