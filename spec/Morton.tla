------------------------------- MODULE Morton -------------------------------
(* Shuffled (Morton / Z-order) keys.  A key is a 64-bit word: batch index in  *)
(* bits 48.., position in bits 0..47 with x, y, z interleaved, z lowest.      *)
(* TLC integers have 32 bits, so a key is the limb triple <<b, hi, lo>> where *)
(* hi and lo are the upper and lower 24 bits of the position part.            *)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Bit(n, i) == (n \div (2^i)) % 2

RECURSIVE SpreadR(_, _)
SpreadR(n, i) == IF i = 8 THEN 0 ELSE Bit(n, i) * (8^i) + SpreadR(n, i + 1)

\* the 8 bits of n spread to every third bit
Spread == [n \in 0..255 |-> SpreadR(n, 0)]

Interleave8(x, y, z) == 4 * Spread[x] + 2 * Spread[y] + Spread[z]

\* the key of cell <<b, x, y, z>>
KeyOf(c) == << c[1],
               Interleave8(c[2] \div 256, c[3] \div 256, c[4] \div 256),
               Interleave8(c[2] % 256, c[3] % 256, c[4] % 256) >>

KeyLess(k, m) == \/ k[1] < m[1]
                 \/ k[1] = m[1] /\ k[2] < m[2]
                 \/ k[1] = m[1] /\ k[2] = m[2] /\ k[3] < m[3]

\* dropping the lowest three position bits
ParentKey(k) == << k[1], k[2] \div 8, (k[2] % 8) * (2^21) + k[3] \div 8 >>

\* the cell that contains c one level up
ParentCell(c) == << c[1], c[2] \div 2, c[3] \div 2, c[4] \div 2 >>

InGrid(c, d) == /\ c[2] >= 0 /\ c[2] < 2^d
                /\ c[3] >= 0 /\ c[3] < 2^d
                /\ c[4] >= 0 /\ c[4] < 2^d

\* Z-order by definition: the most significant bit level in which the cells
\* differ decides, there x before y before z (independent of KeyOf)
RECURSIVE ZLessAt(_, _, _)
ZLessAt(c, e, i) ==
  IF i < 0 THEN FALSE
  ELSE LET cc == 4 * Bit(c[2], i) + 2 * Bit(c[3], i) + Bit(c[4], i)
           ee == 4 * Bit(e[2], i) + 2 * Bit(e[3], i) + Bit(e[4], i)
       IN IF cc = ee THEN ZLessAt(c, e, i - 1) ELSE cc < ee
CellLess(c, e) == \/ c[1] < e[1]
                  \/ c[1] = e[1] /\ ZLessAt(c, e, 15)
=============================================================================
