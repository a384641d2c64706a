----------------------------- MODULE KeyDesign ------------------------------
(* The table-driven key codec.  Coordinates have 2*W bits; a table with 2^W   *)
(* entries spreads W bits at a time when encoding, a second table       *)
(* gathers G levels at a time when decoding (the code: W = 8, and   *)
(* 9-bit groups of the key, three levels).  The machine encodes and decodes   *)
(* one cell step by step; TLC checks for every cell that the result is the    *)
(* bit-interleaving, that decoding inverts it, and that the key order is      *)
(* (batch, Z-order).                                                          *)
EXTENDS Integers, Sequences, TLC, Morton
CONSTANTS W, NB
Abs2(n) == IF n < 0 THEN -n ELSE n
D == 2 * W
P == 2^W
K == 8^D                                  \* batch unit (the code: 2^48)
VARIABLES c, pc, key, out, i

RECURSIVE SpR(_, _, _)
SpR(n, j, w) == IF j = w THEN 0 ELSE (Bit(n, j) * (8^j)) + SpR(n, j + 1, w)
Lut == [n \in 0..(P - 1) |-> SpR(n, 0, W)]
\* definition of the key, one bit at a time over all D levels
KeyDef(q) == (q[1] * K) + (4 * SpR(q[2], 0, D)) + (2 * SpR(q[3], 0, D)) + SpR(q[4], 0, D)
\* gather table: G levels of a key
G == 1
Gather(n) == LET f(a) == LET RECURSIVE g(_)
                             g(j) == IF j = G THEN 0 ELSE (Bit(n, (3 * j) + a) * (2^j)) + g(j + 1)
                         IN g(0)
             IN << f(2), f(1), f(0) >>
Dec == [n \in 0..((8^G) - 1) |-> Gather(n)]

Cells == (0..(NB - 1)) \X (0..(P * P - 1)) \X (0..(P * P - 1)) \X (0..(P * P - 1))
Enc8(x, y, z) == (4 * Lut[x]) + (2 * Lut[y]) + Lut[z]
Init == c \in Cells /\ pc = "lo" /\ key = 0 /\ out = << 0, 0, 0, 0 >> /\ i = 0
EncLo == /\ pc = "lo" /\ key' = Enc8(c[2] % P, c[3] % P, c[4] % P) /\ pc' = "hi" /\ UNCHANGED << c, out, i >>
EncHi == /\ pc = "hi"
         /\ key' = key + (Enc8(c[2] \div P, c[3] \div P, c[4] \div P) * (8^W))
         /\ pc' = "batch" /\ UNCHANGED << c, out, i >>
EncB  == /\ pc = "batch" /\ key' = key + (c[1] * K) /\ pc' = "dec" /\ UNCHANGED << c, out, i >>
DecStep == /\ pc = "dec" /\ i < D
           /\ LET pos == key % K
                  g == Dec[(pos \div (8^i)) % (8^G)]
              IN out' = << 0, out[2] + (g[1] * (2^i)), out[3] + (g[2] * (2^i)), out[4] + (g[3] * (2^i)) >>
           /\ i' = i + G /\ UNCHANGED << c, key, pc >>
DecEnd == /\ pc = "dec" /\ i >= D /\ out' = [out EXCEPT ![1] = key \div K] /\ pc' = "done"
          /\ UNCHANGED << c, key, i >>
Next == EncLo \/ EncHi \/ EncB \/ DecStep \/ DecEnd
Spec == Init /\ [][Next]_<< c, pc, key, out, i >>

EncodeOk == pc \in {"dec", "done"} => key = KeyDef(c)
DecodeOk == pc = "done" => out = c
ParentOk == pc = "done" => ((key % K) \div 8) + ((key \div K) * K) =
                            (KeyDef(<< c[1], c[2] \div 2, c[3] \div 2, c[4] \div 2 >>))
\* the order of the keys is (batch, Z-order): enough to compare with the next cell in key order
OrderOk == pc = "done" => \A e \in { << b, x, y, z >> \in Cells : b = c[1] /\ Abs2(x - c[2]) + Abs2(y - c[3]) + Abs2(z - c[4]) <= 4 } :
                            CellLess(c, e) <=> KeyDef(c) < KeyDef(e)
BatchOk == pc = "done" => \A b \in 0..(NB - 1) : b > c[1] =>
              \A e \in { << b, 0, 0, 0 >>, << b, P * P - 1, 0, 1 >> } : KeyDef(c) < KeyDef(e)
Agree == pc = "done" /\ NB <= 2 => LET k == KeyOf(c) IN key = (k[1] * K) + (k[2] * (2^24)) + k[3]
=============================================================================
