-------------------------------- MODULE Bits --------------------------------
(* Fixed-width binary arithmetic on naturals, shared by all instruction-set
   specifications.  Words wider than 30 bits never occur as one integer. *)
EXTENDS Integers, Sequences, TLC, Bitwise

P2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768,
        65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608,
        16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
Pow2(i) == IF i = 0 THEN 1 ELSE P2[i]

Bit(x, i) == (x \div Pow2(i)) % 2
B8(x)  == x % 256            \* TLC's % is non-negative for a positive modulus
B16(x) == x % 65536
Hi(x) == (x \div 256) % 256
Lo(x) == x % 256
W16(h, l) == h * 256 + l
SetBit(x, i, b) == x + ((b - Bit(x, i)) * Pow2(i))
S8(x) == IF x > 127 THEN x - 256 ELSE x
S16(x) == IF x > 32767 THEN x - 65536 ELSE x
I(cond) == IF cond THEN 1 ELSE 0

Parity(x) ==      \* number of 1 bits of a byte, modulo 2
  (Bit(x,0) + Bit(x,1) + Bit(x,2) + Bit(x,3) + Bit(x,4) + Bit(x,5) + Bit(x,6) + Bit(x,7)) % 2

\* carries of an n-bit addition a + b + c
CarryAt(a, b, c, n) == I((a % Pow2(n)) + (b % Pow2(n)) + c >= Pow2(n))
\* borrows of an n-bit subtraction a - b - c
BorrowAt(a, b, c, n) == I((a % Pow2(n)) - (b % Pow2(n)) - c < 0)
\* signed overflow of 8/16 bit add and subtract
OvAdd8(a, b, c)  == I((S8(a) + S8(b) + c > 127) \/ (S8(a) + S8(b) + c < -128))
OvSub8(a, b, c)  == I((S8(a) - S8(b) - c > 127) \/ (S8(a) - S8(b) - c < -128))
OvAdd16(a, b, c) == I((S16(a) + S16(b) + c > 32767) \/ (S16(a) + S16(b) + c < -32768))
OvSub16(a, b, c) == I((S16(a) - S16(b) - c > 32767) \/ (S16(a) - S16(b) - c < -32768))
=============================================================================
