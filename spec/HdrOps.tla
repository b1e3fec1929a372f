--------------------------------- MODULE HdrOps ---------------------------------
(* Radiance pictures: the RGBE pixel and the order of pixels in the file.       *)
(* A non-negative binary32 number is <<n, k>>, n odd (or 0): n * 2^k.           *)
EXTENDS Integers, Sequences
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
Expo(v) == v[2] + BitLen(v[1])                   \* v = m * 2^Expo, 1/2 <= m < 1
(* floor(v * 2^s) as an integer, known to be below 2^10 *)
Scaled(v, s) == LET sh == v[2] + s
                IN IF v[1] = 0 THEN 0 ELSE IF sh >= 0 THEN v[1] * P2(sh)
                   ELSE IF sh < -30 THEN 0 ELSE v[1] \div P2(-sh)
MaxExpo(c) == LET E == {Expo(c[i]) : i \in {j \in 1..Len(c) : c[j][1] # 0}}
              IN CHOOSE e \in E : \A f \in E : f <= e
Black(c) == \A i \in 1..Len(c) : c[i][1] = 0
(* mantissas of a colour *)
Mant(c) == LET e == MaxExpo(c) IN [i \in 1..Len(c) |-> Scaled(c[i], 8 - e)]
RECURSIVE Norm(_)
Norm(v) == IF v[1] = 0 THEN <<0, 0>>
           ELSE IF v[1] % 2 = 0 THEN Norm(<<v[1] \div 2, v[2] + 1>>) ELSE v
(* what a reader sees: (mantissa + 1/2) * 2^(e-8) *)
Seen(c) == IF Black(c) THEN [i \in 1..Len(c) |-> <<0, 0>>]
           ELSE LET e == MaxExpo(c) m == Mant(c)
                IN [i \in 1..Len(c) |-> Norm(<<2*m[i] + 1, e - 9>>)]
(* v is the value of mantissa m or a neighbour, at exponent e (the library's own *)
(* conversion rounds in double precision)                                       *)
SeenNear(v, m, e) == v \in {Norm(<<2*m + 1, e - 9>>), Norm(<<2*m - 1, e - 9>>), Norm(<<2*m + 3, e - 9>>)}
PixelOk(w, r) == IF Black(w) THEN \A i \in 1..3 : r[i] = <<0, 0>>
                 ELSE LET e == MaxExpo(w) m == Mant(w)
                      IN \A i \in 1..3 : SeenNear(r[i], m[i], e)
(* scan lines go from the top row (largest y) down, pixels from x = 1 right;     *)
(* an array is A[x][y]                                                          *)
Lines(A) == [l \in 1..Len(A[1]) |-> [x \in 1..Len(A) |-> A[x][Len(A[1]) + 1 - l]]]
FromLines(L) == [x \in 1..Len(L[1]) |-> [y \in 1..Len(L) |-> L[Len(L) + 1 - y][x]]]
===============================================================================
