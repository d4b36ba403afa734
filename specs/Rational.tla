------------------------------ MODULE Rational ------------------------------
(* Exact rational numbers <<numerator, denominator>> in lowest terms.          *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) == LET g == Gcd(Abs(n), Abs(d))
                 s == IF d < 0 THEN -1 ELSE 1
             IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
RInt(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET x == Rat(a[1], b[2]) y == Rat(b[1], a[2]) IN <<x[1] * y[1], x[2] * y[2]>>
RDiv(a, b) == RMul(a, Rat(b[2], b[1]))
RLess(a, b) == RSub(a, b)[1] < 0
RLeq(a, b) == RSub(a, b)[1] <= 0
\* floor(x * 10^n) by long division: stays within small integers (x >= 0)
RECURSIVE LongDiv(_, _, _, _)
LongDiv(acc, rem, d, n) == IF n = 0 THEN acc ELSE LongDiv(acc * 10 + (rem * 10) \div d, (rem * 10) % d, d, n - 1)
Decimal(x, n) == LongDiv(x[1] \div x[2], x[1] % x[2], x[2], n)
RSum(s) == LET acc[i \in 0..Len(s)] == IF i = 0 THEN Zero ELSE RAdd(acc[i - 1], s[i]) IN acc[Len(s)]
=============================================================================
