-------------------------------- MODULE Rat --------------------------------
(* Rational numbers <<n, d>> with d > 0.  The harness records every real     *)
(* number as the only rational of small denominator close to it; a number    *)
(* that is close to none is recorded with d = 0 and equals nothing.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, FiniteSetsExt, Folds

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
SgnI(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

IsRat(r) == r[2] > 0
Reduced(r) == LET g == Gcd(AbsI(r[1]), r[2])
              IN IF g <= 1 THEN r ELSE <<r[1] \div g, r[2] \div g>>
R(n) == <<n, 1>>
\* product after cross reduction, to stay within 32 bits
RMul(a, b) == LET g == MaxI(1, Gcd(AbsI(a[1]), b[2]))
                  h == MaxI(1, Gcd(AbsI(b[1]), a[2]))
              IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN Reduced(<<a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2]>>)
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RAbs(a) == <<AbsI(a[1]), a[2]>>
REq(a, b) == a[2] > 0 /\ b[2] > 0 /\ Reduced(a) = Reduced(b)
\* comparison by continued fractions, to stay within 32 bits
RECURSIVE RLt(_, _)
RLt(a, b) == LET qa == a[1] \div a[2]  qb == b[1] \div b[2]
                 ra == a[1] % a[2]     rb == b[1] % b[2]
             IN IF qa # qb THEN qa < qb
                ELSE IF rb = 0 THEN FALSE
                ELSE IF ra = 0 THEN TRUE
                ELSE RLt(<<b[2], rb>>, <<a[2], ra>>)
RLe(a, b) == ~RLt(b, a)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a

SumI(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
SumR(s) == FoldLeft(LAMBDA x, y : RAdd(x, y), <<0, 1>>, s)
VecEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i])
RECURSIVE PowI(_, _)
PowI(x, n) == IF n = 0 THEN 1 ELSE x * PowI(x, n - 1)
============================================================================
