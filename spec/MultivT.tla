------------------------------- MODULE MultivT ------------------------------
(* The multivariate t alteration (property C28): location, scale, shape of   *)
(* what it samples, and density it reports.  With nu degrees of freedom and  *)
(* t observed data, samples x around mu are such that 20 t |x - mu|^2 / d    *)
(* follows the law F(d, nu); densities are known up to powers of pi.         *)
EXTENDS Rat

RPow(r, n) == FoldLeft(LAMBDA a, i : RMul(a, r), <<1, 1>>, [i \in 1..n |-> i])
RDiv(a, b) == RMul(a, <<b[2], b[1]>>)

\* --- parameters, in millionths: only unset degrees of freedom have a default ---
MvtConfOK(c) == c.nures = (IF c.nu = 0 THEN 3000000 ELSE c.nu) /\ c.dres = c.d /\ c.rgen

\* --- law: probability that 20 t |x - mu|^2 < r, when it is rational ---
RootOf(r) == <<CHOOSE i \in 0..1000 : i * i = Reduced(r)[1], CHOOSE i \in 1..1000 : i * i = Reduced(r)[2]>>
Proba(d, nu, r) ==
  LET b == RAdd(R(1), RMul(r, <<1, nu>>))
      q == RSub(R(1), RDiv(R(1), b))         \* (b - 1) / b
  IN CASE nu = 1 /\ d = 1 -> (CASE r = <<1, 3>> -> <<1, 3>> [] r = <<1, 1>> -> <<1, 2>> [] r = <<3, 1>> -> <<2, 3>>)
       [] nu = 2 /\ d % 2 = 0 -> RPow(q, d \div 2)
       [] nu = 2 /\ d = 1 -> RootOf(q)
       [] d = 2 /\ nu % 2 = 0 -> RSub(R(1), RPow(RDiv(R(1), b), nu \div 2))

\* when nu = p / q, in two dimensions: 1 + r / nu = x^2q is exceeded with probability x^-p
RootRange(nu, x) == RMul(Reduced(nu), RSub(RPow(x, 2 * nu[2]), R(1)))
RootProba(nu, x) == RSub(R(1), RPow(<<x[2], x[1]>>, nu[1]))

\* cnt among n draws of an event of probability p: within six standard
\* deviations, (cnt - n p)^2 <= 36 n p (1 - p); n is a multiple of 100
Likely(cnt, n, p) ==
  LET dev == RSub(<<cnt, n>>, p)     \* deviation of the frequency
      m == n \div 100
      var == RMul(<<36, 100>>, RMul(p, RSub(R(1), p)))
      \* frequencies to the thousandth, against overflows, rounded favourably
      mil(x) == (AbsI(x[1]) * 1000) \div x[2]
  IN mil(dev) * mil(dev) * m <= mil(var) * 1000

\* --- density: square of (nu + d)-th root ratio, and maximum ---
\* square of the scale of the density: (nu / 20 t)^2
Scale2(nu, t) == RMul(<<nu, 20 * t>>, <<nu, 20 * t>>)
\* scale found in the code: nu / sqrt(20 t) (see KNOWN_FINDINGS.md)
KnownScale2(nu, t) == <<nu * nu, 20 * t>>

RECURSIVE G(_)
G(nu) == IF nu = 1 THEN <<1, 1>> ELSE IF nu = 2 THEN <<1, 2>> ELSE RMul(<<nu - 1, nu - 2>>, G(nu - 2))
PiPower(d, nu) == CASE d = 1 -> (IF nu % 2 = 1 THEN 1 ELSE 0)
                    [] d = 2 -> 1
                    [] d = 3 -> (IF nu % 2 = 1 THEN 2 ELSE 1)
\* fourth power of the maximum of the density, without its powers of pi
Max4(d, nu, s2) ==
  CASE d = 1 -> RDiv(RPow(G(nu), 4), s2)
    [] d = 2 -> RDiv(RPow(<<nu, 2>>, 4), RMul(s2, s2))
    [] d = 3 -> RDiv(RPow(RMul(G(nu), <<nu + 1, 2>>), 4), RMul(s2, RMul(s2, s2)))

Unseen(r) == r[2] = 0
DensityOK(c, s2) ==
  \* shape: 1 + |x - mu|^2 / scale, to the power - (nu + d) / 2
  /\ Unseen(c.b2) \/ REq(c.b2, RDiv(RMul(<<c.s4, 4>>, <<c.s4, 4>>), s2))
  /\ c.max4 = <<>> \/ LET r == c.max4[PiPower(c.d, c.nu) + 1] IN Unseen(r) \/ REq(r, Max4(c.d, c.nu, s2))
  /\ c.sym /\ c.shift /\ ~c.mut
MvtPdfOK(c) == DensityOK(c, Scale2(c.nu, c.time))
MvtPdfKnown(c) == DensityOK(c, KnownScale2(c.nu, c.time))

\* the same draws around another point, or with other numbers of data
MvtSampleOK(c) ==
  /\ c.equiv                       \* location moves with mu
  /\ REq(c.ratio2, <<c.t2, c.t1>>) \* scale as the inverse square root of the number of data
  /\ c.len = c.d /\ c.fresh /\ ~c.mut
MvtLawOK(c) ==
  /\ IF Len(c.xs) > 0
     THEN /\ c.d = 2 /\ Len(c.xs) = Len(c.rs)
          /\ \A i \in 1..Len(c.rs) : /\ REq(c.rs[i], RootRange(<<c.nu, c.den>>, c.xs[i]))
                                     /\ Likely(c.counts[i], c.n, RootProba(<<c.nu, c.den>>, c.xs[i]))
     ELSE \A i \in 1..Len(c.rs) : Likely(c.counts[i], c.n, Proba(c.d, c.nu, Reduced(c.rs[i])))
  /\ \A i \in 1..Len(c.halves) : Likely(c.halves[i], c.n, <<1, 2>>)
DiracOK(c) == c.same /\ c.pdf = 1 /\ ~c.mut
=============================================================================
