------------------------------- MODULE Field --------------------------------
(* Exact arithmetic for the design-level modules: prime fields with a root of
   unity of the wanted order, in which the defining sums can be evaluated
   literally. *)
EXTENDS Integers, Sequences

RECURSIVE PowMod(_, _, _)
PowMod(a, n, q) == IF n = 0 THEN 1 ELSE LET h == PowMod(a, n \div 2, q) hh == (h*h) % q IN IF n % 2 = 1 THEN (hh*a) % q ELSE hh
IsPrime(q) == q > 1 /\ \A d \in 2..q : d*d > q \/ q % d # 0
RECURSIVE FindPrimes(_, _, _)
FindPrimes(M, q, k) == IF k = 0 THEN <<>> ELSE IF IsPrime(q) THEN <<q>> \o FindPrimes(M, q + M, k - 1) ELSE FindPrimes(M, q + M, k)
PrimeDivs(n) == {d \in 2..n : n % d = 0 /\ IsPrime(d)}
\* an element of exact order M in Z_q
RootOf(M, q) == IF M = 1 THEN 1 ELSE CHOOSE z \in 2..(q-1) : PowMod(z, M, q) = 1 /\ \A d \in PrimeDivs(M) : PowMod(z, M \div d, q) # 1
InvIn(a, q) == PowMod(a % q, q - 2, q)

RECURSIVE SumTo(_, _, _)
SumTo(F(_), n, q) == IF n < 0 THEN 0 ELSE (F(n) + SumTo(F, n - 1, q)) % q

\* smallest prime q = 1 mod M above lo, and the table of the powers of an element of order M
PrimeAbove(M, lo) == FindPrimes(M, M*(1 + lo \div M) + 1, 1)[1]
Powers(M, q) == LET zz == RootOf(M, q) IN [k \in 0..(M - 1) |-> PowMod(zz, k, q)]
=============================================================================
