-------------------------------- MODULE Cost ---------------------------------
(* What a fast transform may cost, per element of its length n: bytes read and
   written outside the stacks by one call, bytes of memory held by the object.
   log2 of the part of n with prime factors 2, 3, 5, plus the prime factors
   above 5 (the mixed-radix transform does a step of prime radix p directly).
   Slack is the distance kept from the cost of the present code.             *)
EXTENDS Integers, Sequences

RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg(n \div 2)
RECURSIVE Without(_, _)
Without(n, p) == IF n > 0 /\ n % p = 0 THEN Without(n \div p, p) ELSE n
RoughPart(n) == Without(Without(Without(n, 2), 3), 5)
\* sum of the prime factors (with multiplicity) of a number without factors below d
RECURSIVE Primes(_, _)
Primes(n, d) == IF n <= 1 THEN 0 ELSE IF d * d > n THEN n ELSE IF n % d = 0 THEN d + Primes(n \div d, d) ELSE Primes(n, d + 2)
Rough(n) == Primes(RoughPart(n), 7)

Slack == 4
\* bytes per element of one direct complex transform
Direct(n) == 96 + 16 * Lg(n \div RoughPart(n)) + 36 * Rough(n)
Work(kind, n) ==
  Slack * (CASE n < 1 -> 96
             [] kind = "C" -> Direct(n)
             [] kind = "R" -> Direct((n + 1) \div 2)
             [] kind = "D" -> Direct((n + 1) \div 2) + 64
             [] OTHER -> 600 + 300 * Lg(4 * n))
\* a setup fills tables of size n
SetupWork(kind, n) == Slack * ((CASE kind = "C" -> 80 [] kind = "R" -> 110 [] kind = "D" -> 200 [] OTHER -> 300) + (IF n < 1 THEN 512 ELSE 512 \div n))
Memory(kind, n) == (CASE kind = "C" -> 160 [] kind = "R" -> 128 [] kind = "D" -> 240 [] OTHER -> 900) + (IF n < 1 THEN 4096 ELSE 4096 \div n)
=============================================================================
