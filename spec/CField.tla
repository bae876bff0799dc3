------------------------------- MODULE CField -------------------------------
(* An exact image of the complex numbers with conjugation: the field of q^2
   elements, q = 3 mod 4, as pairs <<re, im>> over Z_q with im*im = -1.  Its
   Frobenius automorphism is <<re, -im>>; on elements of an order M | q+1 it is
   the inverse, as conjugation is on the unit circle; its fixed points, Z_q, play
   the real numbers. *)
EXTENDS Field

CAdd(u, v, q) == <<(u[1] + v[1]) % q, (u[2] + v[2]) % q>>
CSub(u, v, q) == <<(u[1] - v[1]) % q, (u[2] - v[2]) % q>>
CMul(u, v, q) == <<(u[1]*v[1] - u[2]*v[2]) % q, (u[1]*v[2] + u[2]*v[1]) % q>>
Conj(u, q) == <<u[1], (-u[2]) % q>>
CScale(c, u, q) == <<(c * u[1]) % q, (c * u[2]) % q>>
CZero == <<0, 0>>
COne == <<1, 0>>
CI == <<0, 1>>
RECURSIVE CPow(_, _, _)
CPow(u, n, q) == IF n = 0 THEN COne ELSE LET h == CPow(u, n \div 2, q) hh == CMul(h, h, q) IN IF n % 2 = 1 THEN CMul(hh, u, q) ELSE hh
RECURSIVE CSum(_, _, _)
CSum(F(_), n, q) == IF n < 0 THEN CZero ELSE CAdd(F(n), CSum(F, n - 1, q), q)

\* a prime q above lo with lcm(4, M) | q+1
RECURSIVE FindC(_, _)
FindC(M, q) == IF IsPrime(q) THEN q ELSE FindC(M, q + M)
CPrime(M, lo) == LET m == IF M % 4 = 0 THEN M ELSE IF M % 2 = 0 THEN 2*M ELSE 4*M IN FindC(m, m*(1 + lo \div m) - 1)
\* an element of order M on the "unit circle": u^(q-1) for some u, to the power (q+1)/M
RECURSIVE RootFrom(_, _, _)
RootFrom(M, q, b) == LET u == <<1, b>>
                         v == CMul(Conj(u, q), <<InvIn(1 + b*b, q), 0>>, q)            \* 1/u
                         c == CPow(CMul(Conj(u, q), v, q), (q + 1) \div M, q)           \* (conj u / u)^((q+1)/M)
                     IN IF \A d \in PrimeDivs(M) : CPow(c, M \div d, q) # COne THEN c ELSE RootFrom(M, q, b + 1)
\* ... such that a quarter turn is <<0, 1>>
CRoot(M, q) == IF M = 1 THEN COne ELSE LET c == RootFrom(M, q, 2) IN IF M % 4 = 0 /\ CPow(c, M \div 4, q) # CI THEN Conj(c, q) ELSE c
RECURSIVE CTable(_, _, _, _)
CTable(c, k, v, q) == IF k = 0 THEN <<>> ELSE <<v>> \o CTable(c, k - 1, CMul(v, c, q), q)
CPowers(M, q) == CTable(CRoot(M, q), M, COne, q)          \* sequence: index a stands for the power a-1
=============================================================================
