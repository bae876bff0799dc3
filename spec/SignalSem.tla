----------------------------- MODULE SignalSem ------------------------------
(* Every rule of Signal.tla against the definition of the transforms, in exact
   arithmetic: the complex numbers are replaced by a prime field Z_q with
   8N | q-1, in which the defining sums are evaluated literally.  Identities
   between integer combinations of 8N-th roots of unity that hold in C hold in
   each such field (reduction modulo a prime above q); the converse is what is
   tested, for two primes each. *)
EXTENDS Signal, Field, FiniteSets, TLC

CONSTANT MaxN, Primes       \* lengths up to MaxN, how many fields per length

VARIABLES N, q, z, rt      \* length, field, zeta, table of powers of zeta

Z(a) == rt[a % (8*N)]
InvQ(a) == PowMod(a % q, q - 2, q)
\* the positive square root of N as a Gauss sum (its square is checked below)
SqrtN == IF Odd(N)
         THEN LET g == SumTo(LAMBDA p : Z(8*p*p), N - 1, q) IN (g * Z(IF N % 4 = 1 THEN 0 ELSE 6*N)) % q
         ELSE LET g == SumTo(LAMBDA p : Z(4*p*p), N - 1, q) IN (g * Z(7*N)) % q
RECURSIVE PowI(_, _)
PowI(a, n) == IF n >= 0 THEN PowMod(a, n, q) ELSE PowMod(InvQ(a), -n, q)
Cos(a) == ((Z(a) + Z(8*N - (a % (8*N)))) * InvQ(2)) % q          \* cos of a/(8N) turns
I == Z(2*N)
A4 == IF N = 1 THEN 0 ELSE N - Inv4(N)                            \* a with 4a = -1 mod N

Basis(t, i, p) ==
  CASE t \in {"d", "Dd"} -> IF p = i % N THEN 1 ELSE 0
    [] t = "t" -> Z(8 * ((i*p) % N))
    [] t = "p" -> Z(4*p*p + 8*((i*p) % N))
    [] t = "m" -> Z((8*N - ((4*p*p) % (8*N))) + 8*((i*p) % N))
    [] t = "q" -> Z(8*((p*p + i*p) % N))
    [] t = "r" -> Z(8*((A4*p*p + i*p) % N))
    [] t = "Dc" -> Cos(2*(2*p+1)*i)
    [] t = "Ds" -> Cos(2*(2*i+1)*p)
Val(x, p) == (((((Re(x) + I*Im(x)) % q) * Z(Ph(x))) % q) * ((((PowI(SqrtN, Hx(x)) * PowI(2, Ex(x))) % q) * Basis(Ty(x), Ix(x), p)) % q)) % q

Dft(x, k)  == SumTo(LAMBDA p : (Val(x, p) * Z(8*N - 8*((k*p) % N))) % q, N - 1, q)
Idft(x, p) == SumTo(LAMBDA k : (Val(x, k) * Z(8*((k*p) % N))) % q, N - 1, q)
Dct(x, k)  == SumTo(LAMBDA p : (Val(x, p) * Cos(2*(2*p+1)*k)) % q, N - 1, q)
Idct(x, p) == (Val(x, 0) + 2 * (SumTo(LAMBDA k : IF k = 0 THEN 0 ELSE (Val(x, k) * Cos(2*(2*p+1)*k)) % q, N - 1, q))) % q
Norm(op) == PowI(SqrtN, Gain(op))
Def(kind, op, x, k) == (Norm(op) * (IF kind = "D" THEN (IF op \in FwdOps THEN Dct(x, k) ELSE Idct(x, k))
                                    ELSE (IF op \in FwdOps THEN Dft(x, k) ELSE Idft(x, k)))) % q

ComplexTerms == {T(t, i, c[1], c[2], c[3], c[4], c[5]) : t \in (IF Odd(N) THEN {"d", "t", "q", "r"} ELSE {"d", "t", "p", "m"}),
                   i \in 0..(N-1), c \in {<<1, 0, 0, 0, 0>>, <<2, -3, 5, 1, 2>>}}
                \cup (IF Odd(N) THEN {} ELSE {T(t, i, 1, 2, 3, -1, -1) : t \in {"p", "m"}, i \in -3..-1})
DctFwdTerms == {T(t, i, 3, 0, 0, 1, 1) : t \in {"Dd", "Dc"}, i \in 0..(N-1)}
DctInvTerms == {T(t, i, 3, 0, 0, 1, 1) : t \in {"Dd", "Ds"}, i \in 0..(N-1)}
TermsFor(kind, op) == IF kind = "C" THEN ComplexTerms ELSE IF op \in FwdOps THEN DctFwdTerms ELSE DctInvTerms

SqrtOK == N = 0 \/ (SqrtN * SqrtN) % q = N % q
RuleOK == N = 0 \/ \A kind \in {"C", "D"} : \A op \in OpsOf(kind) : \A x \in TermsFor(kind, op) :
            LET y == OutTerm(kind, N, op, x) IN \A k \in 0..(N-1) : Val(y, k) = Def(kind, op, x, k)
\* symbolic consequences: every documented pair gives the term back
PairOK == N = 0 \/ \A kind \in {"C", "D"} : \A a \in OpsOf(kind), b \in OpsOf(kind) :
            (Cancel(a, b) /\ (kind = "D" => (a \in FwdOps))) =>
               \A x \in TermsFor(kind, a) : LET y == OutTerm(kind, N, b, OutTerm(kind, N, a, x)) IN \A k \in 0..(N-1) : Val(y, k) = Val(x, k)
RealOK == N = 0 \/ \A x \in ComplexTerms : (~Odd(N)) => \A p \in 0..(N-1) :
            \* conjugation is not a field operation; test x*conj(x) = |coef|^2 N^h 4^e on flat terms, and reality of x+conj(x) by rule
            LET c == ConjTerm(N, Canon(N, x)) IN
              Ty(x) # "d" => (Val(x, p) * Val(c, p)) % q = (((Re(x)*Re(x) + Im(x)*Im(x)) % q) * ((PowI(SqrtN, 2*Hx(x)) * PowI(2, 2*Ex(x))) % q)) % q

Field(n, qq) == LET zz == RootOf(8*n, qq) IN [k \in 0..(8*n - 1) |-> PowMod(zz, k, qq)]
\* smallest primes q = 1 mod 8n above 200 (so that small wrong factors cannot vanish)
PrimesFor(n) == FindPrimes(8*n, 8*n*(1 + 200 \div (8*n)) + 1, Primes)

Init == N = 0 /\ q = 0 /\ z = 0 /\ rt = <<>>
Choose == /\ N = 0
          /\ N' \in 1..MaxN
          /\ \E k \in 1..Primes : q' = PrimesFor(N')[k]
          /\ rt' = Field(N', q')
          /\ z' = rt'[1]
Next == Choose
Spec == Init /\ [][Next]_<<N, q, z, rt>>
=============================================================================
