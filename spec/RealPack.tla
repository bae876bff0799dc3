------------------------------ MODULE RealPack ------------------------------
(* Design level: the real transform through a complex transform of half the
   length, and the cosine transform through the real transform.

   Checked against the defining sums, for every even length up to MaxN and every
   input of a basis (all maps are linear over the reals): the packing, the
   recombination with its exact Hermitian image, the inverse that reads only the
   first half of its argument, and the cosine transform both ways.  Also the
   rules ConjTerm, IsReal, IsHermitian of Signal.tla with the real conjugation. *)
EXTENDS CField, TLC
CONSTANT MaxN

S == INSTANCE Signal

VARIABLES N, q, rt, ph, hist
vars == <<N, q, rt, ph, hist>>
\* rt: powers of a root of order 8N
Z(a) == rt[(a % (8*N)) + 1]
half == InvIn(2, q)
Cos(a) == CScale(half, CAdd(Z(a), Z(-a), q), q)
h == N \div 2

Dft(x, n, k) == CSum(LAMBDA p : CMul(x[p], Z(-8*(N \div n)*k*p), q), n - 1, q)
Idft(x, n, k) == CSum(LAMBDA p : CMul(x[p], Z(8*(N \div n)*k*p), q), n - 1, q)
Dct(x, k) == CSum(LAMBDA p : CMul(x[p], Cos(2*(2*p + 1)*k), q), N - 1, q)
Idct(x, p) == CAdd(x[0], CScale(2, CSum(LAMBDA k : IF k = 0 THEN CZero ELSE CMul(x[k], Cos(2*(2*p + 1)*k), q), N - 1, q), q), q)

Delta(j, c) == [p \in 0..(N-1) |-> IF p = j THEN c ELSE CZero]

\* real forward: pack, transform half the length, recombine, mirror
RfftFwd(x) ==
  LET z == [p \in 0..(h-1) |-> <<x[2*p][1], x[2*p + 1][1]>>]
      Y == [k \in 0..(h-1) |-> Dft(z, h, k)]
      Even(k) == CScale(half, CAdd(Y[k % h], Conj(Y[(h - k) % h], q), q), q)
      Odd(k) == CMul(CScale(half, CI, q), CSub(Conj(Y[(h - k) % h], q), Y[k % h], q), q)
      up == [k \in 0..h |-> CAdd(Even(k), CMul(Z(-8*k), Odd(k), q), q)]
  IN [k \in 0..(N-1) |-> IF k <= h THEN up[k] ELSE Conj(up[N - k], q)]
\* real inverse: only X[0..N/2] is read
RfftInv(X) ==
  LET Ev(k) == CScale(half, CAdd(X[k], Conj(X[h - k], q), q), q)
      Od(k) == CMul(CScale(half, Z(8*k), q), CSub(X[k], Conj(X[h - k], q), q), q)
      z == [k \in 0..(h-1) |-> CAdd(Ev(k), CMul(CI, Od(k), q), q)]
      y == [p \in 0..(h-1) |-> CScale(2, Idft(z, h, p), q)]
  IN [p \in 0..(N-1) |-> IF p % 2 = 0 THEN <<y[p \div 2][1], 0>> ELSE <<y[p \div 2][2], 0>>]
\* cosine transform: even samples up, odd samples down, real transform, quarter twist
DctFwd(x) ==
  LET v == [p \in 0..(N-1) |-> IF p < h THEN x[2*p] ELSE x[2*(N - 1 - p) + 1]]
      V == RfftFwd(v)
  IN [k \in 0..(N-1) |-> <<CMul(V[k], Z(-2*k), q)[1], 0>>]
DctInv(X) ==
  LET V == [k \in 0..(N-1) |-> IF k = 0 THEN X[0] ELSE CMul(CSub(X[k], CMul(CI, X[N - k], q), q), Z(2*k), q)]
      v == RfftInv(V)
  IN [p \in 0..(N-1) |-> IF p % 2 = 0 THEN v[p \div 2] ELSE v[N - 1 - (p \div 2)]]

Init == N = 0 /\ q = 0 /\ rt = <<>> /\ ph = 0 /\ hist = 0
Choose == /\ N = 0
          /\ N' \in 1..MaxN
          /\ q' = CPrime(8*N', 200)
          /\ rt' = CPowers(8*N', q')
          /\ ph' \in 0..(N' - 1)            \* the unit vector put in
          /\ hist' \in {0, 1, 2}            \* which of the three parts is looked at
Next == Choose
Spec == Init /\ [][Next]_vars
Even_ == N > 0 /\ N % 2 = 0
j == ph
RealOK == (Even_ /\ hist = 0) =>
  LET x == Delta(j, COne)
      X == RfftFwd(x)
      b == RfftInv([k \in 0..(N-1) |-> IF k <= h THEN X[k] ELSE <<3, 5>>])     \* the upper half is not read
  IN /\ \A k \in 0..(N-1) : X[k] = Dft(x, N, k) /\ X[(N - k) % N] = Conj(X[k], q)
     /\ \A p \in 0..(N-1) : b[p] = CScale(N, x[p], q)
\* the inverse on a basis of Hermitian spectra
InvOK == (Even_ /\ hist = 1 /\ j <= h) => \A c \in (IF j \in {0, h} THEN {COne} ELSE {COne, CI}) :
  LET X == [k \in 0..(N-1) |-> IF k = j THEN c ELSE IF k = N - j THEN Conj(c, q) ELSE CZero]
      y == RfftInv(X)
  IN \A p \in 0..(N-1) : y[p] = Idft(X, N, p)
DctOK == (Even_ /\ hist = 2) =>
  LET x == Delta(j, COne)
      X == DctFwd(x)
      y == DctInv(x)
  IN \A k \in 0..(N-1) : X[k] = Dct(x, k) /\ y[k] = Idct(x, k)

\* ---- Signal.tla: conjugation and reality, all terms
SqrtN == IF N % 2 = 1 THEN CMul(CSum(LAMBDA p : Z(8*p*p), N - 1, q), Z(IF N % 4 = 1 THEN 0 ELSE 6*N), q)
         ELSE CMul(CSum(LAMBDA p : Z(4*p*p), N - 1, q), Z(7*N), q)
A4 == IF N = 1 THEN 0 ELSE N - S!Inv4(N)
Basis(t, i, p) ==
  CASE t \in {"d", "Dd"} -> IF p = i % N THEN COne ELSE CZero
    [] t = "t" -> Z(8 * ((i*p) % N))
    [] t = "p" -> Z(4*p*p + 8*((i*p) % N))
    [] t = "m" -> Z((8*N - ((4*p*p) % (8*N))) + 8*((i*p) % N))
    [] t = "q" -> Z(8*((p*p + i*p) % N))
    [] t = "r" -> Z(8*((A4*p*p + i*p) % N))
    [] t = "Dc" -> Cos(2*(2*p+1)*i)
    [] t = "Ds" -> Cos(2*(2*i+1)*p)
Val(x, p) == CMul(CMul(<<S!Re(x) % q, S!Im(x) % q>>, Z(S!Ph(x)), q), CMul(CScale(PowMod(2, S!Ex(x), q), CPow(SqrtN, S!Hx(x), q), q), Basis(S!Ty(x), S!Ix(x), p), q), q)
ValS(s, p) == IF Len(s) = 1 THEN Val(s[1], p) ELSE CAdd(Val(s[1], p), Val(s[2], p), q)
Coef == {<<1, 0, 0, 0, 0>>, <<2, -3, 5, 1, 2>>, <<2, 0, 4*N, 1, 0>>}
Types == IF N % 2 = 1 THEN {"d", "t", "q", "r"} ELSE {"d", "t", "p", "m"}
TermsJ == {S!T(t, i, c[1], c[2], c[3], c[4], c[5]) : t \in Types, i \in {j}, c \in Coef}
SqrtOK == N > 0 => SqrtN[2] = 0 /\ CMul(SqrtN, SqrtN, q) = <<N % q, 0>>
\* conjugate terms (none is claimed for the quadratic chirps of odd lengths)
ConjOK == (N > 0 /\ hist = 0) => \A x \in TermsJ : S!Ty(x) \notin {"q", "r"} =>
            \A p \in 0..(N-1) : Val(S!ConjTerm(N, x), p) = Conj(Val(x, p), q)
\* a signal declared real is real; one declared Hermitian is, and its inverse transform is real
Signals == {<<x>> : x \in TermsJ} \cup {<<x, S!ConjTerm(N, x)>> : x \in {y \in TermsJ : S!Ty(y) \notin {"q", "r"}}}
RealRule == (N > 0 /\ hist = 1) => \A s \in Signals : (\A k \in 1..Len(s) : S!Ty(s[k]) \notin {"q", "r"}) /\ S!IsReal(N, s) => \A p \in 0..(N-1) : ValS(s, p)[2] = 0
HermRule == (Even_ /\ hist = 2) => \A s \in Signals : S!IsHermitian(N, s) => \A k \in 0..(N-1) : ValS(s, (N - k) % N) = Conj(ValS(s, k), q)
=============================================================================
