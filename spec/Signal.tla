------------------------------- MODULE Signal -------------------------------
(* Exact algebra of signals, closed under the transforms of the library.

   A signal of length N is a finite sum of terms, a sequence of tuples
        << t, i, re, im, ph, h, e >>
   which stands for   (re + i*im) * zeta^ph * N^(h/2) * 2^e * basis(t,i)
   with zeta = exp(2*pi*i/(8N)) and the basis vectors (p is the element index)
     "d"  delta            [p = i]
     "t"  tone             exp(+2 pi i * i*p/N)
     "p"  up chirp         exp(+i pi p^2/N + 2 pi i * i*p/N)        (N even)
     "m"  down chirp       exp(-i pi p^2/N + 2 pi i * i*p/N)        (N even)
     "q"  quadratic chirp  exp(2 pi i * (p^2 + i*p)/N)              (N odd)
     "r"  quadratic chirp  exp(2 pi i * (a p^2 + i*p)/N), 4a = -1   (N odd)
     "Dd" delta of a real (cosine transform) array
     "Dc" cosine over time index  p:  cos(pi (2p+1) i / (2N))
     "Ds" cosine over frequency k:    cos(pi (2i+1) k / (2N))
   Deltas and tones are bases, chirps are flat and dense on both sides of the
   transform, so a transform that is wrong in any coefficient shows on them.
   All arithmetic is on integers; lengths go up to 2^27.  SignalSem.tla checks
   every rule below against the defining sums. *)
EXTENDS Integers, Sequences

T(t, i, re, im, ph, h, e) == <<t, i, re, im, ph, h, e>>
Ty(x) == x[1]
Ix(x) == x[2]
Re(x) == x[3]
Im(x) == x[4]
Ph(x) == x[5]
Hx(x) == x[6]
Ex(x) == x[7]

Mod(a, n) == a % n                     \* TLA+ % is the non-negative remainder

\* a*b mod n without leaving 32 bit integers (n < 2^30)
RECURSIVE MulMod(_, _, _)
MulMod(a, b, n) ==
  IF b = 0 THEN 0
  ELSE LET half == MulMod(a, b \div 2, n)
           dbl  == (half + half) % n
       IN IF b % 2 = 1 THEN (dbl + a) % n ELSE dbl

Odd(N) == N % 2 = 1
\* inverses of 2 and 4 modulo an odd N
Inv2(N) == IF N = 1 THEN 0 ELSE (N + 1) \div 2
Inv4(N) == IF N = 1 THEN 0 ELSE MulMod(Inv2(N), Inv2(N), N)
\* phase units of 1/(8N) turn
Ph8(N, x) == 8 * (x % N)               \* exp(2 pi i x/N)
AddPh(N, a, b) == (a + b) % (8 * N)

---------------------------------------------------------------------------
(* Forward DFT without normalization:  X[k] = sum_p x[p] exp(-2 pi i k p/N) *)
FwdTerm(N, x) ==
  LET i == Ix(x) IN
  CASE Ty(x) = "d" -> T("t", (N - i) % N, Re(x), Im(x), Ph(x), Hx(x), Ex(x))
    [] Ty(x) = "t" -> T("d", i % N, Re(x), Im(x), Ph(x), Hx(x) + 2, Ex(x))
    [] Ty(x) = "p" -> T("m", i, Re(x), Im(x), AddPh(N, Ph(x), (N - 4*i*i) % (8*N)), Hx(x) + 1, Ex(x))
    [] Ty(x) = "m" -> T("p", -i, Re(x), Im(x), AddPh(N, Ph(x), (4*i*i - N) % (8*N)), Hx(x) + 1, Ex(x))
    [] Ty(x) = "q" ->
         LET v  == i % N
             v2 == MulMod(v, v, N)
             g  == IF N % 4 = 1 THEN 0 ELSE 2*N
         IN T("r", MulMod(v, Inv2(N), N), Re(x), Im(x),
              AddPh(N, AddPh(N, Ph(x), g), (8*N - Ph8(N, MulMod(v2, Inv4(N), N))) % (8*N)), Hx(x) + 1, Ex(x))
    [] Ty(x) = "r" ->
         LET w  == i % N
             w2 == MulMod(w, w, N)
             g  == IF N % 4 = 1 THEN 0 ELSE 6*N
         IN T("q", (2*N - 2*w) % N, Re(x), Im(x), AddPh(N, AddPh(N, Ph(x), g), Ph8(N, w2)), Hx(x) + 1, Ex(x))

(* index reversal p -> -p mod N of a complex signal *)
RevTerm(N, x) ==
  IF Ty(x) \in {"d", "t", "q", "r"} THEN T(Ty(x), (N - (Ix(x) % N)) % N, Re(x), Im(x), Ph(x), Hx(x), Ex(x))
  ELSE T(Ty(x), -Ix(x), Re(x), Im(x), Ph(x), Hx(x), Ex(x))

(* the inverse DFT without normalization is the forward one read backwards *)
InvTerm(N, x) == RevTerm(N, FwdTerm(N, x))

(* DCT-II, X[k] = sum_p x[p] cos(pi (2p+1) k/(2N)), for "Dd" and "Dc" *)
DctTerm(N, x) ==
  CASE Ty(x) = "Dd" -> T("Ds", Ix(x), Re(x), Im(x), Ph(x), Hx(x), Ex(x))
    [] Ty(x) = "Dc" -> T("Dd", Ix(x), Re(x), Im(x), Ph(x), Hx(x) + 2, IF Ix(x) = 0 THEN Ex(x) ELSE Ex(x) - 1)
(* its inverse up to 1/N, x[p] = X[0] + 2 sum_{k>0} X[k] cos(pi (2p+1) k/(2N)), for "Dd" and "Ds" *)
IdctTerm(N, x) ==
  CASE Ty(x) = "Dd" -> T("Dc", Ix(x), Re(x), Im(x), Ph(x), Hx(x), IF Ix(x) = 0 THEN Ex(x) ELSE Ex(x) + 1)
    [] Ty(x) = "Ds" -> T("Dd", Ix(x), Re(x), Im(x), Ph(x), Hx(x) + 2, Ex(x))

---------------------------------------------------------------------------
(* the operations: direction and normalization (as exponent of sqrt(N)) *)
FwdOps == {"fwd", "fwd0", "fwdu", "fwdn"}
InvOps == {"inv", "inv0", "invu", "invn"}
Gain(op) == CASE op \in {"fwd0", "inv", "inv0"} -> 0
              [] op \in {"fwdu", "invu"} -> -1
              [] op \in {"fwd", "fwdn", "invn"} -> -2
OpsOf(kind) == IF kind = "D" THEN (FwdOps \cup InvOps) \ {"fwdu", "invu"} ELSE FwdOps \cup InvOps

ScaleTerm(x, h) == T(Ty(x), Ix(x), Re(x), Im(x), Ph(x), Hx(x) + h, Ex(x))

OutTerm(kind, N, op, x) ==
  LET y == IF kind = "D" THEN (IF op \in FwdOps THEN DctTerm(N, x) ELSE IdctTerm(N, x))
           ELSE (IF op \in FwdOps THEN FwdTerm(N, x) ELSE InvTerm(N, x))
  IN ScaleTerm(y, Gain(op))
Out(kind, N, op, s) == [k \in 1..Len(s) |-> OutTerm(kind, N, op, s[k])]

(* operations that cancel each other *)
Pairs == { <<"fwd", "inv">>, <<"fwd", "inv0">>, <<"fwdn", "inv">>, <<"fwdn", "inv0">>, <<"fwd0", "invn">>, <<"fwdu", "invu">> }
Cancel(a, b) == <<a, b>> \in Pairs \/ <<b, a>> \in Pairs

(* normal form of a term: indices and phases reduced; N^(h/2) kept *)
Canon(N, x) == T(Ty(x), IF Ty(x) \in {"p", "m"} THEN Ix(x) ELSE Ix(x) % N, Re(x), Im(x), Ph(x) % (8*N), Hx(x), Ex(x))

(* the sum is a real signal: every term has its conjugate, or is real *)
ConjTerm(N, x) ==
  LET cph == (8*N - Ph(x)) % (8*N) IN
  CASE Ty(x) \in {"d", "Dd", "Dc", "Ds"} -> T(Ty(x), Ix(x), Re(x), -Im(x), cph, Hx(x), Ex(x))
    [] Ty(x) = "t" -> T("t", (N - Ix(x)) % N, Re(x), -Im(x), cph, Hx(x), Ex(x))
    [] Ty(x) = "p" -> T("m", -Ix(x), Re(x), -Im(x), cph, Hx(x), Ex(x))
    [] Ty(x) = "m" -> T("p", -Ix(x), Re(x), -Im(x), cph, Hx(x), Ex(x))
IsRealTerm(N, x) == Ty(x) \in {"d", "Dd", "Dc", "Ds"} /\ Im(x) = 0 /\ Ph(x) % (4*N) = 0
IsReal(N, s) == \A k \in 1..Len(s) :
                   \/ IsRealTerm(N, Canon(N, s[k]))
                   \/ \E m \in 1..Len(s) : Canon(N, s[m]) = Canon(N, ConjTerm(N, Canon(N, s[k])))
(* Hermitian spectrum: its inverse transform is real *)
IsHermitian(N, s) == IsReal(N, [k \in 1..Len(s) |-> InvTerm(N, s[k])])
=============================================================================
