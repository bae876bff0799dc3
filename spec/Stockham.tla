------------------------------ MODULE Stockham ------------------------------
(* Design level: the self-sorting transform behind every direct kernel of the
   library (radix 4, 8, 16, mixed radix, any radix).  Two arrays, the caller's
   and a work array, are read and written in turn; a step of radix r turns s
   interleaved transforms of length n into r*s of length n/r; the last step
   must put the result into the caller's array, whichever array it read.

   Any divisor may be taken at any step.  Checked for every length, every order
   of the radices, both directions and every unit vector as input (the steps are linear, so
   that is every input): the transform still to be done on the array that is
   read next always gives the transform of the input (Owed), and when the machine stops
   the caller's array holds the transform (Result).  Plan.tla fixes the choice
   of radices the library makes. *)
EXTENDS Field, TLC
CONSTANT Lengths, Below      \* lengths; radices above Below only if prime (keeps the number of orders small)

VARIABLES N, q, w, j, dir, n, s, eo, A, B, pc
vars == <<N, q, w, j, dir, n, s, eo, A, B, pc>>

W(a) == w[(dir * a) % N]
Src == IF eo THEN B ELSE A
X(k) == W(j * k)                                   \* the transform of the j-th unit vector
Idx == 0..(N - 1)

Init == /\ pc = "pick" /\ N = 0 /\ q = 0 /\ w = <<>> /\ j = 0 /\ dir = 1 /\ n = 0 /\ s = 0 /\ eo = FALSE /\ A = <<>> /\ B = <<>>

Pick == /\ pc = "pick"
        /\ N' \in Lengths
        /\ q' = PrimeAbove(N', 60)
        /\ w' = Powers(N', q')
        /\ j' \in 0..(N' - 1)
        /\ dir' \in {1, -1}
        /\ A' = [i \in 0..(N' - 1) |-> IF i = j' THEN 1 ELSE 0]
        /\ B' = [i \in 0..(N' - 1) |-> 2]                              \* arbitrary contents
        /\ n' = N' /\ s' = 1 /\ eo' = FALSE /\ pc' = "run"

\* one butterfly step: read Src, write the other array
Core(r) ==
  LET m == n \div r
      out == [i \in Idx |->
                LET a == i % s                                          \* i = a + s*(r*p + k)
                    k == (i \div s) % r
                    p == i \div (s * r)
                IN (SumTo(LAMBDA l : (Src[a + s*(p + m*l)] * W(m*s*k*l)) % q, r - 1, q) * W(k*p*s)) % q]
  IN /\ pc = "run" /\ n > r /\ n % r = 0
     /\ IF eo THEN A' = out /\ B' = B ELSE B' = out /\ A' = A
     /\ n' = m /\ s' = s * r /\ eo' = ~eo
     /\ UNCHANGED <<N, q, w, j, dir, pc>>

\* the last step: no twiddle factor, the result goes to the caller's array
End == /\ pc = "run"
       /\ A' = [i \in Idx |-> LET a == i % s
                                  k == i \div s
                              IN SumTo(LAMBDA l : (Src[a + s*l] * W(s*k*l)) % q, n - 1, q)]
       /\ pc' = "done"
       /\ UNCHANGED <<N, q, w, j, dir, n, s, eo, B>>

Radix(r) == r > 1 /\ (r <= Below \/ IsPrime(r))
Next == Pick \/ (\E r \in 2..(IF n < 2 THEN 2 ELSE n) : Radix(r) /\ Core(r)) \/ (Radix(IF n = 0 THEN 2 ELSE IF n = 1 THEN 2 ELSE n) /\ End)
Spec == Init /\ [][Next]_vars

Size == pc # "pick" => n * s = N
Owed == pc = "run" => \A a \in 0..(s-1), k \in 0..(n-1) : SumTo(LAMBDA p : (Src[a + s*p] * W(s*k*p)) % q, n - 1, q) = X(a + s*k)
Result == pc = "done" => \A k \in Idx : A[k] = X(k)
=============================================================================
