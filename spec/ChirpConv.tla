----------------------------- MODULE ChirpConv ------------------------------
(* Design level: any length through a cyclic convolution of length L (Bluestein).
   The object keeps a work array and the transform of the chirp between calls;
   it may be set up again and used in both directions, in any order.

   Checked over all histories of set-ups and calls up to Depth, every length up to
   MaxN and every L offered by Padded(N), every unit vector: the result is the
   transform of the input whatever the work array held before.  The padded
   part of the work array has to be cleared in every call (Clear) and the
   chirp's mirror image must not overlap its head: L >= 2N - 2 is enough, L = 2N - 3
   is not from N = 3 on (the harness runs Clear = FALSE and Short = 1 and expects a
   counterexample). *)
EXTENDS Field, TLC
CONSTANTS MaxN, Depth, Clear, Short

VARIABLES N, L, q, rt, bt, work, out, j, dir, k, pc
vars == <<N, L, q, rt, bt, work, out, j, dir, k, pc>>

\* one field for everything: roots of order M = 2 * N * L for all N and L used would be huge, so one field per
\* history; set-ups of a history choose among lengths whose orders divide M
M == Len(rt)
Orders == {96, 240, 336}
Z(a) == rt[(a % M) + 1]
Padded(n) == {l \in 1..16 : M % l = 0 /\ l >= 2*n - 2 - Short /\ l >= n}
WN(a) == Z((M \div (2*N)) * a)              \* half steps: exp(i pi a/N)
WL(a) == Z((M \div L) * a)
RECURSIVE Table(_, _, _)
Table(c, i, v) == IF i = 0 THEN <<>> ELSE <<v>> \o Table(c, i - 1, (v * c) % q)
DftL(x, i) == SumTo(LAMBDA p : (x[p] * WL(-i*p)) % q, L - 1, q)
IdftL(x, i) == (InvIn(L, q) * SumTo(LAMBDA p : (x[p] * WL(i*p)) % q, L - 1, q)) % q

Chirp(n, l, z(_), p) == IF p < n THEN z(p*p) ELSE IF l - p < n THEN z((l - p)*(l - p)) ELSE 0

Init == N = 0 /\ L = 0 /\ q = 0 /\ rt = <<>> /\ bt = <<>> /\ work = <<>> /\ out = <<>> /\ j = 0 /\ dir = 0 /\ k = 0 /\ pc = "pick"
Pick == /\ pc = "pick"
        /\ \E m \in Orders : LET p == PrimeAbove(m, 200) IN q' = p /\ rt' = [a \in 1..m |-> PowMod(RootOf(m, p), a - 1, p)]
        /\ pc' = "new" /\ UNCHANGED <<N, L, bt, work, out, j, dir, k>>
\* a set-up allocates (arbitrary contents) or keeps the work array if the padded length is the same
Setup(n, l) ==
  /\ pc \in {"new", "ready"} /\ k < Depth /\ M % (2*n) = 0 /\ l \in Padded(n)
  /\ N' = n /\ L' = l
  /\ LET wn(a) == rt[(((M \div (2*n)) * a) % M) + 1]
         wl(a) == rt[(((M \div l) * a) % M) + 1]
         c == [p \in 0..(l-1) |-> Chirp(n, l, wn, p)]
     IN bt' = [i \in 0..(l-1) |-> SumTo(LAMBDA p : (c[p] * wl(-i*p)) % q, l - 1, q)]
  /\ work' = IF l = L THEN work ELSE [p \in 0..(l-1) |-> 7]
  /\ k' = k + 1 /\ pc' = "ready" /\ out' = <<>> /\ j' = 0 /\ dir' = 0
  /\ UNCHANGED <<q, rt>>
\* forward; the inverse transform is the forward one between two index reversals (no conjugation in this field)
Call(d, jj) ==
  /\ pc = "ready" /\ k < Depth
  /\ LET in(p) == IF p = jj THEN 1 ELSE 0
         a == [p \in 0..(L-1) |-> IF p < N THEN (in(p) * WN(-p*p)) % q ELSE IF Clear THEN 0 ELSE work[p]]
         A == [i \in 0..(L-1) |-> (DftL(a, i) * bt[i]) % q]
         c == [p \in 0..(L-1) |-> IdftL(A, p)]
         f == [i \in 0..(N-1) |-> (c[i] * WN(-i*i)) % q]
     IN /\ work' = c
        /\ out' = IF d = 1 THEN f ELSE [i \in 0..(N-1) |-> f[(N - i) % N]]
  /\ dir' = d /\ j' = jj /\ k' = k + 1
  /\ UNCHANGED <<N, L, q, rt, bt, pc>>
Next == Pick \/ (\E n \in 1..MaxN, l \in 1..16 : Setup(n, l)) \/ (\E d \in {1, -1}, jj \in 0..(N - 1) : Call(d, jj))
Spec == Init /\ [][Next]_vars

Result == out # <<>> => \A i \in 0..(N-1) : out[i] = WN(-2*dir*i*j)
=============================================================================
