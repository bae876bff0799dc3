-------------------------------- MODULE Plan ---------------------------------
(* The steps the mixed-radix transform takes for a length: the radix is 8, 4,
   2, 5, 3, else the smallest divisor.  Together with Stockham.tla (any radices,
   in any order, give the transform) this is the whole decomposition.  Checked
   for every length: the radices multiply to the length, each is one of the
   fixed ones or a prime, and the bytes the steps move stay within Cost!Direct.
   With Show, the classes of steps of every length are listed; the checks
   choose lengths that together take every class.                            *)
EXTENDS Cost, TLC, Json, IOUtils
CONSTANT Show
Given == IF "LENS" \in DOMAIN IOEnv THEN LET j == JsonDeserialize(IOEnv.LENS) IN {j[k] : k \in 1..Len(j)} ELSE 2..6000

VARIABLES N, n, s, eo, moved, path
vars == <<N, n, s, eo, moved, path>>
Init == N \in Given /\ n = N /\ s = 1 /\ eo = FALSE /\ moved = 0 /\ path = <<>>

RECURSIVE Least(_, _)
Least(k, d) == IF k % d = 0 THEN d ELSE IF d * d > k THEN k ELSE Least(k, d + 2)
Radix == IF n % 8 = 0 THEN 8 ELSE IF n % 4 = 0 THEN 4 ELSE IF n % 2 = 0 THEN 2 ELSE IF n % 5 = 0 THEN 5 ELSE IF n % 3 = 0 THEN 3 ELSE Least(n, 7)
\* read and written once per element, and the weights; a step of another radix r reads r elements and r weights for each
Moves(r) == IF r \in {2, 3, 4, 5, 8} THEN 48 ELSE 48 + 32 * r
Class(r, what) == <<IF r \in {2, 3, 4, 5, 8} THEN ToString(r) ELSE "any", what,
                    IF s = 1 THEN "1" ELSE IF s % 2 = 0 THEN "even" ELSE "odd", IF eo THEN "work" ELSE "own",
                    IF r \in {2, 3, 4, 5, 8} THEN "" ELSE IF r = 7 THEN "7" ELSE "p">>
Step == /\ n > 1
        /\ LET r == Radix IN
           /\ path' = Append(path, Class(r, IF n = r THEN "end" ELSE "core"))
           /\ n' = n \div r /\ s' = s * r /\ eo' = ~eo /\ moved' = moved + Moves(r)
           /\ (Show /\ n = r) => PrintT(ToJson(<<N, path'>>))
        /\ UNCHANGED N
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Whole == n * s = N /\ (n > 1 => N % Radix = 0)
Prime(p) == p > 1 /\ \A d \in 2..p : d * d > p \/ p % d # 0
Fixed == n > 1 => Radix \in {2, 3, 4, 5, 8} \/ (Prime(Radix) /\ Radix > 5)
Fast == moved <= 3 * Direct(N)
Ends == <>(n = 1)
=============================================================================
