------------------------------- MODULE MCCplx --------------------------------
(* The algebra itself: the operations of Cplx.tla satisfy the laws of the
   field, for all Gaussian integers with parts up to B.                      *)
EXTENDS Cplx
CONSTANT B
VARIABLES a, b, c
V == {Z(x, y) : x \in -B..B, y \in -B..B}
Init == a \in V /\ b \in V /\ c \in V
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Zero == Z(0, 0)
One == Z(1, 0)
R == <<a, b, c>>
Laws ==
  /\ ZMul(a, b) = ZMul(b, a) /\ ZMul(a, ZMul(b, c)) = ZMul(ZMul(a, b), c)
  /\ ZMul(a, ZAdd(b, c)) = ZAdd(ZMul(a, b), ZMul(a, c))
  /\ ZMul(One, a) = a /\ ZAdd(a, Value(I("neg", 1, 1, 0, 0, 0), R)) = Zero
  /\ Value(I("jx", 1, 1, 0, 0, 0), R) = Z(-a.im, a.re) /\ Value(I("mjx", 1, 1, 0, 0, 0), R) = Z(a.im, -a.re)
  /\ Norm(ZMul(a, b)) = Norm(a) * Norm(b) /\ ZMul(a, ZConj(a)) = Z(Norm(a), 0)
  /\ ZConj(ZMul(a, b)) = ZMul(ZConj(a), ZConj(b))
  /\ (b # Zero) => (ZDivOK(ZMul(a, b), b) /\ ZDiv(ZMul(a, b), b) = a)
  /\ ZDivOK(a, b) => ZMul(ZDiv(a, b), b) = a
  /\ (Octant(a) # 99 /\ Octant(b) # 99) => (Octant(ZMul(a, b)) - Octant(a) - Octant(b)) % 8 = 0
=============================================================================
