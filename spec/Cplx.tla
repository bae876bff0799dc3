-------------------------------- MODULE Cplx ---------------------------------
(* complex_t as the field of complex numbers, on Gaussian integers: three
   variables of a user's program and the public operations on them.  An
   instruction is a record; operands may be the same variable, or a part of
   the variable that is assigned to.                                         *)
EXTENDS Integers, Sequences, FiniteSets

Regs == 1..3
Z(x, y) == [re |-> x, im |-> y]
ZAdd(a, b) == Z(a.re + b.re, a.im + b.im)
ZSub(a, b) == Z(a.re - b.re, a.im - b.im)
ZMul(a, b) == Z(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
ZScale(x, a) == Z(x * a.re, x * a.im)
ZConj(a) == Z(a.re, -a.im)
Norm(a) == a.re * a.re + a.im * a.im
RECURSIVE Pow2(_)
Pow2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ Pow2(n \div 2))
Abs(x) == IF x < 0 THEN -x ELSE x
Divides(d, x) == d # 0 /\ Abs(x) % Abs(d) = 0
DivI(x, d) == IF (x < 0) = (d < 0) THEN Abs(x) \div Abs(d) ELSE -(Abs(x) \div Abs(d))
\* a divided by the real x
RDivOK(a, x) == Divides(x, a.re) /\ Divides(x, a.im)
RDiv(a, x) == Z(DivI(a.re, x), DivI(a.im, x))
ZDivOK(a, b) == Norm(b) # 0 /\ RDivOK(ZMul(a, ZConj(b)), Norm(b))
ZDiv(a, b) == RDiv(ZMul(a, ZConj(b)), Norm(b))
RootMax == 2900          \* values stay small enough for this
IsSquare(n) == \E k \in 0..RootMax : k * k = n
Root(n) == CHOOSE k \in 0..RootMax : k * k = n
\* the directions whose argument is a multiple of pi/4
Octant(a) == CASE a.re > 0 /\ a.im = 0 -> 0
               [] a.re > 0 /\ a.im = a.re -> 1
               [] a.re = 0 /\ a.im > 0 -> 2
               [] a.re < 0 /\ a.im = -a.re -> 3
               [] a.re < 0 /\ a.im = 0 -> 4
               [] a.re < 0 /\ a.im = a.re -> -3
               [] a.re = 0 /\ a.im < 0 -> -2
               [] a.re > 0 /\ a.im = -a.re -> -1
               [] OTHER -> 99

\* ---- instructions: [op, d, a, b, x, y]; d = 0: the instruction yields a real
Assign2 == {"add=", "sub=", "mul="}
Unary   == {"copy", "std", "conj", "neg", "jx", "mjx"}
Binary  == {"add", "sub", "mul", "div"}
Reals   == {"norm", "abs", "Re", "Im", "arg", "stdRe", "stdIm"}

Enabled(g, r) ==
  CASE g.op \in {"set", "setr", "def", "asg"} -> TRUE
    [] g.op \in Assign2 \cup Unary -> TRUE
    [] g.op = "div" -> ZDivOK(r[g.a], r[g.b])
    [] g.op \in Binary -> TRUE
    [] g.op \in {"rmul=", "rmulRe=", "rmulIm=", "smul", "smulRe", "addr", "subr", "rsub", "mulr"} -> TRUE
    [] g.op = "rdivz" -> ZDivOK(Z(g.x, 0), r[g.a])
    [] g.op \in {"rdiv=", "sdiv"} -> RDivOK(r[g.a], g.x)
    [] g.op = "rdivRe=" -> RDivOK(r[g.d], r[g.a].re)
    [] g.op = "rdivIm=" -> RDivOK(r[g.d], r[g.a].im)
    [] g.op = "abs" -> IsSquare(Norm(r[g.a]))
    [] g.op = "arg" -> Octant(r[g.a]) # 99
    [] g.op \in Reals -> TRUE

Value(g, r) ==       \* what is assigned to the variable d
  CASE g.op = "set"  -> Z(g.x, g.y)
    [] g.op \in {"setr", "asg"} -> Z(g.x, 0)
    [] g.op = "def"  -> Z(0, 0)
    [] g.op \in {"copy", "std"} -> r[g.a]
    [] g.op = "conj" -> ZConj(r[g.a])
    [] g.op = "neg"  -> ZSub(Z(0, 0), r[g.a])
    [] g.op = "jx"   -> ZMul(Z(0, 1), r[g.a])
    [] g.op = "mjx"  -> ZMul(Z(0, -1), r[g.a])
    [] g.op = "add=" -> ZAdd(r[g.d], r[g.a])
    [] g.op = "sub=" -> ZSub(r[g.d], r[g.a])
    [] g.op = "mul=" -> ZMul(r[g.d], r[g.a])
    [] g.op = "rmul=" -> ZScale(g.x, r[g.d])
    [] g.op = "rmulRe=" -> ZScale(r[g.a].re, r[g.d])
    [] g.op = "rmulIm=" -> ZScale(r[g.a].im, r[g.d])
    [] g.op = "rdiv=" -> RDiv(r[g.d], g.x)
    [] g.op = "rdivRe=" -> RDiv(r[g.d], r[g.a].re)
    [] g.op = "rdivIm=" -> RDiv(r[g.d], r[g.a].im)
    [] g.op = "add"  -> ZAdd(r[g.a], r[g.b])
    [] g.op = "sub"  -> ZSub(r[g.a], r[g.b])
    [] g.op = "mul"  -> ZMul(r[g.a], r[g.b])
    [] g.op = "div"  -> ZDiv(r[g.a], r[g.b])
    [] g.op = "smul" -> ZScale(g.x, r[g.a])
    [] g.op = "smulRe" -> ZScale(r[g.b].re, r[g.a])
    [] g.op = "sdiv" -> RDiv(r[g.a], g.x)
    [] g.op = "addr" -> ZAdd(r[g.a], Z(g.x, 0))
    [] g.op = "subr" -> ZSub(r[g.a], Z(g.x, 0))
    [] g.op = "rsub" -> ZSub(Z(g.x, 0), r[g.a])
    [] g.op = "mulr" -> ZMul(r[g.a], Z(g.x, 0))
    [] g.op = "rdivz" -> ZDiv(Z(g.x, 0), r[g.a])
RealValue(g, r) ==
  CASE g.op = "norm" -> Norm(r[g.a])
    [] g.op = "abs" -> Root(Norm(r[g.a]))
    [] g.op \in {"Re", "stdRe"} -> r[g.a].re
    [] g.op \in {"Im", "stdIm"} -> r[g.a].im
    [] g.op = "arg" -> Octant(r[g.a])

\* exact, or (quotients whose divisor has no power of two as norm) to a few units of rounding
Slack(g, r) == IF (g.op = "div" /\ ~Pow2(Norm(r[g.b]))) \/ (g.op = "rdivz" /\ ~Pow2(Norm(r[g.a]))) THEN 8 ELSE IF g.op = "arg" THEN 1 ELSE 0
\* operations on arbitrary operands: units of rounding relative to the size of the result
Bound(op) == CASE op \in {"add", "sub", "smul", "sdiv", "conj", "neg", "jx", "mjx", "rmul=", "rdiv="} -> 1
               [] op \in {"mul", "mul=", "norm", "abs", "arg", "expj", "polar"} -> 4
               [] OTHER -> 8

\* the instructions worth telling apart
I(op, d, a, b, x, y) == [op |-> op, d |-> d, a |-> a, b |-> b, x |-> x, y |-> y]
Instrs(K) ==
     {I(op, d, a, 0, 0, 0) : op \in Assign2 \cup Unary \cup {"rmulRe=", "rmulIm=", "rdivRe=", "rdivIm="}, d \in Regs, a \in Regs}
  \cup {I(op, d, a, b, 0, 0) : op \in Binary \cup {"smulRe"}, d \in Regs, a \in Regs, b \in Regs}
  \cup {I("rmul=", d, 0, 0, x, 0) : d \in Regs, x \in K}
  \cup {I("rdiv=", d, d, 0, x, 0) : d \in Regs, x \in K \ {0}}
  \cup {I(op, d, a, 0, x, 0) : op \in {"smul", "addr", "subr", "rsub", "mulr", "rdivz"}, d \in Regs, a \in Regs, x \in K}
  \cup {I("sdiv", d, a, 0, x, 0) : d \in Regs, a \in Regs, x \in K \ {0}}
  \cup {I(op, 0, a, 0, 0, 0) : op \in Reals, a \in Regs}
Consts(K) == {I("set", d, 0, 0, x, y) : d \in Regs, x \in K, y \in K} \cup {I(op, d, 0, 0, x, 0) : op \in {"setr", "asg"}, d \in Regs, x \in K}
             \cup {I("def", d, 0, 0, 0, 0) : d \in Regs}
=============================================================================
