-------------------------------- MODULE Simd ---------------------------------
(* simd_array: two arrays (slots 1, 2) and one raw block (slot 3) of a user's
   program.  A slot is
     "none"   no object exists
     "empty"  an object without a block
     "held"   the object owns one block for n elements                       *)
EXTENDS Integers, Sequences, FiniteSets

Arrays == {1, 2}
Raw == 3
Slots == Arrays \cup {Raw}
None == [st |-> "none", n |-> 0, v |-> 0]
Empty == [st |-> "empty", n |-> 0, v |-> 0]
Held(n, v) == [st |-> "held", n |-> n, v |-> v]        \* v: what was written last, 0: nothing yet
VARIABLE arr
InitArr == arr = [s \in Slots |-> None]
Set(s, x) == arr' = [arr EXCEPT ![s] = x]
Blocks(f) == Cardinality({s \in Slots : f[s].st = "held"})
Alive(s) == arr[s].st # "none"

\* op: a record [op, s, n, fail, v]
Pre(o) ==
  CASE o.op \in {"ctor0", "ctor"} -> o.s \in Arrays /\ ~Alive(o.s)
    [] o.op \in {"setup", "destroy", "dtor"} -> o.s \in Arrays /\ Alive(o.s)
    [] o.op \in {"write", "writep"} -> arr[o.s].st = "held" /\ arr[o.s].n > 0
    [] o.op = "read" -> arr[o.s].st = "held" /\ arr[o.s].v # 0
    [] o.op = "malloc" -> o.s = Raw /\ ~Alive(Raw)
    [] o.op = "free" -> o.s = Raw /\ Alive(Raw)
Post(o) ==
  CASE o.op = "ctor0" -> Empty
    [] o.op = "ctor"  -> IF o.fail = 1 THEN None ELSE Held(o.n, 0)
    [] o.op = "setup" -> IF o.fail = 1 THEN Empty ELSE Held(o.n, 0)
    [] o.op = "destroy" -> Empty
    [] o.op = "dtor"  -> None
    [] o.op \in {"write", "writep"} -> [arr[o.s] EXCEPT !.v = o.v]
    [] o.op = "read"  -> arr[o.s]
    [] o.op = "malloc" -> IF o.fail = 1 THEN None ELSE Held(o.n, 0)
    [] o.op = "free"  -> None
Throws(o) == o.fail = 1 /\ o.op \in {"ctor", "setup"}
Do(o) == Pre(o) /\ Set(o.s, Post(o))
Op(op, s, n, fail, v) == [op |-> op, s |-> s, n |-> n, fail |-> fail, v |-> v]
OpsOf(S, N) == {Op("ctor0", s, 0, 0, 0) : s \in S \cap Arrays}
       \cup {Op(o, s, n, f, 0) : o \in {"ctor", "setup"}, s \in S \cap Arrays, n \in N, f \in {0, 1}}
       \cup {Op(o, s, 0, 0, 0) : o \in {"destroy", "dtor"}, s \in S \cap Arrays}
       \cup {Op(o, s, 0, 0, v) : o \in {"write", "writep"}, s \in S, v \in {1, 2}}
       \cup {Op("read", s, 0, 0, 0) : s \in S}
       \cup {Op("malloc", s, n, f, 0) : s \in S \cap {Raw}, n \in N, f \in {0, 1}}
       \cup {Op("free", s, 0, 0, 0) : s \in S \cap {Raw}}
=============================================================================
