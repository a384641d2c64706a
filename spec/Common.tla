------------------------------- MODULE Common -------------------------------
(* Verdict helpers shared by the trace-specification modules.  A verdict is   *)
(* the set of names of violated clauses; {} means the event is allowed.       *)
EXTENDS Integers, Sequences, FiniteSets

Chk(cond, name) == IF cond THEN {} ELSE {name}

Abs(n) == IF n < 0 THEN -n ELSE n


Has(r, f) == f \in DOMAIN r

Scale == 4096      \* fixed-point unit of recorded real numbers

\* recorded tensors: k = "t" (tensor) or another tag, sh = shape, v = nested values
IsT(t) == t.k = "t"
IsShape(t, sh) == t.k = "t" /\ t.sh = sh
IsMat(t, n) == t.k = "t" /\ Len(t.sh) = 2 /\ t.sh[1] = n

\* q is the recorded fixed-point value of a number that should be num/den
Near(q, num, den, tol) == LET e == (num * Scale) \div den
                          IN q - e <= tol + 1 /\ e - q <= tol
\* the same with another fixed-point unit
NearS(q, num, den, tol, s) == LET e == (num * s) \div den
                              IN q - e <= tol + 1 /\ e - q <= tol
Close(p, q, tol) == p - q <= tol /\ q - p <= tol

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))

Vec3(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
VecAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
ZeroVec(n) == [i \in 1..n |-> 0]
Concat(ss) == LET RECURSIVE C(_)
                  C(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o C(i + 1)
              IN C(1)
=============================================================================
