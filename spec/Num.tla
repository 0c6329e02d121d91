------------------------------- MODULE Num -------------------------------
(* Numbers as the specification sees them.

   A number is either a TLA+ integer, a literal such as "0.25" or "1e-8"
   (denoting the double nearest to it, which is what the C code reads), an
   exact decimal "#d", or one of "nan", "inf", "-inf".

   TLC has no arithmetic on non-integers, so the operators below are evaluated
   by java/vnum/Num.java: sums, products and comparisons are exact (every double
   is a decimal); quotients, roots, exponentials and logarithms are rounded to
   50 significant digits. Non-finite operands follow IEEE 754; every comparison
   with "nan" is FALSE. The bodies given here state the meaning, in terms of the
   primitive operators, of the compound ones.                               *)
EXTENDS Integers, Sequences

NFin(a)    == CHOOSE r \in BOOLEAN : TRUE     \* a is finite
NNaN(a)    == CHOOSE r \in BOOLEAN : TRUE
NLt(a,b)   == CHOOSE r \in BOOLEAN : TRUE     \* a <  b
NLe(a,b)   == CHOOSE r \in BOOLEAN : TRUE     \* a <= b
NEq(a,b)   == CHOOSE r \in BOOLEAN : TRUE
NAdd(a,b)  == CHOOSE r \in STRING : TRUE
NSub(a,b)  == CHOOSE r \in STRING : TRUE
NMul(a,b)  == CHOOSE r \in STRING : TRUE
NDiv(a,b)  == CHOOSE r \in STRING : TRUE
NNeg(a)    == CHOOSE r \in STRING : TRUE
NSqrt(a)   == CHOOSE r \in STRING : TRUE
NExp(a)    == CHOOSE r \in STRING : TRUE
NLog(a)    == CHOOSE r \in STRING : TRUE
NOmega(a)  == CHOOSE w \in STRING : NLt(0,w) /\ NEq(NAdd(w,NLog(w)),a)    \* the Wright function, on reals
NFloor(a)  == CHOOSE r \in Int : TRUE         \* largest integer <= a
NAbs(a)    == IF NLt(a,0) THEN NNeg(a) ELSE a
NMax(a,b)  == IF NLt(a,b) THEN b ELSE a
NMin(a,b)  == IF NLt(a,b) THEN a ELSE b

RECURSIVE NSumF(_,_)
NSumF(f,k) == IF k = 0 THEN 0 ELSE NAdd(NSumF(f,k-1), f[k])

NDot(a,b)    == NSumF([i \in 1..Len(a) |-> NMul(a[i],b[i])], Len(a))
NAbsDot(a,b) == NSumF([i \in 1..Len(a) |-> NAbs(NMul(a[i],b[i]))], Len(a))
NNorm(a)     == NSqrt(NDot(a,a))
VAdd(a,b)    == [i \in 1..Len(a) |-> NAdd(a[i],b[i])]
VSub(a,b)    == [i \in 1..Len(a) |-> NSub(a[i],b[i])]
VMul(a,b)    == [i \in 1..Len(a) |-> NMul(a[i],b[i])]
VDiv(a,b)    == [i \in 1..Len(a) |-> NDiv(a[i],b[i])]
VScale(c,a)  == [i \in 1..Len(a) |-> NMul(c,a[i])]
VClose(a,b,rel,abs) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : IF NFin(a[i]) /\ NFin(b[i])
        THEN NLe(NAbs(NSub(a[i],b[i])), NAdd(NMul(rel,NMax(NAbs(a[i]),NAbs(b[i]))),abs))
        ELSE a[i] = b[i]

(* Compressed-column matrix (0-based jc, ir; Len(jc) = columns + 1). *)
ColOf(jc,k)  == CHOOSE j \in 1..Len(jc)-1 : jc[j] < k /\ k <= jc[j+1]
NMatVec(jc,ir,pr,v,rows) ==
  [i \in 1..rows |-> NSumF([k \in 1..Len(pr) |-> IF ir[k] = i-1 THEN NMul(pr[k], v[ColOf(jc,k)]) ELSE 0], Len(pr))]
NMatTVec(jc,ir,pr,v,cols) ==
  [j \in 1..cols |-> NSumF([k \in 1..Len(pr) |-> IF ColOf(jc,k) = j THEN NMul(pr[k], v[ir[k]+1]) ELSE 0], Len(pr))]

(* the solution of a square linear system (M a sequence of rows), <<>> if it is singular *)
NSolve(M,r) == CHOOSE x \in [1..Len(r) -> STRING] : \A i \in 1..Len(r) : NEq(NDot(M[i],x),r[i])

(* A fixed pseudo-random function into 0..mod-1, used only by generators. *)
Rnd(seed,tag,mod) == CHOOSE r \in 0..mod-1 : TRUE
=============================================================================
