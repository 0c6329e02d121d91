------------------------------- MODULE Branch -------------------------------
(* The steps of the search (BB) as relations between consecutive node tables.

   A relaxation is a record [fl, x, v, lo, hi]: exit flag, the integer variables of its
   solution, its objective value and the box it was solved for. A step of the
   search bounds a node by solving a sequence of relaxations (the first one for
   the node's own box), decides how the node would be split and tries to round;
   or splits a node; or chooses the next node.

   Pseudocosts pc = [s0,n0,s1,n1]: for each integer variable the sum and the number of
   the gains per unit of change seen so far when it was forced down (0) or up (1). *)
EXTENDS BB

MostFractional == 0  Strong == 1  Pseudo == 2  Reliability == 3  RandomVar == 4
Usable(rl) == rl.fl \in {0,10,-1,-2}            \* its value becomes a bound
Infeas(rl) == rl.fl \in {1,2,11,12}
Known(rl)  == rl.fl \in {0,1,2,10,11,12,-1,-2}
Nearest(a) == NFloor(NAdd(a,"0.5"))
Dist(a)    == NAbs(NSub(a,Nearest(a)))          \* to the integers
Part(a)    == NSub(a,NFloor(a))
Integral(a,itol) == NLt(Dist(a),itol)
Surely(a,itol)   == NLe(NMul(itol,"1.000001"),Dist(a))
About(a,b,rel) == IF NFin(a) /\ NFin(b) THEN NLe(NAbs(NSub(a,b)),NMul(rel,NAdd(1,NMax(NAbs(a),NAbs(b))))) ELSE a = b
Over(v,U)   == NLt(NAdd(U,NMul("1e-9",NAdd(1,NAbs(U)))),v)       \* v > U for certain
Under(v,U)  == ~NFin(U) \/ NLt(v,NSub(U,NMul("1e-9",NAdd(1,NAbs(U)))))

(* ---- splitting node i on variable v (1-based) whose relaxed value is a *)
SplitBox(nd,v,a,bool) ==
  << [nd EXCEPT !.st = NotSolved, !.hi[v] = IF bool THEN 0 ELSE NFloor(a), !.lo[v] = IF bool THEN 0 ELSE @],
     [nd EXCEPT !.st = NotSolved, !.lo[v] = IF bool THEN 1 ELSE NFloor(a)+1, !.hi[v] = IF bool THEN 1 ELSE @] >>
SameNode(a,b) == a.st = b.st /\ a.lo = b.lo /\ a.hi = b.hi /\ a.L = b.L

(* ---- scores *)
Floor8(a) == NMax(a,"1e-8")
Score(d,u) == NMul(Floor8(d),Floor8(u))
Gain(d,q) == NSub(d,q)
RECURSIVE SumOver(_,_,_)
SumOver(f,c,K) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN NAdd(IF c[k] > 0 THEN f[k] ELSE 0,SumOver(f,c,K \ {k}))
RECURSIVE CountOver(_,_)
CountOver(c,K) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN c[k]+CountOver(c,K \ {k})
(* the predicted gain per unit: the variable's own average, else that of its kind (K), else 1 *)
Psi(s,c,v,K) == IF c[v] > 0 THEN NDiv(s[v],c[v]) ELSE IF CountOver(c,K) > 0 THEN NDiv(SumOver(s,c,K),CountOver(c,K)) ELSE 1
PseudoScore(pc,v,K,a,e) ==
  LET f == Part(a) IN Score(NAdd(NMul(f,Psi(pc.s0,pc.n0,v,K)),e),NAdd(NMul(NSub(1,f),Psi(pc.s1,pc.n1,v,K)),e))

(* ---- the trial children of strong branching among the relaxations of a step *)
Trials(rel) == { k \in 2..Len(rel)-1 : TRUE }
DownOf(rel,box,v,a,bool) == { k \in Trials(rel) : rel[k].hi[v] = (IF bool THEN 0 ELSE NFloor(a)) /\ rel[k].lo[v] = box.lo[v] }
UpOf(rel,box,v,a,bool)   == { k \in Trials(rel) : rel[k].lo[v] = (IF bool THEN 1 ELSE NFloor(a)+1) /\ rel[k].hi[v] = box.hi[v] }
Least(S) == CHOOSE k \in S : \A j \in S : k <= j
CutOff(rl,U)   == Infeas(rl) \/ Over(rl.v,U)
Lives(rl,U)    == ~Infeas(rl) /\ Under(rl.v,U)
(* what strong branching found out about variable v: "none" if it was not tried *)
Tried(rel,box,v,a,bool,U) ==
  LET d == DownOf(rel,box,v,a,bool) u == UpOf(rel,box,v,a,bool) IN
  IF d = {} THEN [what |-> "none"] ELSE
  LET D == rel[Least(d)] IN
  IF CutOff(D,U) THEN [what |-> "down cut"] ELSE IF ~Lives(D,U) THEN [what |-> "unclear"] ELSE
  IF u = {} THEN [what |-> "no up"] ELSE
  LET W == rel[Least(u)] IN
  IF CutOff(W,U) THEN [what |-> "up cut"] ELSE IF ~Lives(W,U) THEN [what |-> "unclear"] ELSE
  [what |-> "both", d |-> D.v, u |-> W.v]
=============================================================================
