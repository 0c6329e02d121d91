------------------------------- MODULE Rules -------------------------------
(* What an observation of the real library must satisfy, given the state of
   Session before the operation (st), what has been observed so far (mem) and
   the operation with its observation (o, o.r). Each rule yields a set of
   failures <<property, rule, detail>>; the empty set means it holds.

   mem is a record
     last : workspace -> the last result (or <<>>)
     log  : the results so far, each [w, hist, P, stg, fresh, flag, val, r]
     best : memo of brute-force tables (BB)                                   *)
EXTENDS Ipm, Session, Branch, Report, SequencesExt, IOUtils

(* the properties judged in this run (all, if the environment does not say) *)
Props == IF "TR_PROPS" \in DOMAIN IOEnv THEN IOEnv.TR_PROPS ELSE "all"
On(p) == Props = "all" \/ Props = p
OnAny(S) == \E p \in S : On(p)

Bad(prop,rule,det) == { <<prop,rule,ToString(det)>> }
Chk(cond,prop,rule,det) == IF cond THEN {} ELSE Bad(prop,rule,det)
Tag(S,prop,rule) == { <<prop,rule,x>> : x \in S }

(* ------------------------------------------------------------- solve runs *)
Converged == {0,1,2}   Close2 == {10,11,12}
Cls(flag) == CASE flag \in {0,10} -> "optimal" [] flag \in {1,11} -> "primal infeasible" [] flag \in {2,12} -> "unbounded" [] OTHER -> "none"
Injected(r) == r.injdone = 1 /\ r.inj # 0
(* faults: 1 interrupt, 12 interrupt after the last iteration, others corrupt the iterate *)
Tainted(r) == Injected(r) /\ r.inj \notin {1,12}
TolF(r,full) == Tol(r.stg,full)

StuckStep == "9.8999999999999993e-07"
Measure(i) == [gap |-> i.gap, mu |-> i.mu, pres |-> i.pres, dres |-> i.dres, kt |-> i.kapovert, pinf |-> i.pinfres]
LessPos(a,b) == NLt(0,a) /\ NLt(a,b)
(* a beats b on every measure *)
Dominates(a,b) == /\ NLt(0,b.gap) /\ LessPos(a.gap,b.gap) /\ LessPos(a.mu,b.mu)
                  /\ IF NLt(1,a.kt) THEN LessPos(a.pinf,b.pinf) /\ NLt(a.pinf,b.pres)
                     ELSE LessPos(a.pres,b.pres) /\ LessPos(a.dres,b.dres) /\ LessPos(a.kt,b.kt)
L == INSTANCE Loop WITH Better <- Dominates

ExitOf(r,e,full) == Exit(e.info,NAdd(e.by,e.hz),e.cx,e.tau,e.kap,TolF(r,full),r.stg.feastol)
IterOf(r,k) ==
  LET e == r.iters[k] i == e.info IN
  [ full |-> ExitOf(r,e,TRUE), red |-> ExitOf(r,e,FALSE), nan |-> NNaN(i.pcost),
    \* the primal residual itself (pres is relative to tau) grew out of proportion
    bad |-> k > 1 /\ (NLt(i.gap,0) \/ NLt(NMul("500",NMul(r.iters[k-1].info.pres,r.iters[k-1].tau)),NMul(i.pres,e.tau))),
    stuck |-> k > 1 /\ NLe(i.step,"1e-6"), m |-> Measure(i) ]
SameInfo(a,b) == /\ a.pcost = b.pcost /\ a.dcost = b.dcost /\ a.pres = b.pres /\ a.dres = b.dres /\ a.gap = b.gap
                 /\ a.relgap = b.relgap /\ a.mu = b.mu /\ a.kapovert = b.kapovert /\ a.pinfres = b.pinfres /\ a.dinfres = b.dinfres
RetCands(r) == { k \in 1..Len(r.iters) : SameInfo(r.iters[k].info,r.info) /\ r.iters[k].tau = r.tau /\ r.iters[k].kap = r.kap }

(* the run is a behaviour of Loop *)
RECURSIVE Visited(_,_)
Visited(r,k) == IF k = 0 THEN L!Start ELSE
  LET p == Visited(r,k-1) q == IF k = 1 THEN p ELSE L!GoOn(p)
  IN L!Visit([q EXCEPT !.intr = Injected(r) /\ r.inj = 1 /\ r.injat = k-1],IterOf(r,k))
LoopBad(r) ==
  LET n == Len(r.iters)
      maxit == NFloor(r.stg.maxit)
      stAt == [k \in 1..n |-> Visited(r,k)]
      cand == RetCands(r)
      last == stAt[n]
      ex == L!Exits(last,maxit)
      ok == { e \in ex : e[1] = r.flag /\ e[2] \in cand }
  IN IF n = 0 THEN Chk(r.flag = -7,"C04","no iterate was visited",r.flag) ELSE
     Chk(n <= maxit+1,"C04","more iterations than the limit",<<n,maxit>>) \cup
     Chk(r.info.iter = n-1,"C04","the number of iterations reported is not that of the iterations made",<<r.info.iter,n-1>>) \cup
     Chk(\A k \in 2..n : ~NLe(r.iters[k].info.step,0),"C13","step length or centering out of range",n) \cup
     Chk(\A k \in 1..n-1 : ~(stAt[k].its[k].full # L!NC /\ ~stAt[k].its[k].bad),"C04","went on past a converged iterate",n) \cup
     Chk(\A k \in 1..n-1 : ~stAt[k].intr,"C05","went on past an interrupt",n) \cup
     Chk(cand # {},"C04","the returned statistics are not those of a visited iterate",r.flag) \cup
     Chk(\A k \in 1..n-1 : L!MayGoOn(stAt[k],maxit),"C04","went on past an iterate that ends the solve",n) \cup
     Chk(cand = {} \/ ok # {},"C04","flag does not follow from the iterates visited",<<r.flag,n,{e[1] : e \in ex}>>) \cup
     (IF r.flag \in Converged \cup {-7} \/ cand = {} THEN {} ELSE
      Chk(\A i \in 1..n-1 : \E k \in cand : ~Dominates(last.its[i].m,last.its[k].m),"C04","a better visited iterate was dropped",<<n,cand>>) )

(* the numbers of one set of statistics follow from each other *)
RelGap(i) == IF NLt(i.pcost,0) THEN NDiv(i.gap,NNeg(i.pcost)) ELSE IF NLt(0,i.dcost) THEN NDiv(i.gap,i.dcost) ELSE "nan"
RelGapOk(i) == LET q == RelGap(i) IN IF ~NFin(q) THEN NNaN(i.relgap) ELSE Close(i.relgap,q,"1e-12","0")
IterStatBad(P,r) ==
  UNION { LET e == r.iters[k] i == e.info IN
    IF NNaN(i.pcost) \/ ~NFin(i.gap) \/ ~NFin(i.mu) THEN {} ELSE
    Chk(RelGapOk(i),"C04","the relative gap does not follow from gap and costs",<<k,i.gap,i.pcost,i.dcost,i.relgap>>) \cup
    Chk(Close(i.kapovert,NDiv(e.kap,e.tau),"1e-12","0"),"C04","kappa over tau is not that of the iterate",k) \cup
    Chk(Close(i.pcost,NDiv(e.cx,e.tau),"1e-12","0") /\ Close(i.dcost,NNeg(NDiv(NAdd(e.by,e.hz),e.tau)),"1e-12",NDiv(NMul("1e-14",NAdd(NAbs(e.by),NAbs(e.hz))),e.tau)),"C04","the costs are not those of the iterate",<<k,i.pcost,i.dcost>>) \cup
    Chk(Close(i.mu,NDiv(NAdd(i.gap,NMul(e.kap,e.tau)),Deg(P)+1),"1e-12","0"),"C04","mu is not that of the iterate",<<k,i.mu>>)
    : k \in 1..Len(r.iters) }

FlagStatBad(r) ==    \* the flag against the returned statistics
  LET i == r.info byhz == NMul(NNeg(i.dcost),r.tau) cx == NMul(i.pcost,r.tau)
      E(full) == Exit(i,byhz,cx,r.tau,r.kap,TolF(r,full),r.stg.feastol)
      edge == NLt(NAbs(NAdd(byhz,r.stg.abstol)),"1e-12") \/ NLt(NAbs(NAdd(byhz,r.stg.abstol_inacc)),"1e-12")
  IN (IF r.flag = -7 THEN {} ELSE
      Chk(i.pinf = (IF r.flag \in {1,11} THEN "1" ELSE "0") /\ i.dinf = (IF r.flag \in {2,12} THEN "1" ELSE "0"),"C04","infeasibility marks do not match the flag",<<r.flag,i.pinf,i.dinf>>)) \cup
     IF edge THEN {} ELSE
     CASE r.flag \in Converged -> Chk(E(TRUE) = r.flag,"C04","converged flag, statistics do not meet the tolerances",<<r.flag,E(TRUE)>>)
       [] r.flag \in Close2    -> Chk(E(FALSE) = r.flag-10,"C04","close-to flag, statistics do not meet the reduced tolerances",<<r.flag,E(FALSE)>>)
                                  \cup Chk(E(TRUE) # r.flag-10,"C04","close-to flag, statistics meet the full tolerances",r.flag)
       [] r.flag = -7          -> {}
       [] OTHER                -> Chk(E(FALSE) = -87,"C04","failure flag, statistics meet the reduced tolerances",<<r.flag,E(FALSE)>>)

(* the vectors returned are those of the iterate that was returned (traced) *)
PointBad(P,r) ==
  LET c == { k \in RetCands(r) : "x" \in DOMAIN r.iters[k] } IN
  IF c = {} THEN {} ELSE
  Chk(\E k \in c : LET e == r.iters[k] IN
        /\ VClose(VMul(VScale(r.tau,r.x),r.xe),e.x,"1e-9","1e-300") /\ VClose(VMul(VScale(r.tau,r.y),r.Ae),e.y,"1e-9","1e-300")
        /\ VClose(VDiv(VScale(r.tau,r.s),r.Ge),e.s,"1e-9","1e-300") /\ VClose(VMul(VScale(r.tau,r.z),r.Ge),e.z,"1e-9","1e-300"),
      "C04","the returned vectors are not the returned iterate",r.flag)

(* iterates: interiors, contraction *)
NormDiff(a,th,b) == NNorm(VSub(a,VScale(th,b)))
StepBad(P,r) ==
  LET n == Len(r.iters)
      ok(k) == "x" \in DOMAIN r.iters[k] /\ ~IterOf(r,k).bad
      tolN == "1e-5"
      rel == "1e-2"
      one(k) == LET a == r.iters[k-1] b == r.iters[k]
                    th == NSub(1,NMul(b.info.step,NSub(1,b.info.sigma)))
                    sc(v) == NAdd(tolN,NMul(rel,NNorm(v)))
                    sct == NAdd(NMul(rel,NAbs(a.rt)),NMul(tolN,NMax(1,NAdd(NAdd(NAbs(a.cx),NAbs(a.by)),NAdd(NAbs(a.hz),a.kap)))))
                IN Chk(NLt(0,b.info.step) /\ NLe(b.info.step,1) /\ NLe(0,b.info.sigma) /\ NLe(b.info.sigma,1),"C13","step length or centering out of range",<<k,b.info.step,b.info.sigma>>) \cup
                   Chk(NLe(NormDiff(b.rx,th,a.rx),sc(a.rx)),"C13","dual residual does not shrink by the common factor",<<k,NormDiff(b.rx,th,a.rx),NNorm(a.rx)>>) \cup
                   (IF P.p = 0 THEN {} ELSE Chk(NLe(NormDiff(b.ry,th,a.ry),sc(a.ry)),"C13","equality residual does not shrink by the common factor",<<k,NormDiff(b.ry,th,a.ry)>>)) \cup
                   Chk(NLe(NormDiff(b.rz,th,a.rz),sc(a.rz)),"C13","conic residual does not shrink by the common factor",<<k,NormDiff(b.rz,th,a.rz)>>) \cup
                   Chk(NLe(NAbs(NSub(b.rt,NMul(th,a.rt))),sct),"C13","gap residual does not shrink by the common factor",<<k,NSub(b.rt,NMul(th,a.rt))>>)
      pt(k) == LET e == r.iters[k] IN
               Chk(InIntK(P,e.s),"C13","slack not inside the cone",k) \cup Chk(InIntKD(P,e.z),"C13","multiplier not inside the dual cone",k) \cup
               Chk(NLt(0,e.tau) /\ NLt(0,e.kap),"C13","tau or kappa not positive",k) \cup Chk(NLt(0,e.info.mu),"C13","mu not positive",k)
  IN UNION ({ pt(k) : k \in {k \in 1..n : ok(k)} } \cup { one(k) : k \in {k \in 2..n : ok(k) /\ ok(k-1)} })

(* every step is that of the method (Ipm), as far as the numbers tell: late
   iterates are dominated by rounding                                         *)
IpmBad(P,r) ==
  LET n == Len(r.iters)
      ok(k) == "x" \in DOMAIN r.iters[k] /\ ~IterOf(r,k).bad
      Q == TLCEval(Equil(P,r))
      E(k) == LET e == r.iters[k] IN [x |-> e.x, y |-> e.y, s |-> e.s, z |-> e.z, tau |-> e.tau, kap |-> e.kap,
                                      rx |-> e.rx, ry |-> e.ry, rz |-> e.rz, rt |-> e.rt, mu |-> e.info.mu]
      g == r.stg.gamma  bk == r.stg.bk_scale
      \* dir: a direction, t: the factor found for it, nb: how often it was cut back
      \* The affine search starts on the boundary, where rounding decides whether the
      \* code sees a point inside (barrier large) or outside (and accepts it): both are let through.
      search(e,dir,t,nb,aff,k) ==
        LET cand(j) == At(e,dir,NDiv(t,NPow(bk,j)))  name == IF aff THEN "affine step" ELSE "step"  tol == IF aff THEN "1e-2" ELSE "1e-4"
            edge == aff /\ ~InsideSym(P,At(e,dir,"1.01"))
        IN Chk(Farthest(P,e,dir,NDiv(t,NMul(IF aff THEN 1 ELSE g,NPow(bk,nb))),IF aff THEN "1e-2" ELSE "1e-3"),"C13","the line search does not start at the boundary of the symmetric cones",<<name,k,t,nb>>) \cup
           Chk((edge /\ nb = 0) \/ Acceptable(P,cand(0),r.stg.centrality,tol),"C13","step to a point that is not close to the central path",<<name,k,t>>) \cup
           Chk(nb = 0 \/ (edge /\ nb = 1) \/ ~Acceptable(P,cand(1),r.stg.centrality,NNeg(tol)),"C13","step cut back without need",<<name,k,t,nb>>)
      one(k) ==
        LET e == TLCEval(E(k-1)) f == TLCEval(E(k)) i == r.iters[k].info
            S == TLCEval(Scaling(P,e)) a == TLCEval(Affine(P,Q,e,S)) d == TLCEval(Taken(e,f,i.step))
            th == NSub(1,NMul(i.step,NSub(1,i.sigma)))
            va == NSub(1,i.step_aff)
            ex == { m \in Miss(P,e,S,d,IF a = <<>> THEN d ELSE a,i.sigma) : NLt(IF m[1] = "exponential" THEN "1e-4" ELSE "2e-2",m[3]) /\ (m[1] = "exponential" \/ a # <<>>) }
        IN Chk(Close(i.sigma,NMin(1,NMax("1e-4",NMul(va,NMul(va,va)))),"1e-9","0"),"C13","centering parameter is not (1-step)^3 of the affine step",<<k,i.sigma,i.step_aff>>) \cup
           Chk({i.nitref1,i.nitref2,i.nitref3} \subseteq 0..NFloor(r.stg.nitref),"C13","more refinement steps than the limit",<<k,i.nitref1,i.nitref2,i.nitref3>>) \cup
           (IF NLt(e.mu,"1e-4") \/ NLt(i.step,"1e-3") THEN {} ELSE
             Chk(ex = {},"C13","the step does not solve the centring equations",<<k,ex,e.mu,i.step>>) \cup
             (IF P.e = 0
              THEN Chk(NLe(NAbs(NSub(f.mu,NMul(th,e.mu))),NMul("1e-2",e.mu)),"C13","complementarity does not fall by the common factor",<<k,f.mu,e.mu,th>>) \cup
                   Chk(Farthest(P,e,d,NDiv(i.step,g),"1e-3"),"C13","the step is not gamma times the way to the boundary",<<k,e.mu,i.step>>) \cup
                   (IF a = <<>> THEN {} ELSE Chk(Farthest(P,e,a,i.step_aff,"1e-2"),"C13","the affine step does not go to the boundary",<<k,e.mu,i.step_aff>>))
              ELSE search(e,d,NDiv(i.step,g),i.cmbBack,FALSE,k) \cup
                   Chk(i.cmbBack = i.cb+i.cob+i.pb+i.db /\ i.cmbBack < NFloor(r.stg.max_bk_iter),"C13","backtracking steps do not add up",<<k,i.cmbBack>>) \cup
                   Chk(Close(i.centrality,Centrality(P,At(e,d,NDiv(i.step,g))),"1e-4","1e-4"),"C13","reported centrality is not that of the point",<<k,i.centrality>>) \cup
                   (IF a = <<>> \/ i.step_aff = "0" THEN {} ELSE search(e,a,NDiv(i.step_aff,g),i.affBack,TRUE,k))))
  IN UNION { one(k) : k \in {k \in 2..n : ok(k) /\ ok(k-1)} }

(* the first iterate is the documented one *)
InitBad(P,r) ==
  LET e == r.iters[1] Q == TLCEval(Equil(P,r)) n == P.n p == P.p m == P.m
      Z(k) == [i \in 1..k |-> 0]
      u == LeastSquares(P,Q,Z(n) \o Q.b \o Q.h) v == LeastSquares(P,Q,VScale(-1,Q.c) \o Z(p+m))
      eps(w) == NMul("1e-3",NAdd(1,VMaxAbs(w)))
      near(a,w) == NLe(VMaxAbs(VSub(a,w)),eps(w))
  IN IF "x" \notin DOMAIN e \/ P.m = 0 THEN {} ELSE
     Chk(e.tau = "1" /\ e.kap = "1","C13","the first iterate has tau or kappa other than 1",<<e.tau,e.kap>>) \cup
     IF P.e > 0 THEN Chk(e.x = [i \in 1..n |-> "0"] /\ e.y = [i \in 1..p |-> "0"] /\ VClose(e.s,UnitE(P),"1e-12","1e-12") /\ VClose(e.z,UnitE(P),"1e-12","1e-12"),
                         "C13","the first iterate is not the unit point",e.s)
     ELSE (IF u = <<>> THEN {} ELSE
           LET rs == VScale(-1,Sub(u,n+p,m)) IN
           Chk(near(e.x,Sub(u,0,n)),"C13","the first x is not the least-squares point",<<e.x,Sub(u,0,n)>>) \cup
           Chk(Shifted(P,rs,e.s,eps(rs)),"C13","the first s is not the shifted residual",<<e.s,rs>>)) \cup
          (IF v = <<>> THEN {} ELSE
           LET zz == Sub(v,n+p,m) IN
           Chk(near(e.y,Sub(v,n,p)),"C13","the first y is not the least-norm multiplier",<<e.y,Sub(v,n,p)>>) \cup
           Chk(Shifted(P,zz,e.z,eps(zz)),"C13","the first z is not the shifted least-norm multiplier",<<e.z,zz>>))

(* claims of the result against the caller's problem *)
ClaimBad(P,r) ==
  LET M == Measures(P,r)
      ret == RetCands(r)
      touched == Tainted(r) /\ (Len(r.iters) = 0 \/ (r.injat+1) \in ret \/ (r.inj > 12 /\ (r.injat+2) \in ret) \/ ret = {} \/ (r.inj \in {2,3,4,5,9,10} /\ \E k \in ret : k > r.injat))
      fin == FinV(r.x) /\ FinV(r.y) /\ FinV(r.s) /\ FinV(r.z) /\ NFin(r.tau) /\ NLt(0,r.tau)
  IN IF touched \/ r.flag = -7 THEN {} ELSE
     (IF r.flag \in {0,10} THEN (IF fin THEN Tag(OptimalBad(P,r,M),"C01","claimed optimum") ELSE Bad("C01","claimed optimum","not finite"))
      ELSE IF r.flag \in {1,11} THEN (IF fin THEN Tag(PinfBad(P,r,M),"C02","infeasibility certificate") ELSE Bad("C02","infeasibility certificate","not finite"))
      ELSE IF r.flag \in {2,12} THEN (IF fin THEN Tag(DinfBad(P,r,M),"C02","unboundedness certificate") ELSE Bad("C02","unboundedness certificate","not finite")) ELSE {})
     \cup Tag(StatsBad(P,r,M),"C04","statistics do not describe the returned point")

(* the exponential line search ran out of backtracking steps, every one of them
   rejected (but for the first few) because the iterate already sits on the edge of the central region *)
Stalled(r) == r.flag = -2 /\ r.info.step = "-1" /\ r.info.cmbBack = NFloor(r.stg.max_bk_iter) /\ r.info.cb + 5 >= r.info.cmbBack /\ NLe(1,r.info.centrality) /\ NLe(r.info.centrality,"1.001")
StallTag(r) == IF Stalled(r) THEN " (line search stalled at the edge of the central region)" ELSE ""
TruthBad(sc,r) ==
  LET v == r.info.pcost IN
  CASE sc.truth = "exact" -> Chk(r.flag = 0,"C03","solvable problem not reported optimal" \o StallTag(r),r.flag) \cup
                             (IF r.flag = 0 THEN Chk(Close(v,sc.val,"2e-6","2e-6"),"C03","wrong optimal value",<<v,sc.val>>) ELSE {})
    [] sc.truth = "opt"   -> Chk(r.flag = 0,"C03","solvable problem not reported optimal" \o StallTag(r),r.flag) \cup
                             (IF r.flag = 0 THEN Chk(NLe(v,NAdd(sc.ub,NMul("1e-5",NAdd(1,NAbs(sc.ub))))) /\ NLe(NSub(sc.lb,NMul("1e-5",NAdd(1,NAbs(sc.lb)))),v),"C03","optimal value outside the known bounds",<<v,sc.lb,sc.ub>>) ELSE {})
    [] sc.truth = "pinf"  -> Chk(r.flag = 1,"C03","infeasible problem not reported infeasible" \o StallTag(r),r.flag)
    [] sc.truth = "dinf"  -> Chk(r.flag = 2,"C03","unbounded problem not reported unbounded" \o StallTag(r),r.flag)
    [] OTHER -> {}

EnvBad(r) ==     \* the environment of a solve
  Chk(r.flag \in L!DocumentedFlags,"C04","undocumented flag",r.flag) \cup
  Chk(r.hbefore = r.hafter,"C05","signal handler not restored",<<r.hbefore,r.hafter,r.flag>>) \cup
  Chk(r.callerhits = 0,"C05","the caller's handler was called during the solve",r.callerhits) \cup
  Chk(~(r.flag = -4 /\ ~(Injected(r) /\ r.inj = 1)),"C05","interrupted flag without an interrupt",r.flag) \cup
  (IF Injected(r) /\ r.inj = 1
   THEN Chk(r.flag \in {-4,0,1,2,10,11,12,-2},"C05","interrupt ignored",r.flag) \cup
        (IF Len(r.iters) > 0 THEN Chk(Len(r.iters) = r.injat+1,"C05","the solve went on after the interrupt",<<Len(r.iters),r.injat>>) ELSE {}) \cup
        Chk(r.aft <= 1,"C05","iterations after the interrupt",r.aft)
   ELSE {})

(* two results that must agree; d names the pair *)
AgreeBad(a,b,prop,det) ==
  LET ca == Cls(a.flag) cb == Cls(b.flag) IN
  IF ca # "none" /\ cb # "none"
  THEN Chk(ca = cb,prop,"verdicts differ",<<det,a.flag,b.flag>>) \cup
       (IF ca = "optimal" /\ cb = "optimal" /\ a.flag = 0 /\ b.flag = 0
        THEN Chk(Close(a.val,b.val,"1e-5","1e-5"),prop,"optimal values differ",<<det,a.val,b.val>>) ELSE {})
  ELSE Chk(~((a.flag \in Converged /\ cb = "none") \/ (b.flag \in Converged /\ ca = "none")),prop,"one converges, the other fails" \o (IF a.stall \/ b.stall THEN " (line search stalled at the edge of the central region)" ELSE ""),<<det,a.flag,b.flag>>)

HasInj(h) == \E k \in 1..Len(h) : h[k][1] = "solve" /\ h[k][2] # NoInj
Entry(st,o) == LET w == st.ws[o.w] IN
  [w |-> o.w, hist |-> Append(w.hist,<<"solve",st.inj[o.w]>>), P |-> w.P, stg |-> w.stg, clean |-> ~Injected(o.r) \/ o.r.inj = 12,
   first |-> IF o.r.lev > 0 /\ o.r.inj = 0 THEN LET n == IF Len(o.r.iters) < 4 THEN Len(o.r.iters) ELSE 4 IN [k \in 1..n |-> o.r.iters[k].info] ELSE <<>>,
   flag |-> o.r.flag, stall |-> Stalled(o.r), val |-> o.r.info.pcost, r |-> [x |-> o.r.x, y |-> o.r.y, s |-> o.r.s, z |-> o.r.z, flag |-> o.r.flag, tau |-> o.r.tau, kap |-> o.r.kap,
                                                      pcost |-> o.r.info.pcost, gap |-> o.r.info.gap, iter |-> o.r.info.iter]]
TimeSlack == "1e-3"
(* the settings are those the caller chose (the documented ones, if none) *)
StgBad(st,w,r,det) ==
  LET S == st.ws[w].stg
      wrong == { f \in DOMAIN DefaultStg : ~NEq(S[f],r.stg[f]) }
  IN Chk(wrong = {},"C15","settings are not those in force",<<det,wrong>>)
BBSame(g,r) == /\ r.maxit = g.maxit /\ NEq(r.abs,g.abs) /\ NEq(r.rel,g.rel) /\ NEq(r.itol,g.itol)
               /\ r.strat = g.strat /\ r.eta = g.eta /\ r.nsel = g.nsel
BBStgBad(st,w,g,r,det) == StgBad(st,w,r,det) \cup Chk(BBSame(g,r.bbstg),"C15","branch and bound settings are not those in force",<<det,r.bbstg>>)
JudgeSetup(st,o) ==
  IF o.r.null # 0 THEN Chk(FALSE,"any","setup refuses a valid problem",o.w) ELSE
  LET s2 == Step(st,o) IN
  (IF o.op = "setup" THEN Chk(NLe(0,o.r.tsetup) /\ NLe(o.r.tsetup,NAdd(o.r.wall,TimeSlack)),"C17","the times reported are not those of the solve",<<o.r.tsetup,o.r.wall>>) ELSE {}) \cup
  IF o.op = "setup" THEN StgBad(s2,o.w,o.r,"setup") \cup Chk(o.r.stg.verbose = 1,"C15","settings are not those in force","verbose")
  ELSE BBStgBad(s2,o.w,BBSet(o),o.r,"bbsetup") \cup Chk(o.r.stg.verbose = 0 /\ o.r.bbstg.verbose = (IF o.bbstg = <<>> THEN 1 ELSE 0),"C15","settings are not those in force","verbose")
(* arrays replaced by an update are handed back as they were *)
JudgeInplace(st,o) ==
  LET P == st.ws[o.w].P
      wrong == { f \in {"Gpr","Apr","c","h","b"} \cap DOMAIN o.r.old : ~VClose(P[f],o.r.old[f],"1e-12","0") }
  IN Chk(wrong = {},"C07","replaced array not restored",wrong)

(* bit for bit the same only if the very same numbers were handed over: data
   that went through a workspace come back up to rounding                     *)
ExactHist(h) == \A k \in 1..Len(h) : h[k][1] \notin {"setup~","bbsetup~","upd~"} /\ (Len(h[k]) = 3 /\ h[k][1] = "solve" => h[k][3] # <<>>)
(* twins: also in memory with another content, with verbosity on or off *)
(* where a solve starts is a matter of the data alone, and so are its first
   steps (with exponential cones a step may be cut once more or once less)     *)
FirstBad(f,e,det) ==
  LET n == IF f.P.e > 0 THEN 1 ELSE 4
      tol == IF f.P.e > 0 THEN "1e-6" ELSE "1e-3"
      size(i) == NMax(NMax(NAbs(i.pcost),NAbs(i.dcost)),NAdd(1,NAbs(i.gap)))
      ok(i) == NFin(i.pcost) /\ NFin(i.dcost) /\ NFin(i.gap)
      wrong(k) == IF k > Len(f.first) \/ k > Len(e.first) \/ ~ok(f.first[k]) \/ ~ok(e.first[k]) THEN {} ELSE
                  LET t == NMul(tol,NMax(size(f.first[k]),size(e.first[k])))
                  IN { x \in {"pcost","dcost","gap"} : NLt(t,NAbs(NSub(f.first[k][x],e.first[k][x]))) }
  IN UNION { Chk(wrong(k) = {},"C06","the solve does not start where the data say",<<det,k,wrong(k),f.first[k],e.first[k]>>) : k \in 1..n }
TwinBad(same,det) == Chk(same,"C12","identical histories, different results",det) \cup Chk(same,"C08","identical histories, different results",det)
HistBad(sc,mem,e) ==
  UNION { LET f == mem.log[k] IN
     (IF f.hist = e.hist /\ ExactHist(e.hist) THEN TwinBad(f.r = e.r,<<k,f.flag,e.flag>>) ELSE {}) \cup
     (IF f.clean /\ e.clean /\ f.P = e.P /\ f.stg = e.stg /\ f.hist # e.hist
      THEN AgreeBad(f,e,IF HasInj(f.hist) \/ HasInj(e.hist) THEN "C05" ELSE "C06",k) \cup FirstBad(f,e,k) ELSE {}) \cup
     (IF sc.fam = "rw" /\ f.clean /\ e.clean THEN AgreeBad(f,e,"C14",k) ELSE {})
   : k \in 1..Len(mem.log) }

(* what was printed, and the times reported *)
TimesBad(r) == Chk(NLe(0,r.tsetup) /\ NLe(0,r.tsolve) /\ NLe(r.tsolve,NAdd(r.wall,TimeSlack)),"C17","the times reported are not those of the solve",<<r.tsetup,r.tsolve,r.wall>>)
ReportBad(verb,r) ==
  LET T == r.txt
      prog == SelectSeq(T,IsProgress)  ver == SelectSeq(T,IsVerdict)  n == Len(r.iters)
      rec == UNION { Recovered(T[j]) : j \in 1..Len(T) }
      run == SelectSeq(T,Runtime)
  IN TimesBad(r) \cup
     IF verb = 0 THEN Chk(T = <<>>,"C17","something is printed although verbosity is off",T) ELSE
     IF r.flag = -7 \/ r.flag \notin L!DocumentedFlags THEN {} ELSE
     Chk(Len(prog) = n /\ \A j \in 1..n : j <= Len(prog) => LineOf(prog[j],r.iters[j].info),"C17","the lines printed are not those of the iterates",
         <<Len(prog),n,{ prog[j] : j \in { j \in 1..Len(prog) : j > n \/ ~LineOf(prog[j],r.iters[j].info) } }>>) \cup
     Chk(Len(ver) = 1 /\ VerdictOf(ver[1],r.flag,r.info),"C17","the verdict printed is not that of the result",<<r.flag,ver,r.info.pres,r.info.dres,r.info.relgap,r.info.gap>>) \cup
     Chk(RetCands(r) = {} \/ Tainted(r) \/ \A k \in rec : \E c \in RetCands(r) : k = ToString(c-1),"C17","the iterate named is not the one returned",<<rec,RetCands(r)>>) \cup
     Chk(Len(run) = 1 /\ Len(run[1]) > 1 /\ Shown(run[1][2],NAdd(r.tsetup,r.tsolve),"0","1e-6"),"C17","the run time printed is not the one reported",<<run,r.tsetup,r.tsolve>>)
BBReportBad(verb,r) ==
  LET T == SelectSeq(r.txt,IsBBLine)
      at == SelectSeq([k \in 1..Len(r.evs) |-> IF k = 1 \/ r.evs[k].ev = "next" THEN k ELSE 0],LAMBDA k : k > 0)
  IN IF verb = 0 THEN Chk(r.txt = <<>>,"C17","something is printed although verbosity is off",r.txt) ELSE
     IF r.nbbev > 400 \/ Len(r.evs) = 0 THEN {} ELSE
     Chk(Len(T) = Len(at) /\ \A j \in 1..Len(at) : j <= Len(T) => BBLineOf(T[j],j-1,r.evs[at[j]].L,r.evs[at[j]].U),"C17","the lines printed are not the steps of the search",
         <<Len(T),Len(at),{ T[j] : j \in { j \in 1..Len(T) : j > Len(at) \/ ~BBLineOf(T[j],j-1,r.evs[at[j]].L,r.evs[at[j]].U) } }>>) \cup
     Chk(Len(T) = 0 \/ T[Len(T)][1] = ToString(r.bbiter),"C17","the number of nodes printed is not the one reported",r.bbiter)

JudgeSolve(sc,st,mem,o) ==
  LET P == st.ws[o.w].P  r == o.r IN
  EnvBad(r) \cup StgBad(st,o.w,r,"solve")
  \cup (IF r.lev > 0 /\ On("C17") THEN ReportBad(st.ws[o.w].verb,r) ELSE {})
  \cup (IF OnAny({"C01","C02","C04"}) THEN ClaimBad(P,r) ELSE {})
  \cup (IF Tainted(r) \/ r.flag = -7 \/ ~On("C04") THEN {} ELSE FlagStatBad(r) \cup IterStatBad(P,r) \cup
         Chk(NNaN(r.info.pcost) \/ ~NFin(r.info.gap) \/ RelGapOk(r.info),"C04","the relative gap does not follow from gap and costs",<<"returned",r.info.gap,r.info.pcost,r.info.dcost,r.info.relgap>>))
  \cup (IF r.lev > 0 /\ OnAny({"C04","C05"}) THEN LoopBad(r) ELSE {})
  \cup (IF r.lev > 1 /\ On("C04") /\ ~Tainted(r) /\ r.flag # -7 THEN PointBad(P,r) ELSE {})
  \cup (IF r.lev > 1 /\ On("C13") /\ ~Tainted(r) /\ r.flag # -7 THEN StepBad(P,r) ELSE {})
  \cup (IF r.lev > 1 /\ On("C13") /\ ~Tainted(r) /\ r.flag # -7 THEN IpmBad(P,r) \cup InitBad(P,r) ELSE {})
  \cup (IF sc.truth # "any" /\ On("C03") /\ ~Injected(r) THEN TruthBad(sc,r) ELSE {})
  \cup (IF OnAny({"C05","C06","C08","C12","C14"}) THEN HistBad(sc,mem,Entry(st,o)) ELSE {})

(* --------------------------------------------------------- caller's data *)
ScaledBack == "1e-12"
IdxSame(P,r) == r.Gjc = P.Gjc /\ r.Gir = P.Gir /\ (P.anull = 1 \/ (r.Ajc = P.Ajc /\ r.Air = P.Air)) /\ r.q = P.q
ValsExact(P,r,F) == \A f \in F : \A i \in 1..Len(P[f]) : NEq(P[f][i],r[f][i])
ValsClose(P,r,F) == \A f \in F : VClose(P[f],r[f],ScaledBack,"0")
All5 == {"Gpr","Apr","c","h","b"}
JudgeDump(st,o) ==
  LET B == st.buf[o.buf] P == B.P r == o.r
      kind == IF B.w >= 0 THEN st.ws[B.w].kind ELSE "c"
      wrong(F) == { f \in F : ~ValsClose(P,r,{f}) }
  IN IF B.use = "empty" THEN {} ELSE
     Chk(IdxSame(P,r),"C07","index arrays changed",o.buf) \cup
     CASE B.use = "raw"  -> Chk(ValsExact(P,r,All5),"C07","data of an array that is not attached changed",o.buf)
       [] B.use = "back" -> Chk(wrong(All5) = {},"C07","data not restored",<<o.buf,wrong(All5)>>) \cup
                            (IF B.bb THEN Chk(ValsExact(P,r,{"Gpr","h"}),"C07","copied data were modified",o.buf) ELSE {})
       [] B.use = "lent" -> Chk(wrong({"c"}) = {},"C07","objective not restored after a solve",o.buf) \cup
                            (IF kind = "bb" THEN Chk(ValsExact(P,r,{"Gpr","h"}),"C07","copied data were modified",o.buf) ELSE {})
       [] OTHER -> {}

(* ---------------------------------------------------------------- memory *)
JudgeLedger(st,o) ==
  LET r == o.r IN
  Chk(r.oob = 0,"C08","write outside an allocation",r.oob) \cup Chk(r.uaf = 0,"C08","write to released memory",r.uaf) \cup
  Chk(r.dbl = 0,"C08","released twice",r.dbl) \cup Chk(r.badfree = 0,"C08","released what was not allocated",r.badfree) \cup
  Chk(r.callerfree = 0,"C08","released the caller's memory",r.callerfree) \cup
  (IF LiveExact(st) THEN Chk(r.live = LiveCount(st),"C08","memory not released (or kept arrays released)",<<r.live,LiveCount(st)>>) ELSE {})
JudgeClean(st,mem,o) ==
  LET last == mem.last[o.w] r == o.r IN
  IF last = <<>> THEN {} ELSE
  (IF o.keep > 0 THEN Chk(r.x = last.x,"C08","kept x differs from the result",o.keep) ELSE {}) \cup
  (IF o.keep > 1 THEN Chk(r.y = last.y,"C08","kept y differs from the result",o.keep) ELSE {}) \cup
  (IF o.keep > 2 THEN Chk(r.s = last.s,"C08","kept s differs from the result",o.keep) ELSE {}) \cup
  (IF o.keep > 3 THEN Chk(r.z = last.z,"C08","kept z differs from the result",o.keep) ELSE {})

(* --------------------------------------------------- branch and bound runs *)
(* row bounds on the integer variables give the range that is enumerated *)
RowNZ(P,i) == { k \in 1..Len(P.Gir) : P.Gir[k] = i-1 /\ ~NEq(P.Gpr[k],0) }
Single(P) == [i \in 1..P.l |-> RowNZ(P,i)]
IsBool(ints,k) == k <= Len(ints[1])
VarOf(ints,k) == IF k <= Len(ints[1]) THEN ints[1][k] ELSE ints[2][k-Len(ints[1])]    \* 0-based column
NInt(ints) == Len(ints[1]) + Len(ints[2])
RECURSIVE MaxS(_) 
MaxS(S) == IF S = {} THEN -9999 ELSE LET x == CHOOSE x \in S : TRUE  m == MaxS(S \ {x}) IN IF x > m THEN x ELSE m
Ceil(a) == -NFloor(NNeg(a))
RangeOf(P,S,ints,k) ==
  IF IsBool(ints,k) THEN <<0,1>> ELSE
  LET j == VarOf(ints,k)+1
      rows == { i \in 1..P.l : Cardinality(S[i]) = 1 /\ ColOf(P.Gjc,CHOOSE e \in S[i] : TRUE) = j }
      co(i) == P.Gpr[CHOOSE e \in S[i] : TRUE]
      ups == { NFloor(NDiv(P.h[i],co(i))) : i \in {i \in rows : NLt(0,co(i))} }
      los == { Ceil(NDiv(P.h[i],co(i))) : i \in {i \in rows : NLt(co(i),0)} }
  IN << MaxS(los), -MaxS({-u : u \in ups}) >>
RECURSIVE Points(_,_)
Points(rg,k) == IF k = 0 THEN << <<>> >> ELSE
  LET ps == Points(rg,k-1)  d == rg[k][2]-rg[k][1]+1 IN
  IF d <= 0 THEN <<>> ELSE FlattenSeq([i \in 1..Len(ps) |-> [v \in 1..d |-> Append(ps[i],rg[k][1]+v-1)]])
(* the best value for fixed integers; the last column, if continuous, is an
   epigraph variable that only occurs with coefficient -1                     *)
HasT(P,ints) == NInt(ints) < P.n
XOf(P,ints,p,t) == [j \in 1..P.n |-> LET K == {k \in 1..NInt(ints) : VarOf(ints,k) = j-1} IN IF K = {} THEN t ELSE p[CHOOSE k \in K : TRUE]]
NSeqMax(v) == LET RECURSIVE F(_) F(k) == IF k = 1 THEN v[1] ELSE NMax(F(k-1),v[k]) IN F(Len(v))
TRows(P) == { P.Gir[k]+1 : k \in {k \in 1..Len(P.Gir) : ColOf(P.Gjc,k) = P.n /\ ~NEq(P.Gpr[k],0)} }
Evaluate(P,ints,p,tr) ==
  LET x == XOf(P,ints,p,0)
      s == VSub(P.h,GX(P,x))                     \* slacks at t = 0; t adds t to the rows in tr
      eqok == P.p = 0 \/ (\A i \in 1..P.p : NEq(AX(P,x)[i],P.b[i]))
      soc(k) == Sub(s,SocStart(P,k),P.q[k])
      need(k) == IF P.q[k] = 1 THEN 0 ELSE NNorm(Sub(soc(k),1,P.q[k]-1))
      freeK == { k \in 1..NSoc(P) : SocStart(P,k)+1 \in tr }
      expo(k) == Sub(s,ExpStart(P,k),3)          \* s3 exp(s1/s3) <= s2, s3 is a positive constant
      eneed(k) == NMul(expo(k)[3],NExp(NDiv(expo(k)[1],expo(k)[3])))
      freeE == { k \in 1..P.e : ExpStart(P,k)+2 \in tr }
      lows == { NNeg(s[i]) : i \in {i \in 1..P.l : i \in tr} } \cup { NSub(need(k),soc(k)[1]) : k \in freeK } \cup { NSub(eneed(k),expo(k)[2]) : k \in freeE }
      okp == eqok /\ (\A i \in 1..P.l : i \in tr \/ NLe(0,s[i])) /\ (\A k \in 1..NSoc(P) : k \in freeK \/ (NLe(0,soc(k)[1]) /\ NLe(need(k),soc(k)[1])))
                  /\ (\A k \in 1..P.e : k \in freeE \/ NLe(eneed(k),expo(k)[2]))
  IN IF ~okp THEN <<>> ELSE
     IF ~HasT(P,ints) THEN << <<p,CX(P,x)>> >> ELSE
     LET t == NSeqMax(SetToSeq(lows)) IN << <<p,NAdd(CX(P,x),NMul(P.c[P.n],t))>> >>
Table(P,ints) ==
  LET S == Single(P)  rg == [k \in 1..NInt(ints) |-> RangeOf(P,S,ints,k)]
      ps == Points(rg,NInt(ints))  tr == IF HasT(P,ints) THEN TRows(P) ELSE {}
  IN FlattenSeq([i \in 1..Len(ps) |-> Evaluate(P,ints,ps[i],tr)])

Round(a) == NFloor(NAdd(a,"0.5"))
PointOf(ints,x) == [k \in 1..NInt(ints) |-> Round(x[VarOf(ints,k)+1])]
EvState(e,ints) == [nodes |-> e.nodes, U |-> e.U, inc |-> IF Len(e.incx) = 0 THEN <<>> ELSE PointOf(ints,e.incx), iter |-> e.iter]
(* values are known up to the accuracy of a relaxation and, as integer variables
   may be off by the integrality tolerance, up to what that is worth           *)
AbsSum(v) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN 0 ELSE NAdd(NAbs(v[k]),F(k-1)) IN F(Len(v))
BBTol(P,ints,itol,opt) ==
  LET sl == NAdd(AbsSum(P.c),IF HasT(P,ints) THEN NMul(NAbs(P.c[P.n]),NMul(NInt(ints),NSeqMax([k \in 1..Len(P.Gpr) |-> NAbs(P.Gpr[k])]))) ELSE 0)
  IN NAdd(NMul("2e-5",IF NFin(opt) THEN NAdd(1,NAbs(opt)) ELSE 1),NMul(itol,sl))
(* the node chosen next is an open one that can still improve, by the method chosen *)
NextBad(s,e,nsel,prev) ==
  IF e.ev # "next" THEN {} ELSE
  LET open == { i \in 1..Len(s.nodes) : s.nodes[i].st = Branchable /\ NLt(s.nodes[i].L,s.U) }
      i == e.node+1
  IN IF e.node = -1 THEN Chk(open = {},"C10","the search ends although a node could improve",open) ELSE
     Chk(s.nodes[i].st = Branchable,"C10","the node chosen is not open",i) \cup
     (IF nsel = 0 THEN Chk(\A j \in open : NLe(s.nodes[i].L,s.nodes[j].L),"C15","node selection is not the one chosen",<<nsel,i>>)
      ELSE IF nsel = 2 /\ s.nodes[Len(s.nodes)].st = Branchable THEN Chk(i = Len(s.nodes),"C15","node selection is not the one chosen",<<nsel,i>>) ELSE {})
(* the search goes on exactly while the gap is not within the tolerances in force, a
   node is open and the limit is not reached                                     *)
StopBad(r,stg,B) ==
  LET n == Len(r.evs) over(f) == NMul(stg.absgap,f) IN
  UNION { LET e == r.evs[k] IN
    IF e.ra = 1 \/ (e.ev # "next" /\ k > 1) THEN {} ELSE
    IF k < n THEN Chk(~GapMet(e.U,e.L,over("0.999999999999"),NSub(stg.relgap,"1e-14")),B,"the search goes on although the gap is within the tolerances",<<k,e.U,e.L>>)
    ELSE Chk((e.ev = "next" /\ e.node = -1) \/ e.iter >= r.bbmaxit-1 \/ GapMet(e.U,e.L,over("1.000000000001"),NAdd(stg.relgap,"1e-14")),B,"the search stops although the gap is not within the tolerances",<<k,e.U,e.L>>)
    : k \in 1..n }
BBEntry(st,o) == LET w == st.ws[o.w] IN
  [hist |-> Append(w.hist,<<"solve",st.inj[o.w],st.rnd>>), r |-> [flag |-> o.r.flag, U |-> o.r.U, L |-> o.r.L, x |-> o.r.x, y |-> o.r.y, s |-> o.r.s, z |-> o.r.z, iter |-> o.r.bbiter]]
BBHistBad(mem,e) == UNION { LET f == mem.bblog[k] IN
    IF f.hist = e.hist /\ ExactHist(e.hist) THEN TwinBad(f.r = e.r,<<k,f.r.flag,e.r.flag,f.r.U,e.r.U>>) ELSE {} : k \in 1..Len(mem.bblog) }
JudgeBB(sc,st,mem,o,T) ==
  LET w == st.ws[o.w] P == w.P r == o.r ints == w.ints
      again == Len(w.hist) > 1
      \* after an interrupt the search must behave as if there had been none
      A == IF (HasInj(w.hist) \/ Injected(r)) /\ r.nfail = 0 THEN "C05" ELSE IF again THEN "C11" ELSE "C09"
      B == IF (HasInj(w.hist) \/ Injected(r)) /\ r.nfail = 0 THEN "C05" ELSE IF again THEN "C11" ELSE "C10"
      opt == OptVal(T,Len(T))
      tol == BBTol(P,ints,"1.01e-4",opt)
      \* exponentials are steep: there the value of a rounded point is known relatively
      tolAt(u) == IF P.e = 0 \/ ~NFin(u) THEN tol ELSE NAdd(tol,NMul("2e-3",NAdd(1,NAbs(u))))
      intr == Injected(r)
      ftol == IF r.ninacc > 0 THEN "1e-3" ELSE "1e-5"      \* relaxations solved to reduced accuracy
      limit == r.bbiter >= r.bbmaxit-1
      gaptol == NAdd(tol,NMax(w.stg.absgap,NMul(NMul(2,w.stg.relgap),IF NFin(opt) THEN NAbs(opt) ELSE 0)))
      n == Len(r.evs)
      evst == [k \in 1..n |-> EvState(r.evs[k],ints)]
      itol == "1.01e-4"
      \* a relaxation the continuous solver could not solve proves nothing; what
      \* the search makes of it is a finding of its own (known_findings.txt)
      nf(k) == IF r.evs[k].nf > 0 THEN " (after a relaxation that did not converge)" ELSE ""
      nfr == IF r.nfail > 0 THEN " (after a relaxation that did not converge)"
             ELSE IF r.ninacc > 0 /\ P.e > 0 /\ ints[2] # <<>> THEN " (exponential cones and integer variables, inaccurate relaxations)" ELSE ""
  IN (IF intr THEN {} ELSE
      (IF limit THEN Chk(r.flag \in {10,11} \/ (sc.truth = "unb" /\ r.flag = 12),B,"limit reached but the flag does not say so",<<r.flag,r.bbiter,r.bbmaxit>>)
       ELSE Chk(r.flag \in {0,1,2},B,"limit flag before the limit",<<r.flag,r.bbiter,r.bbmaxit>>)) \cup
      Chk(~limit \/ r.bbmaxit < 200,B,"the search of a bounded problem does not end" \o (IF r.nfail > 0 THEN nfr ELSE IF r.ninacc > 0 THEN " (with inaccurate relaxations)" ELSE ""),r.bbiter) \cup
      (CASE r.flag = 0 /\ sc.truth = "unb" -> Chk(FALSE,A,"unbounded problem reported optimal" \o nfr,r.U)
         [] r.flag = 0 -> Chk(Len(T) > 0,A,"optimum reported, but no integer point is feasible" \o nfr,r.U) \cup
                          (IF Len(T) > 0 THEN Chk(NLe(r.U,NAdd(opt,gaptol)),A,"reported optimum is not the best" \o nfr,<<r.U,opt>>) ELSE {})
         [] r.flag = 1 -> Chk(Len(T) = 0,A,"reported infeasible, but a feasible integer point exists" \o nfr,opt)
         [] r.flag = 2 -> Chk(sc.truth = "unb",A,"reported unbounded" \o nfr,r.flag)
         [] r.flag = 10 -> Chk(NFin(r.U),B,"feasible-solution flag without a solution",r.U)
         [] r.flag = 11 -> Chk(~NFin(r.U),B,"no-solution flag with a solution",r.U)
         [] OTHER -> {}))
     \cup (IF r.flag \in {0,10,-4} /\ NFin(r.U) /\ Len(r.x) = P.n /\ sc.truth # "unb" THEN
        LET p == PointOf(ints,r.x)
            M == { k \in 1..Len(T) : T[k][1] = p } IN
        Chk(\A k \in 1..NInt(ints) : NLe(NAbs(NSub(r.x[VarOf(ints,k)+1],p[k])),itol) /\ (IsBool(ints,k) => p[k] \in {0,1}),A,"integer variables not integral" \o nfr,p) \cup
        Chk(M # {},A,"the returned integers are not feasible" \o nfr,p) \cup
        Chk(\A k \in M : NLe(T[k][2],NAdd(r.U,tolAt(r.U))),A,"objective better than the best value for the returned integers" \o nfr,<<p,r.U>>) \cup
        Chk(Close(CX(P,r.x),r.U,"1e-7","1e-7"),A,"objective is not that of the returned point",<<r.U,CX(P,r.x)>>) \cup
        Chk(InK(P,VSub(P.h,GX(P,r.x)),ftol) /\ (P.p = 0 \/ VClose(AX(P,r.x),P.b,ftol,ftol)),A,"the returned point violates the constraints" \o nfr,p) \cup
        Chk(VClose(r.x,r.ex,"0","0"),A,"the solution is not where the caller finds it",p)
        ELSE {})
     \cup Chk(r.bbiter <= r.bbmaxit-1 \/ r.bbmaxit = 0,B,"more nodes than the limit",<<r.bbiter,r.bbmaxit>>)
     \cup (IF intr \/ r.flag = -4 THEN {} ELSE StopBad(r,w.stg,B))
     \cup Chk(r.hbefore = r.hafter,"C05","signal handler not restored by branch and bound",<<r.hbefore,r.hafter>>)
     \cup Chk(r.callerhits = 0,"C05","the caller's handler was called during the search",r.callerhits)
     \cup Chk(r.flag # -4 \/ (intr /\ r.inj \in {1,12}),"C05","interrupted flag without an interrupt",r.flag)
     \cup Chk(r.aft <= 1,"C05","iterations after the interrupt",r.aft)
     \cup (IF intr /\ r.inj \in {1,12}
           THEN Chk(r.flag = -4 \/ (r.flag = 0 /\ Len(T) > 0 /\ NLe(r.U,NAdd(opt,gaptol))) \/ (r.flag = 1 /\ Len(T) = 0) \/ (r.flag = 2 /\ sc.truth = "unb") \/ limit,"C05","interrupted search claims a verdict",<<r.flag,r.U,opt>>)
           ELSE {})
     \cup (IF sc.truth = "unb" THEN {} ELSE UNION { 
        LET s == evst[k] gl == r.evs[k].L IN
        \* once interrupted the node table is not used any more, the incumbent is
        Chk(IncumbentFeasible(T,s,tolAt(s.U)),B,"the incumbent is not feasible" \o nf(k),<<k,s.inc,s.U>>) \cup
        (IF k = 1 THEN {} ELSE Chk(NLe(s.U,evst[k-1].U),B,"the incumbent got worse",<<k,s.U>>)) \cup
        IF r.evs[k].ra = 1 THEN {} ELSE
        Chk(Covered(T,s,tol),B,"a better solution lies in no open node" \o nf(k),<<k,r.evs[k].ev>>) \cup
        Chk(BoundsValid(T,s,tol),B,"a node bound exceeds a value in its box" \o nf(k),<<k,r.evs[k].ev>>) \cup
        Chk(r.evs[k].ev # "next" \/ Len(T) = 0 \/ NLe(gl,NAdd(opt,tol)) \/ NLe(s.U,NAdd(opt,tol)),B,"global lower bound exceeds the optimum" \o nf(k),<<k,gl,opt>>) \cup
        Chk(Len(s.nodes) <= r.bbmaxit,B,"more nodes than the limit",Len(s.nodes)) \cup
        NextBad(s,r.evs[k],w.stg.bb.nsel,IF k = 1 THEN {} ELSE {r.evs[k-1].node})
       : k \in 1..n })

(* every step of the search is the step of the strategy chosen (Branch) *)
Vals(P,ints,rl) == [fl |-> rl.fl, x |-> [i \in 1..NInt(ints) |-> rl.x[VarOf(ints,i)+1]], v |-> CX(P,rl.x), lo |-> rl.lo, hi |-> rl.hi]
RootOf(ints) == [st |-> NotSolved, L |-> "-inf", lo |-> [i \in 1..NInt(ints) |-> IF IsBool(ints,i) THEN 0 ELSE -8388608],
                 hi |-> [i \in 1..NInt(ints) |-> IF IsBool(ints,i) THEN 1 ELSE 8388608]]
BoundBad(P,ints,bb,e,b,up,k) ==
  \* e: the event, b: the table before it, up: what led to the node (<<>> or <<variable, value, parent's value, 0 down / 1 up>>)
  LET N == 1..NInt(ints) v == e.node+1 nd0 == b.nodes[v] nd == e.nodes[v] U0 == b.U
      R == TLCEval([j \in 1..Len(e.rel) |-> TLCEval(Vals(P,ints,e.rel[j]))])
      one == R[1] last == R[Len(R)] x == one.x q == one.v
      bool(i) == IsBool(ints,i)  kind(i) == { j \in N : bool(j) = bool(i) }
      itol == bb.itol
      frac == { i \in N : ~Integral(x[i],itol) }
      clear == frac = { i \in N : Surely(x[i],itol) }
      pruned == Over(q,U0)
      tried == TLCEval([i \in N |-> IF i \in frac /\ bb.strat \in {1,3} THEN Tried(R,nd0,i,x[i],bool(i),U0) ELSE [what |-> "none"]])
      murky == \E i \in N : tried[i].what \in {"unclear","no up"}
      both == { i \in frac : tried[i].what = "both" }
      cuts == { i \in frac : tried[i].what \in {"down cut","up cut"} }
      U1 == IF frac = {} THEN NMin(U0,q) ELSE IF last.fl = 0 THEN NMin(U0,last.v) ELSE U0
      lo1 == [i \in N |-> IF tried[i].what = "down cut" THEN NFloor(x[i])+1 ELSE nd0.lo[i]]
      hi1 == [i \in N |-> IF tried[i].what = "up cut" THEN NFloor(x[i]) ELSE nd0.hi[i]]
      \* pseudocosts after the step
      per(i,s) == IF s = 0 THEN Part(x[i]) ELSE NSub(1,Part(x[i]))
      upd(i,s) == NAdd(IF up # <<>> /\ ~pruned /\ up[1] = i /\ up[4] = s THEN NDiv(NSub(q,up[3]),IF s = 0 THEN Part(up[2]) ELSE NSub(1,Part(up[2]))) ELSE 0,
                       IF bb.strat = 3 /\ i \in both THEN NDiv(NSub(IF s = 0 THEN tried[i].d ELSE tried[i].u,q),per(i,s)) ELSE 0)
      cnt(i,s) == (IF up # <<>> /\ ~pruned /\ up[1] = i /\ up[4] = s THEN 1 ELSE 0) + (IF bb.strat = 3 /\ i \in both THEN 1 ELSE 0)
      sp == nd.sp+1
      eps == NMul("1e-9",NAdd(1,NAbs(q)))
      sure(i) == e.pc.n0[i] > bb.eta /\ e.pc.n1[i] > bb.eta
      was(i) == e.pc.n0[i]-1 > bb.eta /\ e.pc.n1[i]-1 > bb.eta
      score(i,d) == IF tried[i].what = "both" THEN Score(NAdd(NSub(tried[i].d,q),d),NAdd(NSub(tried[i].u,q),d)) ELSE PseudoScore(e.pc,i,kind(i),x[i],d)
      cand == IF bb.strat = 1 THEN both ELSE IF bb.strat = 3 THEN frac \ cuts ELSE frac
  IN Chk(one.lo = nd0.lo /\ one.hi = nd0.hi,"C16","the relaxation solved is not that of the node",<<k,one.lo,one.hi>>) \cup
     Chk(\A j \in 1..Len(e.nodes) : j = v \/ SameNode(e.nodes[j],b.nodes[j]),"C16","bounding a node changed another one",k) \cup
     (IF ~Usable(one) THEN Chk(nd.st = Closed /\ nd.L = (IF one.fl \in {2,12} THEN "-inf" ELSE "inf"),"C16","node without a solution is not closed",<<k,one.fl,nd.L>>)
      ELSE Chk(About(nd.L,q,"1e-9"),"C16","the bound of a node is not the value of its relaxation",<<k,nd.L,q>>) \cup
      IF pruned THEN Chk(nd.st = Closed /\ e.U = U0,"C16","node above the incumbent is not closed",<<k,nd.st>>)
      ELSE IF ~clear \/ ~(Under(q,U0) \/ q = U0) THEN {}
      ELSE Chk(frac = {} \/ (last.lo = last.hi /\ Len(R) > 1 /\ \A i \in N : NLe(NAbs(NSub(last.lo[i],x[i])),"0.500001")),"C16","the rounded relaxation was not tried",<<k,x,last.lo,last.hi>>) \cup
           Chk(About(e.U,U1,"1e-9"),"C16","the incumbent is not the best of the old one and the point found",<<k,e.U,U1>>) \cup
           Chk(nd.st # Branchable \/ (frac # {} /\ ~Over(nd.L,U1)),"C16","an integral or hopeless node stays open",<<k,frac,nd.L,U1>>) \cup
           Chk(nd.st # Closed \/ frac = {} \/ ~Under(nd.L,U1),"C16","a node that can improve was closed",<<k,frac,nd.L,U1>>) \cup
           (IF murky THEN {} ELSE
            Chk(nd.lo = lo1 /\ nd.hi = hi1,"C16","the node's box is not what the trial branchings prove",<<k,nd.lo,nd.hi,lo1,hi1>>) \cup
            Chk(\A i \in N : /\ e.pc.n0[i] = b.pc.n0[i]+cnt(i,0) /\ e.pc.n1[i] = b.pc.n1[i]+cnt(i,1)
                              /\ About(e.pc.s0[i],NAdd(b.pc.s0[i],upd(i,0)),"1e-6") /\ About(e.pc.s1[i],NAdd(b.pc.s1[i],upd(i,1)),"1e-6"),
                "C16","pseudocosts do not average the gains seen",<<k,b.pc,e.pc,up,q,U0>>) \cup
            (IF nd.st # Branchable THEN {} ELSE IF sp \notin frac THEN Bad("C16","the branching variable is not fractional",<<k,sp,x>>) ELSE
             Chk(About(nd.sv,x[sp],"1e-7"),"C16","the branching value is not that of the relaxation",<<k,nd.sv,x[sp]>>) \cup
             (CASE bb.strat = 0 -> Chk(\A j \in N : NLe(NAbs(NSub(Part(x[sp]),"0.5")),NAdd(NAbs(NSub(Part(x[j]),"0.5")),"1e-9")) \/ j \notin frac,"C16","the branching variable is not the most fractional one",<<k,sp,x>>)
                [] bb.strat = 4 -> {}
                [] OTHER -> (IF bb.strat # 1 THEN {} ELSE Chk(\A i \in frac : tried[i].what # "none","C16","strong branching did not try a fractional variable",<<k,x>>)) \cup
                            (IF bb.strat # 3 THEN {} ELSE Chk(\A i \in frac : IF tried[i].what = "none" THEN sure(i) ELSE IF i \in both THEN ~was(i) ELSE ~sure(i),"C16","reliability: strong branching is not used exactly for the unreliable variables",<<k,frac,both,cuts,e.pc,bb.eta>>)) \cup
                            (IF cand = {} THEN Chk(sp \in cuts \/ bb.strat = 2,"C16","the branching variable was no candidate",<<k,sp>>)
                             ELSE Chk(sp \in cand /\ \A j \in cand : NLe(score(j,NNeg(eps)),score(sp,eps)),"C16","the branching variable does not have the best score",<<k,bb.strat,sp,[j \in cand |-> score(j,0)],x>>))))))
SearchBad(P,ints,bb,r) ==
  LET n == Len(r.evs)
      tab(k) == IF k = 0 THEN [nodes |-> <<RootOf(ints)>>, U |-> "inf", pc |-> r.pc0, iter |-> 0] ELSE r.evs[k]
      sane(e) == e.ra = 0 /\ Len(e.rel) > 0 /\ \A j \in 1..Len(e.rel) : Known(e.rel[j]) /\ FinV(e.rel[j].x)
      upOf(k) == LET j == IF k > 1 /\ r.evs[k-1].ev = "branch" THEN k-1 ELSE IF k > 2 /\ r.evs[k-2].ev = "branch" THEN k-2 ELSE 0 IN
                 IF j = 0 THEN <<>> ELSE LET o == r.evs[j-1].nodes[r.evs[j].node+1] IN << o.sp+1, o.sv, o.L, IF j = k-1 THEN 0 ELSE 1 >>
  IN UNION { LET e == r.evs[k] b == tab(k-1) IN
       IF e.ra = 1 THEN {} ELSE
       CASE e.ev = "bound" -> IF sane(e) THEN BoundBad(P,ints,bb,e,b,upOf(k),k) ELSE {}
         [] e.ev = "branch" ->
              LET i == e.node+1 o == b.nodes[i] ch == SplitBox(o,o.sp+1,o.sv,IsBool(ints,o.sp+1)) IN
              Chk(o.st = Branchable,"C16","a node that is not open was split",<<k,i>>) \cup
              Chk(Len(e.nodes) = Len(b.nodes)+1 /\ \A j \in 1..Len(b.nodes) : j = i \/ SameNode(e.nodes[j],b.nodes[j]),"C16","splitting a node changed another one",k) \cup
              (IF o.st # Branchable \/ o.sp = -1 \/ Len(e.nodes) # Len(b.nodes)+1 THEN {} ELSE
               Chk(SameNode(e.nodes[i],ch[1]) /\ SameNode(e.nodes[Len(e.nodes)],ch[2]),"C16","the children are not the floor and the ceiling of the branching variable",<<k,o,e.nodes[i],e.nodes[Len(e.nodes)]>>))
         [] OTHER -> Chk(Len(e.nodes) = Len(b.nodes) /\ \A j \in 1..Len(b.nodes) : SameNode(e.nodes[j],b.nodes[j]),"C16","choosing a node changed one",k) \cup
                     Chk(e.L = MinL(e.nodes,Len(e.nodes)),"C16","the global bound is not the least bound of a node",<<k,e.L>>)
     : k \in {k \in 1..n : k <= 400} }
(* ------------------------------------------------------------------ misc *)
JudgeSilent(st,o) == Chk(o.r.out = 0 \/ (o.op \in {"solve","bbsolve"} /\ st.ws[o.w].verb > 0),"C12","output although verbosity is off",<<o.op,o.r.out>>)
JudgeRaise(st,o) == Chk(st.hnd # "caller" \/ o.r.callerhits = 1,"C05","a signal after the solve does not reach the caller's handler",o.r.callerhits)
=============================================================================
