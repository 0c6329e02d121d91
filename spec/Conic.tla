------------------------------ MODULE Conic ------------------------------
(* The semantics of the problem class, independent of any algorithm.

   A problem  P  is a record (n,m,p,l,q,e, Gjc,Gir,Gpr, Ajc,Air,Apr, c,h,b):

        minimise  c'x   s.t.   A x = b,   G x + s = h,   s in K
        maximise -b'y - h'z  s.t. A'y + G'z + c = 0,   z in K*

   K = R^l_+  x  SOC(q_1) x ... x  Exp x ... x Exp  (e exponential cones).

   A result R (what a solve returns) is a record with flag,x,y,s,z,tau,kap,
   info, stg (settings in force) and the equilibration vectors xe,Ae,Ge.

   Everything is stated on the caller's problem. Norms and thresholds are the
   solver's documented ones: residuals are measured row by row in the units of
   the equilibration (a positive diagonal change of units the solver may choose
   freely), relative to the size of the data and iterates.                   *)
EXTENDS Num, FiniteSets, TLC

(* ------------------------------------------------------------- geometry *)
RECURSIVE SumSeq(_,_)
SumSeq(q,k) == IF k = 0 THEN 0 ELSE SumSeq(q,k-1) + q[k]

SocStart(P,i) == P.l + SumSeq(P.q,i-1)                \* 0-based first row of SOC i
ExpStart(P,i) == P.l + SumSeq(P.q,Len(P.q)) + 3*(i-1)
NSoc(P) == Len(P.q)

Sub(v,a,k) == [i \in 1..k |-> v[a+i]]                 \* k entries from 0-based a
NegV(v) == [i \in 1..Len(v) |-> NNeg(v[i])]

(* Margin of membership: positive inside, relative slack eps allowed. *)
InLP(v,eps)  == \A i \in 1..Len(v) : NLe(NNeg(eps), v[i])
InSOC(v,eps) == LET t == v[1]
                    u == IF Len(v) = 1 THEN 0 ELSE NNorm(Sub(v,1,Len(v)-1))
                IN NLe(u, NAdd(t, NMul(eps, NMax(1,NAbs(t)))))
(* primal exponential cone: s3 log(s2/s3) >= s1, s2,s3 >= 0 *)
InExp(v,eps) ==
  /\ NLe(NNeg(eps),v[2]) /\ NLe(NNeg(eps),v[3])
  /\ IF NLt(0,v[2]) /\ NLt(0,v[3])
     THEN NLe(NSub(v[1], NMul(eps,NAdd(1,NAbs(v[1])))), NMul(v[3], NLog(NDiv(v[2],v[3]))))
     ELSE NLe(v[1], eps)
(* dual exponential cone: z3 >= z1 + z1 log(-z2/z1), z1 <= 0, z2 >= 0 *)
InExpD(v,eps) ==
  /\ NLe(v[1],eps) /\ NLe(NNeg(eps),v[2])
  /\ IF NLt(v[1],0) /\ NLt(0,v[2])
     THEN NLe(NAdd(v[1], NMul(v[1], NLog(NDiv(v[2],NNeg(v[1]))))), NAdd(v[3], NMul(eps,NAdd(1,NAdd(NAbs(v[3]),NAbs(v[1]))))))
     ELSE NLe(NNeg(eps), v[3])

FinV(v) == \A i \in 1..Len(v) : NFin(v[i])

InK(P,v,eps) == /\ FinV(v)
                /\ InLP(Sub(v,0,P.l),eps)
                /\ \A i \in 1..NSoc(P) : InSOC(Sub(v,SocStart(P,i),P.q[i]),eps)
                /\ \A i \in 1..P.e : InExp(Sub(v,ExpStart(P,i),3),eps)
InKD(P,v,eps) == /\ FinV(v)
                 /\ InLP(Sub(v,0,P.l),eps)
                 /\ \A i \in 1..NSoc(P) : InSOC(Sub(v,SocStart(P,i),P.q[i]),eps)
                 /\ \A i \in 1..P.e : InExpD(Sub(v,ExpStart(P,i),3),eps)

(* strict interiors (no slack), for iterates *)
InIntLP(v)  == \A i \in 1..Len(v) : NLt(0,v[i])
InIntSOC(v) == LET u == IF Len(v) = 1 THEN 0 ELSE NDot(Sub(v,1,Len(v)-1),Sub(v,1,Len(v)-1))
               IN NLt(0,v[1]) /\ NLt(NMul(u,"0.99999999999"), NMul(v[1],v[1]))
InIntExp(v) == NLt(0,v[2]) /\ NLt(0,v[3]) /\ InExp(v,"1e-9")
InIntExpD(v) == NLt(v[1],0) /\ NLt(0,v[2]) /\ InExpD(v,"1e-9")
InIntK(P,v) == /\ FinV(v) /\ InIntLP(Sub(v,0,P.l))
               /\ \A i \in 1..NSoc(P) : InIntSOC(Sub(v,SocStart(P,i),P.q[i]))
               /\ \A i \in 1..P.e : InIntExp(Sub(v,ExpStart(P,i),3))
InIntKD(P,v) == /\ FinV(v) /\ InIntLP(Sub(v,0,P.l))
                /\ \A i \in 1..NSoc(P) : InIntSOC(Sub(v,SocStart(P,i),P.q[i]))
                /\ \A i \in 1..P.e : InIntExpD(Sub(v,ExpStart(P,i),3))

(* ------------------------------------------------------- linear algebra *)
AbsM(pr) == [k \in 1..Len(pr) |-> NAbs(pr[k])]
AbsV(v) == [k \in 1..Len(v) |-> NAbs(v[k])]
AX(P,x)  == IF P.p = 0 THEN <<>> ELSE NMatVec(P.Ajc,P.Air,P.Apr,x,P.p)
GX(P,x)  == NMatVec(P.Gjc,P.Gir,P.Gpr,x,P.m)
ATY(P,y) == IF P.p = 0 THEN [j \in 1..P.n |-> 0] ELSE NMatTVec(P.Ajc,P.Air,P.Apr,y,P.n)
GTZ(P,z) == NMatTVec(P.Gjc,P.Gir,P.Gpr,z,P.n)

Dual(P,y,z) == VAdd(ATY(P,y), GTZ(P,z))               \* A'y + G'z
BYHZ(P,y,z) == NAdd(IF P.p = 0 THEN 0 ELSE NDot(P.b,y), NDot(P.h,z))
CX(P,x) == NDot(P.c,x)

(* --------------------------------------------- the solver's own measures *)
(* Recomputed from the caller's data and the returned point. All vectors of
   the embedding are the returned ones times tau.                            *)
Eps == "5e-14"
Ratio(a,b) == IF NLt(0,b) THEN NDiv(a,b) ELSE "nan"
Measures(P,R) ==
  LET t    == R.tau
      xs   == VMul(R.x,R.xe)
      ys   == VMul(R.y,R.Ae)
      zs   == VMul(R.z,R.Ge)
      ss   == VDiv(R.s,R.Ge)
      nx   == NMul(t,NNorm(xs))
      ny   == NMul(t,NNorm(ys))
      nz   == NMul(t,NNorm(zs))
      ns   == NMul(t,NNorm(ss))
      ax   == AX(P,R.x)
      gx   == GX(P,R.x)
      dl   == Dual(P,R.y,R.z)
      ry   == IF P.p = 0 THEN 0 ELSE NNorm(VDiv(VSub(ax,P.b),R.Ae))
      rz   == NNorm(VDiv(VSub(VAdd(R.s,gx),P.h),R.Ge))
      rx   == NNorm(VDiv(VAdd(dl,P.c),R.xe))
      rx0  == NMax(1,NNorm(VDiv(P.c,R.xe)))
      ry0  == IF P.p = 0 THEN 1 ELSE NMax(1,NNorm(VDiv(P.b,R.Ae)))
      rz0  == NMax(1,NNorm(VDiv(P.h,R.Ge)))
      hx   == NMul(t,NNorm(VDiv(dl,R.xe)))
      hy   == IF P.p = 0 THEN 0 ELSE NMul(t,NNorm(VDiv(ax,R.Ae)))
      hz   == NMul(t,NNorm(VDiv(VAdd(R.s,gx),R.Ge)))
      sz   == NMul(NMul(t,t),NDot(R.s,R.z))
      cx   == CX(P,R.x)
      byhz == BYHZ(P,R.y,R.z)
      ax_a == IF P.p = 0 THEN <<>> ELSE NMatVec(P.Ajc,P.Air,AbsM(P.Apr),AbsV(R.x),P.p)
      gx_a == NMatVec(P.Gjc,P.Gir,AbsM(P.Gpr),AbsV(R.x),P.m)
      dl_a == VAdd(IF P.p = 0 THEN [j \in 1..P.n |-> 0] ELSE NMatTVec(P.Ajc,P.Air,AbsM(P.Apr),AbsV(R.y),P.n),
                   NMatTVec(P.Gjc,P.Gir,AbsM(P.Gpr),AbsV(R.z),P.n))
  IN [ pcost |-> cx, dcost |-> NNeg(byhz), gap |-> sz,
       pres |-> NMax(NDiv(ry,NMax(NAdd(ry0,nx),1)), NDiv(rz,NMax(NAdd(rz0,NAdd(nx,ns)),1))),
       dres |-> NDiv(rx,NMax(NAdd(rx0,NAdd(ny,nz)),1)),
       \* what rounding alone may contribute (the sums cancel when tau is tiny)
       pnoise |-> NMul(Eps,NMax(IF P.p = 0 THEN 0 ELSE NDiv(NNorm(VDiv(ax_a,R.Ae)),NMax(NAdd(ry0,nx),1)),
                                NDiv(NNorm(VDiv(VAdd(gx_a,AbsV(R.s)),R.Ge)),NMax(NAdd(rz0,NAdd(nx,ns)),1)))),
       dnoise |-> NMul(Eps,NDiv(NNorm(VDiv(dl_a,R.xe)),NMax(NAdd(rx0,NAdd(ny,nz)),1))),
       kapovert |-> NDiv(R.kap,t),
       relgap |-> IF NLt(cx,0) THEN NDiv(sz,NNeg(cx)) ELSE IF NLt(byhz,0) THEN NDiv(sz,NNeg(byhz)) ELSE "nan",
       gapnoise |-> NMul("2e-15",NMul(NMul(t,t),NAbsDot(R.s,R.z))),
       relnoise |-> LET d == IF NLt(cx,0) THEN NAbsDot(P.c,R.x) ELSE NAdd(IF P.p=0 THEN 0 ELSE NAbsDot(P.b,R.y), NAbsDot(P.h,R.z))
                        v == IF NLt(cx,0) THEN NNeg(cx) ELSE NNeg(byhz)
                    IN IF NLt(0,v) THEN NAdd(NMul(NDiv(sz,v),NDiv(NMul("1e-10",d),v)),NDiv(NMul("2e-15",NMul(NMul(t,t),NAbsDot(R.s,R.z))),v)) ELSE 0,
       mu |-> NDiv(NAdd(sz,NMul(R.kap,t)), P.l + NSoc(P) + 3*P.e + 1),
       \* a certificate is measured relative to its own size
       pinfres |-> Ratio(hx,NAdd(ny,nz)),
       pinfval |-> Ratio(NMul(t,byhz),NAdd(ny,nz)),          \* must be negative
       dinfres |-> IF NLt(0,nx) THEN NMax(NDiv(hy,nx), NDiv(hz,NAdd(nx,ns))) ELSE "nan",
       dinfval |-> Ratio(NMul(t,cx),nx),
       pcnoise |-> IF NLt(0,NAdd(ny,nz)) THEN NMul(NMul(Eps,t),NDiv(NNorm(VDiv(dl_a,R.xe)),NAdd(ny,nz))) ELSE 0,
       dcnoise |-> IF NLt(0,nx) THEN NMul(NMul(Eps,t),NDiv(NMax(IF P.p = 0 THEN 0 ELSE NNorm(VDiv(ax_a,R.Ae)),NNorm(VDiv(VAdd(gx_a,AbsV(R.s)),R.Ge))),nx)) ELSE 0,
       nx |-> nx, ny |-> ny, nz |-> nz, ns |-> ns,
       cxabs |-> NAbsDot(P.c,R.x), bhabs |-> NAdd(IF P.p=0 THEN 0 ELSE NAbsDot(P.b,R.y), NAbsDot(P.h,R.z)) ]

Close(a,b,rel,abs) == \/ ~NFin(a) /\ ~NFin(b)
                      \/ NFin(a) /\ NFin(b) /\ NLe(NAbs(NSub(a,b)), NAdd(abs,NMul(rel,NMax(NAbs(a),NAbs(b)))))

Slack == "1.5"        \* allowance on thresholds for rounding in the solver
Tiny  == "1e-11"

Tol(stg,full) == IF full THEN [f |-> stg.feastol, a |-> stg.abstol, r |-> stg.reltol]
                         ELSE [f |-> stg.feastol_inacc, a |-> stg.abstol_inacc, r |-> stg.reltol_inacc]
Within(v,t,tiny) == NLe(v, NAdd(NMul(Slack,t),tiny))

Flags == {0,1,2,10,11,12,-1,-2,-3,-4,-7}

(* Each judgement is a set of the names of the clauses that fail. *)
If(cond,name) == IF cond THEN {} ELSE {name}

(* flag 0 / 10 : the returned point is optimal for the caller's problem *)
OptimalBad(P,R,M) ==
  LET T == Tol(R.stg, R.flag = 0)
  IN If(NLt(0,R.tau), "tau") \cup
     If(Within(M.pres,T.f,Tiny), "primal-feasibility") \cup
     If(Within(M.dres,T.f,Tiny), "dual-feasibility") \cup
     If(InK(P,R.s,"1e-9"), "slack-in-cone") \cup
     If(InKD(P,R.z,"1e-9"), "multiplier-in-dual-cone") \cup
     If(Within(M.gap,T.a,Tiny) \/ Within(M.relgap,T.r,Tiny), "duality-gap") \cup
     If(Close(R.info.pcost,M.pcost,"1e-9",NAdd("1e-11",NMul("1e-10",M.cxabs))), "objective-value")

(* flag 1 / 11 : a certificate of primal infeasibility *)
PinfBad(P,R,M) ==
  LET T == Tol(R.stg, R.flag = 1)
  IN If(NLt(0,R.tau), "tau") \cup
     If(InKD(P,VScale(R.tau,R.z),"1e-9"), "certificate-in-dual-cone") \cup
     If(NFin(M.pinfres) /\ Within(M.pinfres,T.f,NAdd(Tiny,M.pcnoise)), "certificate-residual") \cup
     If(NFin(M.pinfval) /\ NLt(M.pinfval,0), "certificate-sign")

(* flag 2 / 12 : an improving ray *)
DinfBad(P,R,M) ==
  LET T == Tol(R.stg, R.flag = 2)
  IN If(NLt(0,R.tau), "tau") \cup
     If(InK(P,VScale(R.tau,R.s),"1e-9"), "ray-slack-in-cone") \cup
     If(NFin(M.dinfres) /\ Within(M.dinfres,T.f,NAdd(Tiny,M.dcnoise)), "ray-residual") \cup
     If(NFin(M.dinfval) /\ NLt(M.dinfval,0), "ray-sign")

(* the statistics describe the returned point *)
StatsBad(P,R,M) ==
  LET i == R.info
      fin == FinV(R.x) /\ FinV(R.y) /\ FinV(R.s) /\ FinV(R.z) /\ NFin(R.tau) /\ NLt(0,R.tau)
  IN IF ~fin THEN {} ELSE
     If(Close(i.pcost,M.pcost,"1e-8",NAdd("1e-10",NMul("1e-9",M.cxabs))), "pcost") \cup
     If(Close(i.dcost,M.dcost,"1e-8",NAdd("1e-10",NMul("1e-9",M.bhabs))), "dcost") \cup
     If(Close(i.gap,M.gap,"1e-6",NAdd("1e-12",M.gapnoise)), "gap") \cup
     If(Close(i.pres,M.pres,"1e-3",NAdd("1e-12",M.pnoise)), "pres") \cup
     If(Close(i.dres,M.dres,"1e-3",NAdd("1e-12",M.dnoise)), "dres") \cup
     If(Close(i.kapovert,M.kapovert,"1e-6","1e-300"), "kapovert") \cup
     If(Close(i.mu,M.mu,"1e-6",NAdd("1e-14",M.gapnoise)), "mu") \cup
     If(~NFin(i.pinfres) \/ Close(i.pinfres,M.pinfres,"1e-3",NAdd("1e-12",M.pcnoise)), "pinfres") \cup
     If(~NFin(i.dinfres) \/ Close(i.dinfres,M.dinfres,"1e-3",NAdd("1e-12",M.dcnoise)), "dinfres") \cup
     If(~NFin(i.relgap) \/ Close(i.relgap,M.relgap,"1e-6",NAdd("1e-12",M.relnoise))
        \/ NLe(NAbs(M.pcost),NMul("1e-10",M.cxabs)) \/ NLe(NAbs(M.dcost),NMul("1e-10",M.bhabs)) \/ ~NFin(M.relgap), "relgap")

(* the exit test, stated on the statistics *)
Exit(info,by_hz,cx,tau,kap,T,feastol) ==
  IF /\ (NLt(0,NNeg(cx)) \/ NLe(NNeg(T.a),NNeg(by_hz)))
     /\ NLt(info.pres,T.f) /\ NLt(info.dres,T.f)
     /\ (NLt(info.gap,T.a) \/ NLt(info.relgap,T.r)) THEN 0
  ELSE IF NLt(info.dinfres,T.f) /\ NLt(tau,kap) THEN 2
  ELSE IF \/ NLt(info.pinfres,T.f) /\ NLt(tau,kap)
          \/ NLt(tau,feastol) /\ NLt(kap,feastol) /\ NLt(info.pinfres,feastol) THEN 1
  ELSE -87
=============================================================================
