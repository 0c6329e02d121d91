-------------------------------- MODULE Ipm --------------------------------
(* One iteration of the interior-point method: the transition relation from an
   iterate of the homogeneous embedding to the next.

   An iterate e is a record with x,y,s,z,tau,kap, the residuals rx,ry,rz,rt and
   mu; all of it in the units of the equilibrated problem
       minimise cb'x  s.t.  Ab x = bb,  Gb x + s = hb,
   Ab = A/(Ae xe'), Gb = G/(Ge xe'), cb = c/xe, bb = b/Ae, hb = h/Ge.

   The step is  next = e + alpha d,  where d solves, with sigma in (0,1],
       A'dy + G'dz + c dtau = (1-sigma) rx        A dx - b dtau = -(1-sigma) ry
       ds + G dx - h dtau   = -(1-sigma) rz       dkap + c'dx + b'dy + h'dz = -(1-sigma) rt
   and is centred by the Nesterov-Todd scaling W of the symmetric cones
       lam o (lam + W dz + W\ds) + (W\dsa) o (W dza) = sigma mu e   (a: the affine direction, sigma = 0)
   and by the Hessian H and gradient g of the dual barrier on exponential cones
       ds + mu H(z) dz + s + sigma mu g(z) = 0.
   alpha is gamma times the way to the boundary of the symmetric cones; with
   exponential cones gamma times the first of the backtracking candidates that
   is feasible and close enough to the central path.                         *)
EXTENDS Conic

Deg(P) == P.l + NSoc(P) + 3*P.e
SocOf(P,v,i) == Sub(v,SocStart(P,i),P.q[i])
ExpOf(P,v,i) == Sub(v,ExpStart(P,i),3)
RECURSIVE NPow(_,_)
NPow(a,k) == IF k = 0 THEN 1 ELSE NMul(a,NPow(a,k-1))
(* a + t*b *)
Axpy(a,t,b) == VAdd(a,VScale(t,b))
Tl(v) == Sub(v,1,Len(v)-1)
VMaxAbs(v) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN 0 ELSE NMax(F(k-1),NAbs(v[k])) IN F(Len(v))

(* ------------------------------------------------- second-order cones *)
JDet(v) == NSub(NMul(v[1],v[1]),NDot(Tl(v),Tl(v)))
(* the scaling point of s and z: w with w'Jw = 1, and eta *)
NT(s,z) ==
  LET ds == NSqrt(JDet(s)) dz == NSqrt(JDet(z))
      sb == VScale(NDiv(1,ds),s) zb == VScale(NDiv(1,dz),z)
      ga == NSqrt(NDiv(NAdd(1,NDot(sb,zb)),2))
      Jz == [i \in 1..Len(z) |-> IF i = 1 THEN zb[1] ELSE NNeg(zb[i])]
  IN [w |-> VScale(NDiv(1,NMul(2,ga)),VAdd(sb,Jz)), eta |-> NSqrt(NDiv(ds,dz))]
(* W v and W\v *)
WMul(N,v) == LET t == NDot(Tl(N.w),Tl(v)) f == NAdd(v[1],NDiv(t,NAdd(1,N.w[1]))) IN
  VScale(N.eta,[i \in 1..Len(v) |-> IF i = 1 THEN NAdd(NMul(N.w[1],v[1]),t) ELSE NAdd(v[i],NMul(f,N.w[i]))])
WDiv(N,v) == LET t == NDot(Tl(N.w),Tl(v)) f == NSub(NDiv(t,NAdd(1,N.w[1])),v[1]) IN
  VScale(NDiv(1,N.eta),[i \in 1..Len(v) |-> IF i = 1 THEN NSub(NMul(N.w[1],v[1]),t) ELSE NAdd(v[i],NMul(f,N.w[i]))])
Prod(u,v) == [i \in 1..Len(u) |-> IF i = 1 THEN NDot(u,v) ELSE NAdd(NMul(u[1],v[i]),NMul(v[1],u[i]))]

(* ------------------------------------------------- exponential cones *)
(* gradient and Hessian of -log(r) - log(-x) - log(y), r = z-x-x log(-y/x), at (x,y,z) *)
ExpR(v) == NSub(NSub(v[3],v[1]),NMul(v[1],NLog(NDiv(NNeg(v[2]),v[1]))))
ExpGrad(v) == LET l == NLog(NDiv(NNeg(v[2]),v[1])) r == ExpR(v) IN
  << NSub(NDiv(l,r),NDiv(1,v[1])), NSub(NDiv(v[1],NMul(v[2],r)),NDiv(1,v[2])), NDiv(-1,r) >>
(* dr = (-l, -x/y, 1); H = dr dr'/r^2 - d2r/r + diag(1/x^2, 1/y^2, 0), d2r = [[1/x, -1/y],[-1/y, x/y^2]] *)
ExpHess(v) ==
  LET l == NLog(NDiv(NNeg(v[2]),v[1])) r == ExpR(v) x == v[1] y == v[2]
      d == << NNeg(l), NNeg(NDiv(x,y)), 1 >>
      d2(i,j) == CASE i = 1 /\ j = 1 -> NDiv(1,x) [] i = 2 /\ j = 2 -> NDiv(x,NMul(y,y)) [] i+j = 3 -> NDiv(-1,y) [] OTHER -> 0
      dg(i,j) == IF i # j THEN 0 ELSE IF i = 1 THEN NDiv(1,NMul(x,x)) ELSE IF i = 2 THEN NDiv(1,NMul(y,y)) ELSE 0
  IN TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> NAdd(NSub(NDiv(NMul(d[i],d[j]),NMul(r,r)),NDiv(d2(i,j),r)),dg(i,j))])])

(* ------------------------------------------------- the affine direction *)
ConeOf(P,i) == CHOOSE k \in 1..NSoc(P) : SocStart(P,k) < i /\ i <= SocStart(P,k)+P.q[k]
ExpoOf(P,i) == (i-ExpStart(P,1)-1) \div 3 + 1
(* the scaling matrix B: W'W on the symmetric cones, mu H(z) on the others *)
Block(P,e,S,i,j) ==
  IF i <= P.l THEN (IF i = j THEN NDiv(e.s[i],e.z[i]) ELSE 0)
  ELSE IF i <= ExpStart(P,1) THEN
       LET k == ConeOf(P,i) o == SocStart(P,k) N == S.nt[k] IN
       IF j <= o \/ j > o+P.q[k] THEN 0 ELSE
       NMul(NMul(N.eta,N.eta),NSub(NMul(2,NMul(N.w[i-o],N.w[j-o])),IF i # j THEN 0 ELSE IF i = o+1 THEN 1 ELSE -1))
  ELSE LET k == ExpoOf(P,i) o == ExpStart(P,k) IN
       IF j <= o \/ j > o+3 THEN 0 ELSE NMul(e.mu,S.hs[k][i-o][j-o])
Scaling(P,e) ==
  LET S == [ nt |-> TLCEval([k \in 1..NSoc(P) |-> NT(SocOf(P,e.s,k),SocOf(P,e.z,k))]),
             hs |-> TLCEval([k \in 1..P.e |-> ExpHess(ExpOf(P,e.z,k))]) ]
  IN [ nt |-> S.nt, hs |-> S.hs, B |-> TLCEval([i \in 1..P.m |-> TLCEval([j \in 1..P.m |-> Block(P,e,S,i,j)])]) ]
Dense(jc,ir,pr,rows,sr,sc) ==      \* columns of the equilibrated matrix
  TLCEval([j \in 1..Len(sc) |-> LET K == jc[j]+1..jc[j+1] IN
     TLCEval([i \in 1..rows |-> LET E == {k \in K : ir[k] = i-1} IN IF E = {} THEN 0 ELSE NDiv(pr[CHOOSE k \in E : TRUE],NMul(sr[i],sc[j]))])])
Equil(P,Q) == [G |-> Dense(P.Gjc,P.Gir,P.Gpr,P.m,Q.Ge,Q.xe), A |-> IF P.p = 0 THEN [j \in 1..P.n |-> <<>>] ELSE Dense(P.Ajc,P.Air,P.Apr,P.p,Q.Ae,Q.xe),
               c |-> VDiv(P.c,Q.xe), b |-> IF P.p = 0 THEN <<>> ELSE VDiv(P.b,Q.Ae), h |-> VDiv(P.h,Q.Ge)]
(* rows of the linear system in (dx,dy,dz,dtau) *)
System(P,Q,e,S) ==
  LET n == P.n p == P.p m == P.m N == n+p+m+1
      Z(k) == [i \in 1..k |-> 0]
      rowx(j) == Z(n) \o Q.A[j] \o Q.G[j] \o <<Q.c[j]>>
      rowy(i) == [j \in 1..n |-> Q.A[j][i]] \o Z(p) \o Z(m) \o <<NNeg(Q.b[i])>>
      rowz(i) == [j \in 1..n |-> Q.G[j][i]] \o Z(p) \o [j \in 1..m |-> NNeg(S.B[i][j])] \o <<NNeg(Q.h[i])>>
      rowt == Q.c \o Q.b \o Q.h \o <<NNeg(NDiv(e.kap,e.tau))>>
  IN [ M |-> [k \in 1..N |-> IF k <= n THEN rowx(k) ELSE IF k <= n+p THEN rowy(k-n) ELSE IF k <= n+p+m THEN rowz(k-n-p) ELSE rowt],
       r |-> e.rx \o VScale(-1,e.ry) \o VSub(e.s,e.rz) \o <<NSub(e.kap,e.rt)>> ]
Affine(P,Q,e,S) ==          \* <<>> if there is no unique one
  LET sy == System(P,Q,e,S) u == NSolve(sy.M,sy.r) n == P.n p == P.p m == P.m IN
  IF u = <<>> THEN <<>> ELSE
  LET dz == Sub(u,n+p,m)
      Wdz == [i \in 1..m |-> NDot(S.B[i],dz)]
      dt == u[n+p+m+1]
  IN [ x |-> Sub(u,0,n), y |-> Sub(u,n,p), z |-> dz, s |-> VScale(-1,VAdd(e.s,Wdz)), tau |-> dt,
       kap |-> NNeg(NAdd(e.kap,NMul(NDiv(e.kap,e.tau),dt))) ]

(* ------------------------------------------------- the first iterate *)
(* With exponential cones: their common central point, and the units of the
   other cones. Without: x minimises |Gb x - hb| among the solutions of
   Ab x = bb and s is the residual; (y,z) is the least z with Ab'y + Gb'z = -cb;
   both are shifted along the unit e into the interior.                       *)
ExpCentre == << "-1.051383945322714", "1.258967884768947", "0.556409619469370" >>
UnitE(P) == [i \in 1..P.m |-> IF i <= P.l \/ \E k \in 1..NSoc(P) : i = SocStart(P,k)+1 THEN 1
                              ELSE IF i <= ExpStart(P,1) THEN 0 ELSE ExpCentre[((i-ExpStart(P,1)-1) % 3) + 1]]
LeastSquares(P,Q,r) ==         \* <<>> if there is no unique one
  LET n == P.n p == P.p m == P.m
      Z(k) == [i \in 1..k |-> 0]
      M == [k \in 1..n+p+m |-> IF k <= n THEN Z(n) \o Q.A[k] \o Q.G[k]
                               ELSE IF k <= n+p THEN [j \in 1..n |-> Q.A[j][k-n]] \o Z(p+m)
                               ELSE [j \in 1..n |-> Q.G[j][k-n-p]] \o Z(p) \o [i \in 1..m |-> IF i = k-n-p THEN -1 ELSE 0]]
  IN NSolve(M,r)
(* how far v is from the cone, along e *)
Outside(P,v) ==
  LET lp == { NNeg(v[i]) : i \in 1..P.l }
      so == { LET u == SocOf(P,v,k) IN NSub(NNorm(Tl(u)),u[1]) : k \in 1..NSoc(P) }
      RECURSIVE F(_) F(T) == LET x == CHOOSE x \in T : TRUE IN IF T = {x} THEN x ELSE NMax(x,F(T \ {x}))
  IN F(lp \cup so)
(* v shifted: by 1 more than needed, hardly at all if it is inside already *)
Shifted(P,v,w,eps) ==
  LET o == Outside(P,v) e == UnitE(P)
      by(t) == NLe(VMaxAbs(VSub(w,Axpy(v,t,e))),eps)
  IN (NLe(NNeg(eps),o) /\ by(NAdd(1,o))) \/ (NLe(o,eps) /\ by("0.01"))

(* ------------------------------------------------- centring *)
(* the direction actually taken, from two consecutive iterates *)
Taken(e,f,alpha) == [ z |-> VScale(NDiv(1,alpha),VSub(f.z,e.z)), s |-> VScale(NDiv(1,alpha),VSub(f.s,e.s)),
                      tau |-> NDiv(NSub(f.tau,e.tau),alpha), kap |-> NDiv(NSub(f.kap,e.kap),alpha) ]
(* how far the centring equation of each cone is missed, relative to mu + |sum of the terms| *)
Miss(P,e,S,d,a,sigma) ==
  LET sm == NMul(sigma,e.mu)
      rel(x,t) == NDiv(NAbs(x),NAdd(e.mu,t))
      lp == { <<"linear",i,LET t1 == NMul(e.s[i],d.z[i]) t2 == NMul(e.z[i],d.s[i]) t3 == NMul(e.s[i],e.z[i]) t4 == NMul(a.s[i],a.z[i]) IN
              rel(NSub(NAdd(NAdd(t1,t2),NAdd(t3,t4)),sm),NAdd(NAdd(NAbs(t1),NAbs(t2)),NAdd(t3,NAbs(t4))))>> : i \in 1..P.l }
      tk == <<"tau",0,LET t1 == NMul(e.kap,d.tau) t2 == NMul(e.tau,d.kap) t3 == NMul(e.tau,e.kap) t4 == NMul(a.tau,a.kap) IN
              rel(NSub(NAdd(NAdd(t1,t2),NAdd(t3,t4)),sm),NAdd(NAdd(NAbs(t1),NAbs(t2)),NAdd(t3,NAbs(t4))))>>
      soc == { <<"second-order",k,
               LET N == S.nt[k] lam == WMul(N,SocOf(P,e.z,k)) wz == WMul(N,SocOf(P,d.z,k)) ws == WDiv(N,SocOf(P,d.s,k))
                   t1 == Prod(lam,VAdd(lam,VAdd(wz,ws))) t2 == Prod(WDiv(N,SocOf(P,a.s,k)),WMul(N,SocOf(P,a.z,k)))
                   r == VAdd(t1,t2) big == NAdd(NMul(VMaxAbs(lam),NAdd(VMaxAbs(wz),VMaxAbs(ws))),VMaxAbs(t2))
               IN rel(VMaxAbs([r EXCEPT ![1] = NSub(@,sm)]),big)>> : k \in 1..NSoc(P) }
      ex == { <<"exponential",k,
               LET g == ExpGrad(ExpOf(P,e.z,k)) H == S.hs[k] dz == ExpOf(P,d.z,k) ds == ExpOf(P,d.s,k) s == ExpOf(P,e.s,k)
                   Hd == [i \in 1..3 |-> NMul(e.mu,NDot(H[i],dz))]
                   r == VAdd(VAdd(ds,Hd),Axpy(s,sm,g))
                   \* measured in the local norm of the cone, through z (mu H z = -mu g)
               IN NDiv(VMaxAbs(VMul(r,ExpOf(P,e.z,k))),NAdd(e.mu,NAdd(VMaxAbs(VMul(s,ExpOf(P,e.z,k))),VMaxAbs(VMul(Hd,ExpOf(P,e.z,k))))))>> : k \in 1..P.e }
  IN lp \cup soc \cup ex \cup {tk}

(* ------------------------------------------------- step lengths *)
At(e,d,t) == [ s |-> Axpy(e.s,t,d.s), z |-> Axpy(e.z,t,d.z), tau |-> NAdd(e.tau,NMul(t,d.tau)), kap |-> NAdd(e.kap,NMul(t,d.kap)) ]
InSym(P,v) == InIntLP(Sub(v,0,P.l)) /\ \A k \in 1..NSoc(P) : NLt(0,SocOf(P,v,k)[1]) /\ NLt(0,JDet(SocOf(P,v,k)))
InsideSym(P,a) == NLt(0,a.tau) /\ NLt(0,a.kap) /\ InSym(P,a.s) /\ InSym(P,a.z)
StepMin == "1e-6"   StepMax == "0.999"
(* t is as far as the symmetric cones, tau and kappa let one go (up to eps) *)
Farthest(P,e,d,t,eps) ==
  LET dn == NSub(1,eps) up == NAdd(1,eps) IN
  /\ NLe(t,NMul(StepMax,up))
  /\ InsideSym(P,At(e,d,NMul(t,dn))) \/ NLe(t,NMul(StepMin,up))
  /\ NLe(NMul(StepMax,dn),t) \/ ~InsideSym(P,At(e,d,NMul(t,up)))

(* the central measure: barriers of s and z against log mu *)
MuAt(P,a) == NDiv(NAdd(NDot(a.s,a.z),NMul(a.tau,a.kap)),Deg(P)+1)
SumS(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN NAdd(x[2],F(T \ {x})) IN F(S)
ExpBarrier(s,z) ==
  LET o == NOmega(NSub(NAdd(NSub(1,NDiv(s[1],s[3])),NLog(s[2])),NLog(s[3])))
      q == NDiv(NMul(NSub(o,1),NSub(o,1)),o)
  IN NSub(NNeg(NAdd(NAdd(NLog(ExpR(z)),NLog(NNeg(z[1]))),NLog(z[2]))),
          NAdd(NAdd(NLog(q),NMul(2,NLog(s[3]))),NAdd(NLog(s[2]),3)))
Centrality(P,a) ==
  LET lp == SumS({ <<i,NAdd(NLog(a.s[i]),NLog(a.z[i]))>> : i \in 1..P.l })
      so == SumS({ <<k,NDiv(NAdd(NLog(JDet(SocOf(P,a.s,k))),NLog(JDet(SocOf(P,a.z,k)))),2)>> : k \in 1..NSoc(P) })
      ex == SumS({ <<k,ExpBarrier(ExpOf(P,a.s,k),ExpOf(P,a.z,k))>> : k \in 1..P.e })
      tk == NAdd(NLog(a.tau),NLog(a.kap))
  IN NAdd(NSub(ex,NAdd(NAdd(lp,so),tk)),NMul(Deg(P)+1,NLog(MuAt(P,a))))
InExpStrict(P,a) == /\ \A k \in 1..P.e : LET v == ExpOf(P,a.s,k) IN NLt(0,v[2]) /\ NLt(0,v[3]) /\ NLt(v[1],NMul(v[3],NLog(NDiv(v[2],v[3]))))
                    /\ \A k \in 1..P.e : LET v == ExpOf(P,a.z,k) IN NLt(v[1],0) /\ NLt(0,v[2]) /\ NLt(0,ExpR(v))
MuI(P,a,k) == NDiv(NDot(ExpOf(P,a.s,k),ExpOf(P,a.z,k)),3)
(* a candidate is acceptable; slack > 0 accepts a little more, slack < 0 a little less *)
Acceptable(P,a,limit,slack) ==
  /\ InsideSym(P,a) /\ InExpStrict(P,a)
  /\ \A k \in 1..P.e : NLt(NMul(NSub("0.1",slack),MuAt(P,a)),MuI(P,a,k))
  /\ NLt(Centrality(P,a),NAdd(limit,slack))
=============================================================================
