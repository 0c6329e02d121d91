-------------------------------- MODULE Gen --------------------------------
(* Scenario families: histories of operations, generated by deterministic
   pseudo-random choices (Rnd) from a seed. Histories with updates are walks
   through the state machine Session (only enabled operations are taken), so
   the generator knows the data in force at every point.                      *)
EXTENDS Ops, IOUtils, Json

Scen(fam,s,truth,r) == [fam |-> fam, seed |-> s, truth |-> truth] @@ r

(* ---------------------------------------------------- base problem classes *)
Base(s,t) ==      \* <<kind, record [D,truth,..]>>
  LET k == Rnd(s,t,10) s1 == s*7+1
  IN IF k < 4 THEN GenExact(s1) ELSE IF k < 8 THEN GenOpt(s1) ELSE IF k = 8 THEN GenPinf(s1) ELSE GenDinf(s1)

Tens == << "0.001","0.01","0.1","1","1","1","10","100","1000" >>
Twos == << 1,1,2,4,8 >>
(* change units: rows (one factor per cone) and columns *)
RowFac(P,s,T) == [i \in 1..P.m |->
  IF i <= P.l THEN Pick(s,<<101,i>>,T)
  ELSE LET kq == {k \in 1..NSoc(P) : SocStart(P,k) < i /\ i <= SocStart(P,k)+P.q[k]}
       IN IF kq # {} THEN Pick(s,<<102,CHOOSE k \in kq : TRUE>>,T) ELSE Pick(s,<<103,(i-1-ExpStart(P,1)) \div 3>>,T)]
Units(P,s,T) ==
  LET f == RowFac(P,s,T)
      d == [j \in 1..P.n |-> Pick(s,<<104,j>>,T)]
      e == [i \in 1..P.p |-> Pick(s,<<105,i>>,T)]
  IN [P EXCEPT !.Gpr = [k \in 1..Len(@) |-> NMul(NMul(@[k],f[P.Gir[k]+1]),d[ColOf(P.Gjc,k)])],
               !.Apr = [k \in 1..Len(@) |-> NMul(NMul(@[k],e[P.Air[k]+1]),d[ColOf(P.Ajc,k)])],
               !.c = VMul(@,d), !.h = VMul(@,f), !.b = VMul(@,e)]

Stgs(s,w) ==      \* a random choice of settings
  LET k == Rnd(s,<<110>>,8) IN
  CASE k = 0 -> << OStg(w,"feastol","1e-5"), OStg(w,"abstol","1e-5"), OStg(w,"reltol","1e-5") >>
    [] k = 1 -> << OStg(w,"feastol","1e-9"), OStg(w,"abstol","1e-9"), OStg(w,"reltol","1e-9") >>
    [] k = 2 -> << OStg(w,"maxit",ToString(Rnd(s,<<111>>,12))) >>
    [] k = 3 -> << OStg(w,"maxit",ToString(Rnd(s,<<111>>,16))), OStg(w,"feastol_inacc","1e-3"), OStg(w,"abstol_inacc","1e-2"), OStg(w,"reltol_inacc","1e-2") >>
    [] k = 4 -> << OStg(w,"nitref",ToString(Rnd(s,<<112>>,4))) >>
    [] k = 5 -> << OStg(w,"feastol","1e-13"), OStg(w,"abstol","1e-14"), OStg(w,"reltol","1e-14") >>
    [] k = 6 -> << OStg(w,"gamma","0.9"), OStg(w,"delta","1e-6") >>
    [] OTHER -> <<>>

Plain(b,w,P,pre,lev) == << OProb(b,P), OSetup(w,b) >> \o pre \o << OTrace(w,lev), OSolve(w), ODump(b), OClean(w,0), ODump(b), OLedger >>
ValOf(r) == IF r.truth = "exact" THEN [val |-> r.val] ELSE IF r.truth = "opt" THEN [lb |-> r.lb, ub |-> r.ub] ELSE [none |-> 0]

(* two opposite inequalities have a whole line of multipliers: without an
   optimum the certificate's relative tolerance then decides nothing        *)
RwNo(truth,k) == IF k = 10 /\ truth \in {"pinf","dinf"} THEN 1 ELSE k
(* ---------------------------------------------------------------- families *)
FWell(s) == LET r == Base(s,<<1>>) zs == Rnd(s,<<2>>,3)
                D == IF Rnd(s,<<5>>,3) = 0 THEN Rewrite(r.D,RwNo(r.truth,1+Rnd(s,<<6>>,NRw)),s) ELSE r.D IN
  Scen("well",s,r.truth, ValOf(r) @@ [ops |-> Plain(0,0,Flat(D,IF zs = 0 THEN s ELSE 0),<<>>,0)])
FSolve(s) == LET r == Base(s,<<1>>) P == Flat(r.D,IF Rnd(s,<<2>>,3) = 0 THEN s ELSE 0)
                 Q == IF Rnd(s,<<3>>,3) = 0 THEN P ELSE Units(P,s,Tens) IN
  Scen("solve",s,"any",[ops |-> Plain(0,0,Q,Stgs(s,0),0)])
FCert(s) == LET r == IF Rnd(s,<<1>>,2) = 0 THEN GenPinf(s) ELSE GenDinf(s)
                P == Flat(r.D,IF Rnd(s,<<2>>,3) = 0 THEN s ELSE 0)
                Q == IF Rnd(s,<<3>>,2) = 0 THEN P ELSE Units(P,s,Tens) IN
  Scen("cert",s,"any",[ops |-> Plain(0,0,Q,Stgs(s,0),0)])
FLim(s) == LET r == Base(s,<<1>>) P == Flat(r.D,0)  Q == IF Rnd(s,<<3>>,3) # 0 THEN P ELSE Units(P,s,Tens) IN
  Scen("lim",s,"any",[ops |-> Plain(0,0,Q, IF Rnd(s,<<4>>,2) = 0 THEN Stgs(s,0) ELSE <<OStg(0,"maxit",ToString(Rnd(s,<<5>>,14)))>>,1)])
(* what a workspace may have been through before *)
Before(s,Q) ==
  LET R == Units(Q,s+3,<<1,2,"0.5",5>>) IN
  CASE Rnd(s,<<8>>,10) = 0 -> << OSolve(0) >>
    [] Rnd(s,<<8>>,10) = 1 -> << OInj(0,1,Rnd(s,<<9>>,6)), OSolve(0) >>
    [] Rnd(s,<<8>>,10) = 2 -> << OStg(0,"maxit",ToString(Rnd(s,<<9>>,6))), OSolve(0), OStg(0,"maxit","100") >>
    [] Rnd(s,<<8>>,10) \in {3,4} -> << OSolve(0), OInplace(0,R,0) >>
    [] Rnd(s,<<8>>,10) = 5 -> << OInplace(0,R,0) >>
    [] Rnd(s,<<8>>,10) = 6 -> << OSolve(0), OProb(1,R), OUpd(0,1) >>
    [] OTHER -> <<>>
FIter(s) == LET r == Base(s,<<1>>) P == Flat(r.D,IF Rnd(s,<<2>>,3) = 0 THEN s ELSE 0)
                Q == IF Rnd(s,<<3>>,2) = 0 THEN P ELSE Units(P,s,<<1,2,10,"0.1">>) IN
  Scen("iter",s,"any",[ops |-> Plain(0,0,Q,Before(s,Q),2)])
FFault(s) == LET r == Base(s,<<1>>) P == Flat(r.D,0)
                 Q == IF Rnd(s,<<3>>,2) = 0 THEN P ELSE Units(P,s,<<1,2,10,"0.1">>)
                 k == Pick(s,<<4>>,<<1,1,1,11,11,12,2,3,4,5,6,7,8,9,10,13,13,14,15>>)
                 at == IF k = 12 THEN 0 ELSE IF k > 12 THEN 1+Rnd(s,<<5>>,8) ELSE Rnd(s,<<5>>,9)
                 h == Pick(s,<<6>>,<<1,3,0,2,4>>) IN
  Scen("fault",s,"any",[ops |-> << OHandler(h), OProb(0,Q), OSetup(0,0), OVerbose(0,Rnd(s,<<9>>,2)) >> \o
     (IF Rnd(s,<<7>>,2) = 0 THEN << OTrace(0,1), OSolve(0) >> ELSE << OTrace(0,1) >>) \o
     (IF k = 15 THEN << OStg(0,"maxit",ToString(at+1)) >> ELSE <<>>) \o
     << OInj(0,k,at), OSolve(0), ODump(0) >> \o (IF h = 0 THEN <<>> ELSE << ORaise >>) \o
     << OSolve(0), OProb(1,Q), OSetup(1,1), OTrace(1,1), OSolve(1), OClean(0,0), ODump(0), OClean(1,0), ODump(1), OLedger >> ])

(* factorizations that fail: every small pivot becomes zero *)
FFatal(s) == LET r == Base(s,<<1>>) P == Flat(r.D,0)
                 Q == IF Rnd(s,<<3>>,2) = 0 THEN P ELSE Units(P,s,<<1,2,10,"0.1">>)
                 h == Pick(s,<<6>>,<<1,3,0,2,4>>)
                 v == Rnd(s,<<7>>,2)
                 ok(w) == << OStg(w,"delta","2e-7"), OStg(w,"eps","1e-13") >>
                 no(w) == << OStg(w,"delta","0"), OStg(w,"eps",Pick(s,<<4>>,<<"1","1e-2","1e-4","1e-6">>)) >>
  IN Scen("fatal",s,"any",[ops |-> << OHandler(h), OProb(0,Q), OSetup(0,0), OVerbose(0,v), OTrace(0,1) >> \o
     (IF Rnd(s,<<5>>,2) = 0 THEN << OSolve(0) >> ELSE <<>>) \o no(0) \o
     << OSolve(0), ODump(0) >> \o (IF h = 0 THEN <<>> ELSE << ORaise >>) \o
     (IF Rnd(s,<<8>>,2) = 0 THEN << OUpdc(0,0,Q.c[1]) >> ELSE <<>>) \o ok(0) \o << OSolve(0), ODump(0),
     OProb(1,Q), OSetup(1,1), OTrace(1,1), OSolve(1), OClean(0,0), ODump(0), OClean(1,0), ODump(1), OLedger >> ])

(* printed reports *)
FVerb(s) == LET r == Base(s,<<1>>) P == Flat(r.D,0)
                Q == IF Rnd(s,<<3>>,2) = 0 THEN P ELSE Units(P,s,Tens)
                k == Pick(s,<<4>>,<<0,0,0,0,0,1,11,12,13,14,7,2>>)
                v == 1+Rnd(s,<<5>>,2)
  IN Scen("verb",s,"any",[ops |-> << OProb(0,Q), OSetup(0,0), OVerbose(0,v), OTrace(0,1) >> \o Stgs(s,0) \o
       (IF k = 0 THEN <<>> ELSE << OInj(0,k,IF k = 12 THEN 0 ELSE 1+Rnd(s,<<7>>,8)) >>) \o
       << OSolve(0), OVerbose(0,0), OSolve(0), OVerbose(0,v) >> \o (IF Rnd(s,<<6>>,2) = 0 THEN << OStg(0,"maxit",ToString(Rnd(s,<<8>>,9))) >> ELSE <<>>) \o << OSolve(0), OClean(0,0), ODump(0), OLedger >>])

RECURSIVE Compose(_,_,_,_)
Compose(D,s,k,truth) == IF k = 0 THEN D ELSE Compose(Rewrite(D,RwNo(truth,1+Rnd(s,<<120,k>>,NRw)),s+k),s,k-1,truth)
FRw(s) == LET r == Base(s,<<1>>) P == Flat(r.D,0)
              two == Rewrite(r.D,RwNo(r.truth,1+(s % NRw)),s)
              three == Compose(r.D,s,3,r.truth)
              \* arrays of length zero instead of none
              anull(Q) == [Q EXCEPT !.anull = 0, !.gnull = 0]
              Qs == << P, anull(Flat(two,0)), Flat(three,s), Flat(r.D,s+5) >> IN
  Scen("rw",s,r.truth, ValOf(r) @@ [ops |-> FlattenSeq([i \in 1..Len(Qs) |->
       << OProb(i,Qs[i]), OSetup(0,i), OSolve(0), OClean(0,0), ODump(i) >>]) \o << OLedger >>])

(* ------------------------------------------------------------------- walks *)
Boxed(D,B) == [D EXCEPT !.lp = @ \o FlattenSeq([j \in 1..D.n |-> << Row(Unit(D.n,j,1),B), Row(Unit(D.n,j,-1),B) >>])]
Variant(P,s) == \* same structure, other numbers, still strictly feasible and bounded
  LET Q == Units(P,s,<<1,1,1,2,"0.5">>)
      up(i) == i <= P.l \/ (\E k \in 1..NSoc(P) : i = SocStart(P,k)+1) \/ (\E k \in 1..P.e : i = ExpStart(P,k)+2)
  IN [Q EXCEPT !.h = [i \in 1..P.m |-> IF up(i) THEN NAdd(@[i],Rnd(s,<<131,i>>,3)) ELSE @[i]],
               !.c = [j \in 1..P.n |-> RI(s,<<132,j>>,-4,4)]]
UpRow(P,i) == i <= P.l \/ (\E k \in 1..NSoc(P) : i = SocStart(P,k)+1) \/ (\E k \in 1..P.e : i = ExpStart(P,k)+2)

WalkOp(st,s,k,V,box) ==
  LET t(x) == <<140,k,x>>  w == Rnd(s,t(1),2)  b == Rnd(s,t(2),3)  z == Rnd(s,t(3),20)
      P == st.ws[w].P  open == Open(st,w)
      i == IF open /\ P.m > 0 THEN Rnd(s,t(4),P.m) ELSE 0  j == IF open THEN Rnd(s,t(5),P.n) ELSE 0
  IN CASE ~open -> IF st.ws[w].ph = "shut" /\ z < 10 THEN OFreeKept(w) ELSE OSetup(w,b)
       [] z < 4 /\ P.m = 0 -> OUpd(w,b)
       [] z < 4  -> OUpdh(w,i,IF UpRow(P,i+1) THEN (IF box /\ Rnd(s,t(6),6) = 0 /\ i >= P.l - 2*P.n /\ i < P.l THEN -5000 ELSE NAdd(P.h[i+1],Rnd(s,t(7),4))) ELSE P.h[i+1])
       [] z < 7  -> IF box THEN OUpdc(w,j,RI(s,t(8),-5,5)) ELSE OUpd(w,b)
       [] z < 10 -> OUpd(w,b)
       [] z < 12 -> OInplace(w,V[1+Rnd(s,t(9),Len(V))],IF Rnd(s,t(13),3) = 0 THEN Rnd(s,t(14),32) ELSE 0)
       [] z < 13 -> OClean(w,Rnd(s,t(10),5))
       [] z < 14 -> ODump(b)
       [] z < 15 -> OStg(w,"maxit",Pick(s,t(11),<<"100","100","3">>))
       [] z < 16 -> OInj(w,1,Rnd(s,t(12),6))
       [] OTHER  -> OSolve(w)
RECURSIVE WalkF(_,_,_,_,_,_,_)
WalkF(st,s,k,n,V,box,acc) == IF k > n THEN <<st,acc>> ELSE
  LET o == WalkOp(st,s,k,V,box)
      ok == Enabled(st,o) /\ (o.op = "setup" => st.buf[o.buf].use \in {"raw","back"})
  IN WalkF(IF ok THEN Step(st,o) ELSE st,s,k+1,n,V,box,IF ok THEN Append(acc,o) ELSE acc)
RECURSIVE Run(_,_)
Run(st,ops) == IF ops = <<>> THEN st ELSE Run(Step(st,Head(ops)),Tail(ops))
SmallOpt(s) == LET r == GenOpt(s) IN Boxed(r.D,10)
(* unbounded feasible sets: other units, looser rows and c in other units only,
   which keep the problem strictly feasible on both sides                      *)
Looser(P,s) ==
  LET Q == Units(P,s,<<1,1,"0.2",5,"0.05",20>>) k == RI(s,<<134>>,1,3)
  IN [Q EXCEPT !.h = [i \in 1..P.m |-> IF UpRow(P,i) THEN NAdd(@[i],Rnd(s,<<131,i>>,3)) ELSE @[i]],
               !.c = [j \in 1..P.n |-> NMul(k,@[j])]]
WalkOf(fam,s,P0,V,box) ==
  LET pre == << OProb(0,V[1]), OProb(1,V[2]), OProb(2,V[3]), OSetup(0,0) >>
      n == 8 + Rnd(s,<<3>>,18)
      st0 == Run(Init0(0..9,0..3),pre)
      r == WalkF(st0,s,1,n,V,box,<<>>)
      st == r[1]
      stgs(w,v) == IF st.ws[w].stg.maxit # "100" THEN << OStg(v,"maxit",st.ws[w].stg.maxit) >> ELSE <<>>
      tail(w) == IF Open(st,w)
                 THEN << OSolve(w), OProb(4+w,st.ws[w].P), OSetup(2+w,4+w) >> \o stgs(w,2+w) \o << OSolve(2+w), OClean(2+w,0), OClean(w,0) >>
                 ELSE IF st.ws[w].ph = "shut" THEN << OFreeKept(w) >> ELSE <<>>
      \* every solve is looked at
      seen(ops) == FlattenSeq([k \in 1..Len(ops) |-> IF ops[k].op = "setup" THEN << ops[k], OTrace(ops[k].w,1) >> ELSE << ops[k] >>])
  IN Scen(fam,s,"any",[ops |-> seen(pre \o r[2] \o tail(0) \o tail(1)) \o << ODump(0), ODump(1), ODump(2), OLedger >>])
FWalk(s) ==
  LET P0 == Flat(SmallOpt(s),IF Rnd(s,<<2>>,2) = 0 THEN s ELSE 0)
  IN WalkOf("walk",s,P0,<< Variant(P0,s+1), Variant(P0,s+2), Variant(P0,s+3), Variant(P0,s+4) >>,TRUE)
FWalk2(s) ==
  LET r == IF Rnd(s,<<6>>,3) = 0 THEN GenExact(s) ELSE GenOpt(s)
      P0 == Flat(r.D,IF Rnd(s,<<2>>,2) = 0 THEN s ELSE 0)
  IN WalkOf("walk2",s,P0,<< P0, Looser(P0,s+2), Looser(P0,s+3), Looser(P0,s+4) >>,FALSE)

(* two identical workspaces interleaved with disturbances *)
FIso(s) ==
  LET r == Base(s,<<1>>) P == Flat(r.D,0) r2 == Base(s+1,<<1>>) P2 == Flat(r2.D,0)
      D == SmallOpt(s) Q == Flat(D,0) Q1 == Variant(Q,s+1)
      pois == << 0, 165, 255, 90 >>
      R == IF Rnd(s,<<4>>,2) = 0 THEN P ELSE Q1
      j == Rnd(s,<<5>>,R.n)
      up(w) == IF R.m = 0 THEN OUpdc(w,j,1) ELSE OUpdh(w,0,R.h[1])
      seqA == << OSetup(0,0), OSolve(0), OUpdc(0,j,2), OSolve(0), up(0), OSolve(0) >>
      seqB == << OSetup(1,1), OVerbose(1,Rnd(s,<<7>>,2)), OSolve(1), OVerbose(1,Rnd(s,<<8>>,2)), OUpdc(1,j,2), OSolve(1), up(1), OSolve(1) >>
      dist == << OSetup(2,2), OStg(2,"feastol","1e-3"), OStg(2,"maxit","2"), OInj(2,1,1), OSolve(2), OClean(2,0) >>
      RECURSIVE Mix(_,_,_,_)
      Mix(a,b,d,k) == IF a = <<>> /\ b = <<>> /\ d = <<>> THEN <<>> ELSE
         LET z == Rnd(s,<<150,k>>,3) IN
         IF z = 0 /\ a # <<>> THEN <<OPoison(Pick(s,<<151,k>>,pois))>> \o <<Head(a)>> \o Mix(Tail(a),b,d,k+1)
         ELSE IF z = 1 /\ b # <<>> THEN <<OPoison(Pick(s,<<151,k>>,pois))>> \o <<Head(b)>> \o Mix(a,Tail(b),d,k+1)
         ELSE IF z = 2 /\ d # <<>> THEN <<Head(d)>> \o Mix(a,b,Tail(d),k+1)
         ELSE Mix(a,b,d,k+1)
  IN Scen("iso",s,"any",[ops |-> << OProb(0,R), OProb(1,R), OProb(2,P2) >> \o Mix(seqA,seqB,dist,1) \o << OClean(0,0), OClean(1,0), ODump(0), ODump(1), OLedger >>])

(* lifecycles: rejected setups, kept arrays, several workspaces *)
FLife(s) ==
  LET r == Base(s,<<1>>) P == Flat(r.D,0) k == Rnd(s,<<2>>,5) k2 == Rnd(s,<<3>>,5)
      solves == Rnd(s,<<4>>,3)
      inj == IF Rnd(s,<<5>>,3) = 0 THEN << OInj(0,Pick(s,<<6>>,<<1,2,5,4>>),Rnd(s,<<7>>,4)) >> ELSE <<>>
      mix == Rnd(s,<<8>>,3)
  IN Scen("life",s,"any",[ops |-> << OProb(0,P), OProb(1,P) >> \o
       (IF mix = 0 THEN << OBad(3,1,IF P.m = 0 THEN 1 ELSE P.m+1-2*Rnd(s,<<9>>,2),Rnd(s,<<10>>,2)), ODump(1), OLedger >> ELSE <<>>) \o
       << OSetup(0,0) >> \o inj \o [i \in 1..solves |-> OSolve(0)] \o << OClean(0,k), OLedger, OSetup(1,1), OSolve(1), OClean(1,k2), OLedger >> \o
       (IF k > 0 THEN << OFreeKept(0), OLedger >> ELSE <<>>) \o (IF k2 > 0 THEN << OFreeKept(1) >> ELSE <<>>) \o << ODump(0), ODump(1), OLedger >>])

(* ----------------------------------------------------------- mixed integer *)
(* pure integer programs (every variable boolean or boxed integer), optionally
   with one continuous variable t bounded below only                          *)
BBox2(n,j,lo,hi) == << Row(Unit(n,j,1),hi), Row(Unit(n,j,-1),-lo) >>
GenIPx(s,ex) ==
  LET nb == IF ex = "bool" THEN 1+Rnd(s,<<1>>,5) ELSE Rnd(s,<<1>>,4)  ni == IF ex = "bool" THEN 0 ELSE IF nb = 0 THEN 1+Rnd(s,<<2>>,2) ELSE Rnd(s,<<2>>,3)
      nz == nb+ni
      cont0 == Rnd(s,<<3>>,4)           \* 0,1 none; 2 max-epigraph; 3 norm-epigraph; 4 exponential epigraph
      cont == IF ex # "no" THEN Pick(s,<<50>>,<<0,2,3,4,4,4>>) ELSE cont0
      n == nz + (IF cont < 2 THEN 0 ELSE 1)
      perm == PermF(s,<<4>>,nz)         \* which columns are boolean, in which listing order
      bi == [k \in 1..nb |-> perm[k]-1]  ii == [k \in 1..ni |-> perm[nb+k]-1]
      isb(j) == \E k \in 1..nb : bi[k] = j-1
      lo(j) == RI(s,<<5,j>>,-3,0)  hi(j) == RI(s,<<6,j>>,1,3)
      z(v) == [j \in 1..n |-> IF j <= nz THEN v[j] ELSE 0]
      nrow == 1 + Rnd(s,<<7>>,3)
      row(i) == LET a == [j \in 1..nz |-> RI(s,<<8,i,j>>,-4,5)] IN Row(z(a),RI(s,<<9,i>>,-1,8))
      \* a second-order cone ||Mx - v|| <= r
      soc == IF Rnd(s,<<10>>,3) # 0 THEN <<>> ELSE
             << << Row(ZeroV(n),RI(s,<<11>>,1,4)) >> \o [i \in 1..1+Rnd(s,<<12>>,2) |-> Row(z([j \in 1..nz |-> RI(s,<<13,i,j>>,-2,2)]),RI(s,<<14,i>>,-2,2))] >>
      eq == IF Rnd(s,<<15>>,5) # 0 \/ nz < 2 THEN <<>> ELSE
            << Row(z([j \in 1..nz |-> RI(s,<<16,j>>,1,2)]),RI(s,<<17>>,0,4)) >>
      epi == IF cont = 2 THEN [i \in 1..2+Rnd(s,<<18>>,2) |-> Row([j \in 1..n |-> IF j = n THEN -1 ELSE RI(s,<<19,i,j>>,-3,3)],RI(s,<<20,i>>,-4,4))] ELSE <<>>
      nrm == IF cont = 3 THEN << << Row(Unit(n,n,-1),0) >> \o [i \in 1..2+Rnd(s,<<18>>,2) |-> Row([j \in 1..n |-> IF j = n THEN 0 ELSE RI(s,<<19,i,j>>,-2,2)],RI(s,<<20,i>>,-5,5))] >> ELSE <<>>
      c == [j \in 1..n |-> IF j > nz THEN 2 ELSE RI(s,<<21,j>>,-6,6)]
      \* exp(a'x + r) <= t, or <= a constant, with at most two variables in a'x
      few(t) == LET u == RI(s,Append(t,1),1,nz) v == RI(s,Append(t,2),1,nz) IN z([j \in 1..nz |-> IF j \in {u,v} THEN Pick(s,t \o <<3,j>>,<<-1,1>>) ELSE 0])
      eep == IF cont = 4 THEN [i \in 1..1+Rnd(s,<<51>>,2) |-> << Row(few(<<52,i>>),RI(s,<<53,i>>,-2,1)), Row(Unit(n,n,-1),0), Row(ZeroV(n),1) >>] ELSE <<>>
      con == IF ex # "no" /\ (cont < 4 \/ Rnd(s,<<54>>,2) = 0) THEN << << Row(few(<<55>>),RI(s,<<56>>,-2,1)), Row(ZeroV(n),RI(s,<<57>>,2,8)), Row(ZeroV(n),1) >> >> ELSE <<>>
      D == [n |-> n, c |-> c, eq |-> eq,
            lp |-> FlattenSeq([j \in 1..nz |-> IF isb(j) THEN <<>> ELSE BBox2(n,j,lo(j),hi(j))]) \o [i \in 1..nrow |-> row(i)] \o epi,
            soc |-> soc \o nrm, exp |-> con \o eep]
  IN [D |-> D, bi |-> bi, ii |-> ii]
GenIP(s) == GenIPx(s,"no")
ExIf(b) == IF b THEN "bool" ELSE "no"
FBB(s) == LET g == GenIP(s) P == Flat(g.D,0)
              st(k) == BBStg(400,"1e-6","1e-3","1e-4",k % 5,Pick(s,<<30>>,<<0,1,6>>),(k \div 5) % 3)
              k0 == Rnd(s,<<31>>,15)
  IN Scen("bb",s,"any",[ops |-> << OSrand(s), OProb(0,P), OBBSetup(0,0,g.bi,g.ii,NoStg), OTrace(0,1), OBBSolve(0), OBBIdx(0), OBBClean(0,0), ODump(0) >> \o
       FlattenSeq([q \in 1..2 |-> << OProb(q,P), OBBSetup(0,q,g.bi,g.ii,st(k0+7*q)), OTrace(0,1), OBBSolve(0), OBBClean(0,Rnd(s,<<32,q>>,5)) >> \o (IF Rnd(s,<<32,q>>,5) > 0 THEN << OFreeKept(0) >> ELSE <<>>) \o << ODump(q) >>]) \o << OLedger >>])
FBBL(s) == LET g == GenIP(s) P == Flat(g.D,0)
               st(k) == BBStg(1+Rnd(s,<<33,k>>,8),"1e-6","1e-3","1e-4",Rnd(s,<<34,k>>,5),Pick(s,<<30>>,<<0,1,6>>),Rnd(s,<<35,k>>,3))
  IN Scen("bblim",s,"any",[ops |-> << OSrand(s) >> \o
       FlattenSeq([q \in 1..3 |-> << OProb(q,P), OBBSetup(0,q,g.bi,g.ii,st(q)), OTrace(0,1), OBBSolve(0), OBBClean(0,0), ODump(q) >>]) \o << OLedger >>])
FBBW(s) ==
  LET g == GenIP(s) P == Flat(g.D,0)
      st == BBStg(400,"1e-6","1e-3","1e-4",Rnd(s,<<34>>,5),Pick(s,<<30>>,<<0,1,6>>),Rnd(s,<<35>>,3))
      \* only rows of the linear cone that are not variable bounds get other right hand sides
      upd(k) == LET z == Rnd(s,<<36,k>>,4) i == Rnd(s,<<37,k>>,P.l) j == Rnd(s,<<38,k>>,P.n) IN
                IF z < 2 THEN << OBBUpdh(0,i,RI(s,<<39,k>>,-1,9)) >>
                ELSE IF z = 2 /\ (j+1 < P.n \/ P.c[P.n] # 2) THEN << OBBUpdc(0,j,RI(s,<<40,k>>,-6,6)) >> ELSE << OBBSolve(0) >>
      n == 2 + Rnd(s,<<41>>,5)
  IN Scen("bbwalk",s,"any",[ops |-> << OSrand(s), OProb(0,P), OBBSetup(0,0,g.bi,g.ii,st), OTrace(0,1), OBBSolve(0) >> \o FlattenSeq([k \in 1..n |-> upd(k)]) \o
        << OBBSolve(0), OBBIdx(0), OBBClean(0,0), ODump(0), OLedger >>])

(* searches whose every step is looked at *)
GenMore(s) ==      \* more fractional variables: many booleans or wide boxes
  LET nb == Pick(s,<<1>>,<<0,0,3,4,5,6>>) ni == IF nb = 0 THEN 2+Rnd(s,<<2>>,3) ELSE Rnd(s,<<2>>,3)
      n == nb+ni  perm == PermF(s,<<4>>,n)
      bi == [k \in 1..nb |-> perm[k]-1]  ii == [k \in 1..ni |-> perm[nb+k]-1]
      isb(j) == \E k \in 1..nb : bi[k] = j-1
      row(i) == Row([j \in 1..n |-> RI(s,<<8,i,j>>,-2,7)],RI(s,<<9,i>>,3,17))
      soc == IF Rnd(s,<<10>>,2) = 0 THEN <<>> ELSE
             << << Row(ZeroV(n),RI(s,<<11>>,2,4)) >> \o [i \in 1..2 |-> Row([j \in 1..n |-> RI(s,<<13,i,j>>,-2,2)],RI(s,<<14,i>>,-2,2))] >>
      D == [n |-> n, c |-> [j \in 1..n |-> RI(s,<<21,j>>,-9,3)], eq |-> <<>>,
            lp |-> FlattenSeq([j \in 1..n |-> IF isb(j) THEN <<>> ELSE BBox2(n,j,RI(s,<<5,j>>,-4,0),RI(s,<<6,j>>,1,5))]) \o [i \in 1..2+Rnd(s,<<7>>,2) |-> row(i)],
            soc |-> soc, exp |-> <<>>]
  IN [D |-> D, bi |-> bi, ii |-> ii]
FBBS(s) == LET g == IF Rnd(s,<<60>>,3) = 0 THEN GenIPx(s,ExIf(Rnd(s,<<61>>,3) = 0)) ELSE GenMore(s)
               P == Flat(g.D,0)
               st(q) == BBStg(400,"1e-6","1e-3",Pick(s,<<62,q>>,<<"1e-4","1e-4","1e-3","1e-2">>),Rnd(s,<<63,q>>,5),Pick(s,<<64,q>>,<<0,1,1,2,6>>),Rnd(s,<<65,q>>,3))
               z == Rnd(s,<<66>>,3)
  IN Scen("bbs",s,"any",[ops |-> << OSrand(s) >> \o
       FlattenSeq([q \in 1..3 |-> << OProb(q,P), OBBSetup(0,q,g.bi,g.ii,IF q = 1 /\ z = 0 THEN NoStg ELSE st(q)), OTrace(0,2), OBBSolve(0) >>
         \o (IF z = 1 THEN << OBBUpdc(0,(g.ii \o g.bi)[1],RI(s,<<67,q>>,-5,5)) >> ELSE <<>>) \o << OBBSolve(0), OBBClean(0,0) >>]) \o << OLedger >>])
(* exponential cones; t that may grow without bound *)
FBBXOf(fam,s,ex) == LET g == GenIPx(s,ex)
               unb == g.D.n > Len(g.bi)+Len(g.ii) /\ Rnd(s,<<58>>,12) = 0
               P == Flat(IF unb THEN [g.D EXCEPT !.c[g.D.n] = -1] ELSE g.D,0)
               st(k) == BBStg(400,"1e-6","1e-3","1e-4",k % 5,Pick(s,<<30>>,<<0,1,6>>),(k \div 5) % 3)
               k0 == Rnd(s,<<31>>,15)
  IN Scen(fam,s,IF unb THEN "unb" ELSE "any",[ops |-> << OSrand(s), OProb(0,P), OBBSetup(0,0,g.bi,g.ii,NoStg), OTrace(0,1), OBBSolve(0), OBBIdx(0), OBBClean(0,0), ODump(0) >> \o
       << OProb(1,P), OBBSetup(0,1,g.bi,g.ii,st(k0)), OTrace(0,1), OBBSolve(0), OBBSolve(0), OBBClean(0,0), ODump(1), OLedger >>])
FBBX(s) == FBBXOf("bbx",s,"bool")
(* interrupted searches, then the same search again *)
FBBInt(s) == LET g == GenIPx(s,ExIf(Rnd(s,<<60>>,4) = 0)) P == Flat(g.D,0)
                 st == IF Rnd(s,<<61>>,3) = 0 THEN NoStg ELSE BBStg(400,"1e-6","1e-3","1e-4",Rnd(s,<<62>>,5),Pick(s,<<30>>,<<0,1,6>>),Rnd(s,<<63>>,3))
                 k == Pick(s,<<64>>,<<1,1,11,12>>)
                 at == IF k = 12 THEN Rnd(s,<<65>>,10) ELSE Rnd(s,<<65>>,IF Rnd(s,<<66>>,2) = 0 THEN 12 ELSE 60)
                 h == Pick(s,<<67>>,<<1,3,0,2,4>>)
                 keep == Rnd(s,<<68>>,5)
  IN Scen("bbint",s,"any",[ops |-> << OSrand(s), OHandler(h), OProb(0,P), OBBSetup(0,0,g.bi,g.ii,st), OTrace(0,1) >> \o
       (IF Rnd(s,<<69>>,2) = 0 THEN << OBBSolve(0) >> ELSE <<>>) \o << OInj(0,k,at), OBBSolve(0), ODump(0) >> \o
       (IF h = 0 THEN <<>> ELSE << ORaise >>) \o << OBBSolve(0), OBBIdx(0), OBBClean(0,keep), OLedger >> \o (IF keep > 0 THEN << OFreeKept(0) >> ELSE <<>>) \o << ODump(0), OLedger >>])
(* two identical searches, interleaved with a third one and with other memory contents *)
(* equally good variables: at most one (two) of each of some pairs (triples) *)
GenTie(s) == LET n == 6+Rnd(s,<<1>>,4)
                 row(i) == LET a == Rnd(s,<<2,i>>,n) b == (a+1+Rnd(s,<<3,i>>,n-1)) % n IN Row([j \in 1..n |-> IF j-1 \in {a,b} THEN 1 ELSE 0],1)
                 D == [n |-> n, c |-> [j \in 1..n |-> -10], eq |-> <<>>, lp |-> [i \in 1..(2*n) |-> row(i)], soc |-> <<>>, exp |-> <<>>]
             IN [D |-> D, bi |-> [k \in 1..n |-> k-1], ii |-> <<>>]
FBBIso(s) == LET tie == Rnd(s,<<80>>,3) = 0  g == IF tie THEN GenTie(s) ELSE GenIPx(s,ExIf(Rnd(s,<<60>>,5) = 0)) P == Flat(g.D,0) g2 == GenIP(s+1) P2 == Flat(g2.D,0)
                 st == IF Rnd(s,<<61>>,3) = 0 THEN NoStg ELSE BBStg(400,"1e-6","1e-3","1e-4",IF tie /\ Rnd(s,<<64>>,2) = 0 THEN 0 ELSE Rnd(s,<<62>>,5),Pick(s,<<30>>,<<0,1,6>>),Rnd(s,<<63>>,3))
                 pois == << 0, 165, 255, 90 >>
                 j == Rnd(s,<<5>>,Len(g.bi)+Len(g.ii))
                 seq(w,v) == << <<OBBSetup(w,w,g.bi,g.ii,st),OVerbose(w,v)>>, <<OSrand(s),OBBSolve(w)>>, <<OBBUpdc(w,j,2)>>, <<OSrand(s+1),OBBSolve(w)>> >>
                 dist == << <<OBBSetup(2,2,g2.bi,g2.ii,NoStg)>>, <<OInj(2,1,3)>>, <<OBBSolve(2)>>, <<OSrand(s+2)>>, <<OBBSolve(2)>>, <<OBBClean(2,0)>> >>
                 RECURSIVE Mix(_,_,_,_)
                 Mix(a,b,d,k) == IF a = <<>> /\ b = <<>> /\ d = <<>> THEN <<>> ELSE
                    LET z == Rnd(s,<<150,k>>,3) po == <<OPoison(Pick(s,<<151,k>>,pois))>> IN
                    IF z = 0 /\ a # <<>> THEN po \o Head(a) \o Mix(Tail(a),b,d,k+1)
                    ELSE IF z = 1 /\ b # <<>> THEN po \o Head(b) \o Mix(a,Tail(b),d,k+1)
                    ELSE IF z = 2 /\ d # <<>> THEN Head(d) \o Mix(a,b,Tail(d),k+1)
                    ELSE Mix(a,b,d,k+1)
  IN Scen("bbiso",s,"any",[ops |-> << OProb(0,P), OProb(1,P), OProb(2,P2) >> \o Mix(seq(0,0),seq(1,Rnd(s,<<7>>,2)),dist,1)
        \o << OBBClean(0,0), OBBClean(1,0), ODump(0), ODump(1), ODump(2), OLedger >>])

FBBVerb(s) == LET g == IF Rnd(s,<<60>>,2) = 0 THEN GenIPx(s,ExIf(Rnd(s,<<61>>,3) = 0)) ELSE GenMore(s)
                  P == Flat(g.D,0)
                  st == BBStg(Pick(s,<<66>>,<<400,400,6,2>>),"1e-6","1e-3","1e-4",Rnd(s,<<63>>,5),Pick(s,<<64>>,<<0,1,6>>),Rnd(s,<<65>>,3))
                  k == Pick(s,<<67>>,<<0,0,1,12>>)
  IN Scen("bbverb",s,"any",[ops |-> << OSrand(s), OProb(0,P), OBBSetup(0,0,g.bi,g.ii,st), OVerbose(0,1), OTrace(0,1), OBBSolve(0) >> \o
       (IF k = 0 THEN <<>> ELSE << OInj(0,k,Rnd(s,<<68>>,12)) >>) \o << OBBSolve(0), OVerbose(0,0), OBBSolve(0), OBBClean(0,0), OLedger >>])
(* costs in other units, gap tolerances of all sizes, accurate and coarse *)
FBBT(s) == LET g == IF Rnd(s,<<60>>,3) = 0 THEN GenIPx(s,ExIf(Rnd(s,<<61>>,3) = 0)) ELSE GenMore(s)
               unit == Pick(s,<<70>>,<<"1e-4","1e-3","0.01","0.037","0.37","1","10","1000">>)
               P == Flat([g.D EXCEPT !.c = [j \in 1..g.D.n |-> NMul(unit,@[j])]],0)
               st(q) == BBStg(400,Pick(s,<<71,q>>,<<"1e-9","1e-6","1e-6","1e-3","0.4","2">>),Pick(s,<<72,q>>,<<"1e-9","1e-6","1e-3","1e-3","0.05","0.4">>),"1e-4",Rnd(s,<<63,q>>,5),Pick(s,<<64,q>>,<<0,1,6>>),Rnd(s,<<65,q>>,3))
  IN Scen("bbt",s,"any",[ops |-> << OSrand(s) >> \o
       FlattenSeq([q \in 1..3 |-> << OProb(q,P), OBBSetup(0,q,g.bi,g.ii,IF q = 1 THEN NoStg ELSE st(q)), OTrace(0,1), OBBSolve(0), OBBClean(0,0) >>]) \o << OLedger >>])
(* settings changed between searches, in the caller's structure or in the defaults *)
FBBSet(s) == LET g == IF Rnd(s,<<60>>,3) = 0 THEN GenIPx(s,ExIf(Rnd(s,<<61>>,3) = 0)) ELSE GenMore(s)
                 P == Flat(g.D,0)
                 st(q) == BBStg(400,"1e-6","1e-3","1e-4",Rnd(s,<<63,q>>,5),Pick(s,<<64,q>>,<<0,1,6>>),Rnd(s,<<65,q>>,3))
                 stg(q) == IF Rnd(s,<<62,q>>,2) = 0 THEN NoStg ELSE st(q)
                 one(w,q) == CASE Rnd(s,<<66,q>>,8) = 0 -> OBBStg(w,"maxit",Pick(s,<<67,q>>,<<2,3,5,9,400>>))
                               [] Rnd(s,<<66,q>>,8) = 1 -> OBBStg(w,"abs",Pick(s,<<67,q>>,<<"1e-9","1e-3","0.4","3">>))
                               [] Rnd(s,<<66,q>>,8) = 2 -> OBBStg(w,"rel",Pick(s,<<67,q>>,<<"1e-9","1e-2","0.3">>))
                               [] Rnd(s,<<66,q>>,8) = 3 -> OBBStg(w,"itol",Pick(s,<<67,q>>,<<"1e-5","1e-3">>))
                               [] Rnd(s,<<66,q>>,8) = 4 -> OBBStg(w,"strat",Rnd(s,<<67,q>>,5))
                               [] Rnd(s,<<66,q>>,8) = 5 -> OBBStg(w,"eta",Pick(s,<<67,q>>,<<0,1,2,6>>))
                               [] Rnd(s,<<66,q>>,8) = 6 -> OBBStg(w,"nsel",Rnd(s,<<67,q>>,3))
                               [] OTHER -> OStg(w,Pick(s,<<67,q>>,<<"feastol","abstol","reltol">>),"1e-9")
                 chg(w,q) == [j \in 1..1+Rnd(s,<<68,q>>,3) |-> one(w,10*q+j)]
                 late == Rnd(s,<<69>>,3)
  IN Scen("bbset",s,"any",[ops |-> << OSrand(s), OProb(0,P), OProb(1,P), OBBSetup(0,0,g.bi,g.ii,stg(0)), OTrace(0,2) >>
       \o (IF late = 0 THEN <<>> ELSE << OBBSolve(0) >>) \o chg(0,1) \o << OBBSolve(0) >>
       \o (IF late = 1 THEN << OBBClean(0,0) >> ELSE <<>>)
       \o << OBBSetup(1,1,g.bi,g.ii,stg(1)), OTrace(1,2), OBBSolve(1) >> \o chg(1,2) \o << OBBSolve(1) >>
       \o (IF late = 1 THEN <<>> ELSE chg(0,3) \o << OBBSolve(0), OBBClean(0,0) >>)
       \o << OBBSolve(1), OBBClean(1,0), ODump(0), ODump(1), OLedger >>])
Fam(f,s) == CASE f = "well" -> FWell(s) [] f = "solve" -> FSolve(s) [] f = "cert" -> FCert(s) [] f = "lim" -> FLim(s)
              [] f = "iter" -> FIter(s) [] f = "fault" -> FFault(s) [] f = "rw" -> FRw(s) [] f = "walk" -> FWalk(s)
              [] f = "iso" -> FIso(s) [] f = "life" -> FLife(s) [] f = "bb" -> FBB(s) [] f = "bblim" -> FBBL(s) [] f = "bbwalk" -> FBBW(s)
              [] f = "walk2" -> FWalk2(s) [] f = "bbx" -> FBBX(s) [] f = "bbxi" -> FBBXOf("bbxi",s,"int") [] f = "bbint" -> FBBInt(s) [] f = "bbiso" -> FBBIso(s) [] f = "bbs" -> FBBS(s) [] f = "fatal" -> FFatal(s) [] f = "verb" -> FVerb(s) [] f = "bbset" -> FBBSet(s) [] f = "bbverb" -> FBBVerb(s) [] f = "bbt" -> FBBT(s)

AsInt(x) == LET RECURSIVE F(_)
                digit(ch) == CHOOSE d \in 0..9 : ToString(d) = ch
                F(k) == IF k = 0 THEN 0 ELSE 10*F(k-1) + digit(SubSeq(x,k,k)) IN F(Len(x))
Lo == AsInt(IOEnv.GEN_LO)  Hi == AsInt(IOEnv.GEN_HI)  F == IOEnv.GEN_FAM  S == AsInt(IOEnv.GEN_SEED)
FamNo(f) == CASE f = "well" -> 1 [] f = "solve" -> 2 [] f = "cert" -> 3 [] f = "lim" -> 4 [] f = "iter" -> 5 [] f = "fault" -> 6
              [] f = "rw" -> 7 [] f = "walk" -> 8 [] f = "iso" -> 9 [] f = "life" -> 10 [] f = "bb" -> 11 [] f = "bblim" -> 12 [] f = "bbwalk" -> 13
              [] f = "walk2" -> 14 [] f = "bbx" -> 15 [] f = "bbint" -> 16 [] f = "bbiso" -> 17 [] f = "bbxi" -> 18 [] f = "bbs" -> 19 [] f = "fatal" -> 20 [] f = "verb" -> 21 [] f = "bbverb" -> 22 [] f = "bbt" -> 23 [] f = "bbset" -> 24 [] OTHER -> 99
SeedOf(i) == Rnd(S,<<FamNo(F),i>>,100000000)
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, [i \in 1..(Hi-Lo) |-> [id |-> F \o "-" \o ToString(Lo+i-1)] @@ Fam(F,SeedOf(Lo+i-1))])
=============================================================================
