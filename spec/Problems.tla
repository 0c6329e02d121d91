----------------------------- MODULE Problems -----------------------------
(* Problem families with a truth known by construction, and rewritings that
   keep the meaning of a problem.

   A structured problem D is a record
     n, c, eq, lp, soc, exp     where a row is <<coefficients, rhs>>,
     eq, lp : sequences of rows;  soc, exp : sequences of sequences of rows
   meaning  minimise c'x : a'x = rhs (eq),  rhs - a'x in the cone (others).
   Flat(D,...) is the compressed-column form P of module Conic.              *)
EXTENDS Conic, SequencesExt

RI(s,t,lo,hi) == lo + Rnd(s,t,hi-lo+1)
Pick(s,t,S) == S[1+Rnd(s,t,Len(S))]

IDot(a,b) == LET RECURSIVE F(_)
                 F(k) == IF k = 0 THEN 0 ELSE F(k-1) + a[k]*b[k]
             IN F(Len(a))
ISum(v) == LET RECURSIVE F(_)
               F(k) == IF k = 0 THEN 0 ELSE F(k-1) + v[k]
           IN F(Len(v))
IAbs(a) == IF a < 0 THEN -a ELSE a
ZeroV(n) == [i \in 1..n |-> 0]
Unit(n,j,v) == [i \in 1..n |-> IF i = j THEN v ELSE 0]

(* ------------------------------------------------------------ flattening *)
RowsK(D) == D.lp \o FlattenSeq(D.soc) \o FlattenSeq(D.exp)

IsZero(v) == v = 0
(* compressed columns of a sequence of rows; zero entries are stored iff keep(i,j) *)
CSC(rows,n,keep(_,_)) ==
  LET col(j) == SelectSeq([i \in 1..Len(rows) |-> <<i-1, rows[i][1][j]>>],
                          LAMBDA e : ~IsZero(e[2]) \/ keep(e[1]+1,j))
      cols == [j \in 1..n |-> col(j)]
      all  == FlattenSeq(cols)
      RECURSIVE JC(_)
      JC(j) == IF j = 0 THEN 0 ELSE JC(j-1) + Len(cols[j])
  IN [jc |-> [j \in 1..n+1 |-> JC(j-1)], ir |-> [k \in 1..Len(all) |-> all[k][1]], pr |-> [k \in 1..Len(all) |-> all[k][2]]]

Flat(D,zs) ==      \* zs: 0 no explicit zeros, else the seed deciding which zeros are stored
  LET R == RowsK(D)
      g == CSC(R,D.n,LAMBDA i,j : zs # 0 /\ Rnd(zs,<<11,i,j>>,4) = 0)
      a == CSC(D.eq,D.n,LAMBDA i,j : zs # 0 /\ Rnd(zs,<<12,i,j>>,4) = 0)
      p == Len(D.eq)
  IN [n |-> D.n, m |-> Len(R), p |-> p, l |-> Len(D.lp), q |-> [i \in 1..Len(D.soc) |-> Len(D.soc[i])], e |-> Len(D.exp),
      Gjc |-> g.jc, Gir |-> g.ir, Gpr |-> g.pr,
      Ajc |-> a.jc, Air |-> a.ir, Apr |-> a.pr,
      c |-> D.c, h |-> [i \in 1..Len(R) |-> R[i][2]], b |-> [i \in 1..p |-> D.eq[i][2]],
      anull |-> IF p = 0 THEN 1 ELSE 0, gnull |-> IF Len(R) = 0 THEN 1 ELSE 0]

(* ------------------------------------------------- random shape and data *)
Shapes == << \* <<n, p, l, q, e>>
  <<1,0,2,<<>>,0>>, <<2,0,3,<<>>,0>>, <<3,1,4,<<>>,0>>, <<4,2,6,<<>>,0>>, <<5,1,7,<<>>,0>>,
  <<2,0,0,<<3>>,0>>, <<3,0,0,<<3,2>>,0>>, <<3,1,0,<<4>>,0>>, <<4,1,2,<<3,3>>,0>>, <<3,0,2,<<1,3>>,0>>, <<5,2,3,<<2,4,1>>,0>>,
  <<3,0,0,<<4,4>>,0>>, <<4,0,4,<<5>>,0>>, <<6,2,4,<<3,3,3>>,0>>,
  <<2,0,0,<<>>,1>>, <<3,0,0,<<>>,2>>, <<3,1,2,<<>>,1>>, <<4,1,0,<<>>,2>>, <<4,0,3,<<>>,2>>,
  <<3,0,0,<<3>>,1>>, <<4,1,2,<<3>>,1>>, <<5,1,3,<<2,3>>,2>>, <<4,0,1,<<1,4>>,1>>, <<6,2,2,<<3,4>>,2>>, <<2,1,1,<<>>,0>>, <<1,0,1,<<2>>,1>>,
  <<8,2,10,<<>>,0>>, <<8,3,6,<<4,3>>,0>>, <<7,1,5,<<3>>,3>>, <<10,4,12,<<5,3,2>>,1>> >>
(* larger ones, and problems without any cone (only GenOpt) *)
ShapesL == << <<20,5,30,<<6,5,4,3>>,3>>, <<30,8,60,<<>>,0>>, <<12,2,4,<<12>>,0>>, <<10,1,2,<<2,2,2,2,2,2,2,2>>,0>>, <<12,3,5,<<>>,6>>,
              <<6,6,4,<<3>>,0>>, <<16,0,8,<<9,7,1,1>>,2>>, <<25,12,40,<<4,4>>,0>> >>
Shapes0 == << <<3,2,0,<<>>,0>>, <<4,1,0,<<>>,0>>, <<2,2,0,<<>>,0>>, <<6,4,0,<<>>,0>> >>
(* sparse and large; and shapes of any mixture *)
ShapesXL == << <<60,10,90,<<20,10,5>>,5>>, <<50,0,0,<<30,31>>,0>>, <<40,5,10,<<>>,20>>, <<45,15,100,<<3,3,3,3,3,3,3,3,3,3>>,0>>, <<35,3,0,<<2,40,1>>,2>> >>
ShapeR(s) ==
  LET e == Pick(s,<<1,2>>,<<0,0,0,1,1,2,3,4>>)
      q == [k \in 1..Pick(s,<<1,3>>,<<0,0,1,1,2,3,5>>) |-> Pick(s,<<1,4,k>>,<<1,2,2,3,3,4,5,6,8>>)]
      l == Pick(s,<<1,5>>,<<0,0,1,2,3,4,6,9>>)  m == 3*e + ISum(q) + l
      n == RI(s,<<1,6>>,1,IF m < 2 THEN 2 ELSE IF m < 10 THEN m ELSE 10)
  IN << n, RI(s,<<1,7>>,0,IF n = 1 THEN 0 ELSE IF n > 4 THEN 3 ELSE n \div 2), IF m = 0 THEN 2 ELSE l, q, e >>
Shape(s,any) == LET z == Rnd(s,<<1,1>>,30) IN
  IF any /\ z = 0 THEN Pick(s,<<1>>,Shapes0) ELSE IF z \in {1,2} THEN Pick(s,<<1>>,IF Rnd(s,<<1,8>>,5) = 0 THEN ShapesXL ELSE ShapesL)
  ELSE IF z > 15 THEN ShapeR(s) ELSE Pick(s,<<1>>,Shapes)
Dens(s,n) == IF n > 30 THEN 12 ELSE Pick(s,<<2>>,<<35,60,100>>)

Coef(s,t,dens) == IF Rnd(s,t,100) < dens THEN RI(s,Append(t,1),-3,3) ELSE 0
RowD(s,t,n,dens) == [j \in 1..n |-> Coef(s,t \o <<j>>,dens)]

ExpInt  == << <<0,2,1>>, <<-1,1,1>>, <<-2,1,2>>, <<1,4,1>>, <<0,3,2>> >>
ExpDInt == << <<-1,1,0>>, <<-1,3,0>>, <<-2,2,-1>>, <<-1,1,1>>, <<-2,1,0>> >>

(* an interior point of the cone (dual = FALSE) or of its dual, one block per cone *)
SocInt(s,t,q) == LET tail == [i \in 1..q-1 |-> RI(s,t \o <<i>>,-2,2)]
                 IN <<ISum([i \in 1..q-1 |-> IAbs(tail[i])]) + RI(s,t \o <<9>>,1,3)>> \o tail
LpInt(s,t,l) == [i \in 1..l |-> RI(s,t \o <<1,i>>,1,4)]
SocsInt(s,t,q) == [k \in 1..Len(q) |-> SocInt(s,t \o <<2,k>>,q[k])]
ExpsInt(s,t,e,dual) == [k \in 1..e |-> Pick(s,t \o <<3,k>>, IF dual THEN ExpDInt ELSE ExpInt)]

EqRow(s,i,n,p,dens) == \* full row rank: column i is the pivot of row i
  [j \in 1..n |-> IF j = i THEN 1 + Rnd(s,<<21,i>>,2) ELSE IF j <= p THEN 0 ELSE Coef(s,<<22,i,j>>,dens)]

(* rows of G, cone by cone *)
RawLp(s,n,l,dens) == [i \in 1..l |-> RowD(s,<<31,i>>,n,dens)]
RawSoc(s,n,q,dens) == [k \in 1..Len(q) |-> [i \in 1..q[k] |-> RowD(s,<<32,k,i>>,n,dens)]]
RawExp(s,n,e,dens) == [k \in 1..e |-> [i \in 1..3 |-> RowD(s,<<33,k,i>>,n,dens)]]

FlatRows(lp,soc,exp) == lp \o FlattenSeq(soc) \o FlattenSeq(exp)
FlatVec(lp,soc,exp) == lp \o FlattenSeq(soc) \o FlattenSeq(exp)

Mk(n,c,eqA,b,lpG,socG,expG,hl,hs,he) ==
  [ n |-> n, c |-> c, eq |-> [i \in 1..Len(eqA) |-> <<eqA[i],b[i]>>],
    lp |-> [i \in 1..Len(lpG) |-> <<lpG[i],hl[i]>>],
    soc |-> [k \in 1..Len(socG) |-> [i \in 1..Len(socG[k]) |-> <<socG[k][i],hs[k][i]>>]],
    exp |-> [k \in 1..Len(expG) |-> [i \in 1..3 |-> <<expG[k][i],he[k][i]>>]] ]

MulT(rows,w,n) == [j \in 1..n |-> ISum([i \in 1..Len(rows) |-> rows[i][j]*w[i]])]

(* strictly feasible primal and dual: an optimum exists and is attained *)
GenOpt(s) ==
  LET sh == Shape(s,TRUE)  n == sh[1] p == sh[2] l == sh[3] q == sh[4] e == sh[5]
      dens == Dens(s,n)
      eqA == [i \in 1..p |-> EqRow(s,i,n,p,dens)]
      lpG == RawLp(s,n,l,dens)  soG == RawSoc(s,n,q,dens)  exG == RawExp(s,n,e,dens)
      x0 == [j \in 1..n |-> RI(s,<<41,j>>,-2,2)]
      sl == LpInt(s,<<42>>,l) ss == SocsInt(s,<<42>>,q) se == ExpsInt(s,<<42>>,e,FALSE)
      zl == LpInt(s,<<43>>,l) zs == SocsInt(s,<<43>>,q) ze == ExpsInt(s,<<43>>,e,TRUE)
      y0 == [i \in 1..p |-> RI(s,<<44,i>>,-2,2)]
      rows == FlatRows(lpG,soG,exG)
      dl == MulT(rows,FlatVec(zl,zs,ze),n)
      da == MulT(eqA,y0,n)
      D == Mk(n,[j \in 1..n |-> -(dl[j]+da[j])],eqA,[i \in 1..p |-> IDot(eqA[i],x0)],lpG,soG,exG,
              [i \in 1..l |-> IDot(lpG[i],x0)+sl[i]],
              [k \in 1..Len(q) |-> [i \in 1..q[k] |-> IDot(soG[k][i],x0)+ss[k][i]]],
              [k \in 1..e |-> [i \in 1..3 |-> IDot(exG[k][i],x0)+se[k][i]]])
      z == FlatVec(zl,zs,ze)  h == FlatVec([i \in 1..l |-> D.lp[i][2]],[k \in 1..Len(q) |-> [i \in 1..q[k] |-> D.soc[k][i][2]]],[k \in 1..e |-> [i \in 1..3 |-> D.exp[k][i][2]]])
      b == [i \in 1..p |-> D.eq[i][2]]
  IN [D |-> D, truth |-> "opt", ub |-> IDot(D.c,x0), lb |-> -IDot(b,y0)-IDot(h,z)]

(* strict certificate of primal infeasibility, dual feasible *)
GenPinf(s) ==
  LET sh == Shape(s,FALSE)  n == sh[1] p == sh[2] l == sh[3] q == sh[4] e == sh[5]
      dens == Dens(s,n)
      eqA == [i \in 1..p |-> EqRow(s,i,n,p,dens)]
      zl0 == LpInt(s,<<43>>,l) zs0 == SocsInt(s,<<43>>,q) ze0 == ExpsInt(s,<<43>>,e,TRUE)
      \* the row that closes A'y + G'z = 0 gets multiplier 1
      kind == IF l > 0 THEN 1 ELSE IF Len(q) > 0 THEN 2 ELSE 3
      zl == IF kind = 1 THEN [zl0 EXCEPT ![1] = 1] ELSE zl0
      zs == IF kind = 2 THEN [zs0 EXCEPT ![1] = Unit(q[1],1,1)] ELSE zs0
      ze == IF kind = 3 THEN [ze0 EXCEPT ![1] = <<-1,1,0>>] ELSE ze0
      z == FlatVec(zl,zs,ze)
      r == IF kind = 3 THEN 2 ELSE 1
      rows0 == FlatRows(RawLp(s,n,l,dens),RawSoc(s,n,q,dens),RawExp(s,n,e,dens))
      y0 == [i \in 1..p |-> RI(s,<<44,i>>,-2,2)]
      rowsz == [rows0 EXCEPT ![r] = ZeroV(n)]
      dl == MulT(rowsz,z,n)  da == MulT(eqA,y0,n)
      rows == [rows0 EXCEPT ![r] = [j \in 1..n |-> -(dl[j]+da[j])]]
      m == Len(rows)
      b == [i \in 1..p |-> RI(s,<<45,i>>,-3,3)]
      h0 == [i \in 1..m |-> IF i = r THEN 0 ELSE RI(s,<<46,i>>,-3,3)]
      h == [h0 EXCEPT ![r] = -(IDot(h0,z)+IDot(b,y0)) - RI(s,<<47>>,1,3)]
      z1 == FlatVec(LpInt(s,<<48>>,l),SocsInt(s,<<48>>,q),ExpsInt(s,<<48>>,e,TRUE))
      y1 == [i \in 1..p |-> RI(s,<<49,i>>,-2,2)]
      cl == MulT(rows,z1,n) ca == MulT(eqA,y1,n)
      off(k) == l + ISum([i \in 1..k-1 |-> q[i]])
      oe == l + ISum(q)
  IN [D |-> Mk(n,[j \in 1..n |-> -(cl[j]+ca[j])],eqA,b,
               [i \in 1..l |-> rows[i]],[k \in 1..Len(q) |-> [i \in 1..q[k] |-> rows[off(k)+i]]],[k \in 1..e |-> [i \in 1..3 |-> rows[oe+3*(k-1)+i]]],
               [i \in 1..l |-> h[i]],[k \in 1..Len(q) |-> [i \in 1..q[k] |-> h[off(k)+i]]],[k \in 1..e |-> [i \in 1..3 |-> h[oe+3*(k-1)+i]]]),
      truth |-> "pinf"]

(* strict improving ray, primal feasible *)
GenDinf(s) ==
  LET sh == Shape(s,FALSE)  n == sh[1] p == IF sh[2] >= n THEN n-1 ELSE sh[2] l == sh[3] q == sh[4] e == sh[5]
      dens == Dens(s,n)
      x0 == [j \in 1..n |-> IF j = n THEN 1 ELSE RI(s,<<41,j>>,-2,2)]
      eq0 == [i \in 1..p |-> EqRow(s,i,n,p,dens)]
      fix(row,t) == [row EXCEPT ![n] = t - IDot([row EXCEPT ![n] = 0],x0)]   \* row'x0 = t
      eqA == [i \in 1..p |-> fix(eq0[i],0)]
      sl == LpInt(s,<<42>>,l) ss == SocsInt(s,<<42>>,q) se == ExpsInt(s,<<42>>,e,FALSE)
      lp0 == RawLp(s,n,l,dens)  so0 == RawSoc(s,n,q,dens)  ex0 == RawExp(s,n,e,dens)
      lpG == [i \in 1..l |-> fix(lp0[i],-sl[i])]
      soG == [k \in 1..Len(q) |-> [i \in 1..q[k] |-> fix(so0[k][i],-ss[k][i])]]
      exG == [k \in 1..e |-> [i \in 1..3 |-> fix(ex0[k][i],-se[k][i])]]
      c0 == [j \in 1..n |-> RI(s,<<51,j>>,-3,3)]
      c == fix(c0,-RI(s,<<52>>,1,3))
      x1 == [j \in 1..n |-> RI(s,<<53,j>>,-2,2)]
      tl == LpInt(s,<<54>>,l) ts == SocsInt(s,<<54>>,q) te == ExpsInt(s,<<54>>,e,FALSE)
  IN [D |-> Mk(n,c,eqA,[i \in 1..p |-> IDot(eqA[i],x1)],lpG,soG,exG,
               [i \in 1..l |-> IDot(lpG[i],x1)+tl[i]],
               [k \in 1..Len(q) |-> [i \in 1..q[k] |-> IDot(soG[k][i],x1)+ts[k][i]]],
               [k \in 1..e |-> [i \in 1..3 |-> IDot(exG[k][i],x1)+te[k][i]]]),
      truth |-> "dinf"]

(* --------------------------------------------- blocks with exact optimum *)
(* each yields <<D, optimal value>> *)
Row(v,r) == <<v,r>>
E0(n) == [n |-> n, c |-> ZeroV(n), eq |-> <<>>, lp |-> <<>>, soc |-> <<>>, exp |-> <<>>]

BBox(a,b) ==      \* min a x : -1 <= x <= b
  << [E0(1) EXCEPT !.c = <<a>>, !.lp = << Row(<<-1>>,1), Row(<<1>>,b) >>],
     IF a > 0 THEN -a ELSE a*b >>
BSimplex(w) ==    \* min w'x : x >= 0, sum x = 1
  LET n == Len(w) IN
  << [E0(n) EXCEPT !.c = w, !.eq = << Row([j \in 1..n |-> 1],1) >>, !.lp = [j \in 1..n |-> Row(Unit(n,j,-1),0)]],
     LET RECURSIVE F(_)
         F(k) == IF k = 1 THEN w[1] ELSE IF w[k] < F(k-1) THEN w[k] ELSE F(k-1) IN F(n) >>
BBall(w,r) ==     \* min w'x : |x| <= r
  LET n == Len(w) IN
  << [E0(n) EXCEPT !.c = w, !.soc = << << Row(ZeroV(n),r) >> \o [j \in 1..n |-> Row(Unit(n,j,-1),0)] >>],
     NNeg(NMul(r,NNorm(w))) >>
BDist(a,d,beta) == \* min t : |x-a| <= t, d'x = beta
  LET k == Len(a) n == k+1 IN
  << [E0(n) EXCEPT !.c = Unit(n,n,1), !.eq = << Row([j \in 1..n |-> IF j = n THEN 0 ELSE d[j]],beta) >>,
        !.soc = << << Row(Unit(n,n,-1),0) >> \o [j \in 1..k |-> Row(Unit(n,j,-1),-a[j])] >>],
     NDiv(NAbs(IDot(a,d)-beta),NNorm(d)) >>
BGeo(a) ==        \* max t : t^2 <= xy, x+y <= 2a
  << [E0(3) EXCEPT !.c = <<0,0,-1>>, !.lp = << Row(<<1,1,0>>,2*a) >>,
        !.soc = << << Row(<<-1,-1,0>>,0), Row(<<-1,1,0>>,0), Row(<<0,0,-2>>,0) >> >>], -a >>
BLse(a) ==        \* min t : sum exp(a_i - t) <= 1
  LET k == Len(a) n == k+1
      RECURSIVE F(_)
      F(i) == IF i = 0 THEN 0 ELSE NAdd(F(i-1),NExp(a[i])) IN
  << [E0(n) EXCEPT !.c = Unit(n,1,1), !.lp = << Row([j \in 1..n |-> IF j = 1 THEN 0 ELSE 1],1) >>,
        !.exp = [i \in 1..k |-> << Row(Unit(n,1,1),a[i]), Row(Unit(n,i+1,-1),0), Row(ZeroV(n),1) >>]],
     NLog(F(k)) >>
BEnt(w) ==        \* max sum(w_i x_i - x_i log x_i) : sum x = 1
  LET k == Len(w) n == 2*k
      RECURSIVE F(_)
      F(i) == IF i = 0 THEN 0 ELSE NAdd(F(i-1),NExp(w[i])) IN
  << [E0(n) EXCEPT !.c = [j \in 1..n |-> IF j <= k THEN -w[j] ELSE -1],
        !.eq = << Row([j \in 1..n |-> IF j <= k THEN 1 ELSE 0],1) >>,
        !.exp = [i \in 1..k |-> << Row(Unit(n,k+i,-1),0), Row(ZeroV(n),1), Row(Unit(n,i,-1),0) >>]],
     NNeg(NLog(F(k))) >>
BExp(a) ==        \* min u : u >= exp(x), x >= a
  << [E0(2) EXCEPT !.c = <<0,1>>, !.lp = << Row(<<-1,0>>,-a) >>,
        !.exp = << << Row(<<-1,0>>,0), Row(<<0,-1>>,0), Row(ZeroV(2),1) >> >>], NExp(a) >>
BLog(a) ==        \* max t : t <= log x, x <= a
  << [E0(2) EXCEPT !.c = <<0,-1>>, !.lp = << Row(<<1,0>>,a) >>,
        !.exp = << << Row(<<0,-1>>,0), Row(<<-1,0>>,0), Row(ZeroV(2),1) >> >>], NNeg(NLog(a)) >>

Block(s,t) ==
  LET k == Rnd(s,t \o <<1>>,9)
      v(len,lo,hi) == [i \in 1..len |-> RI(s,t \o <<2,i>>,lo,hi)]
      nz(len) == [i \in 1..len |-> Pick(s,t \o <<3,i>>,<<-3,-2,-1,1,2,3>>)]
      len == RI(s,t \o <<4>>,2,4)
  IN CASE k = 0 -> BBox(Pick(s,t \o <<3>>,<<-2,-1,1,3>>),RI(s,t \o <<5>>,1,4))
       [] k = 1 -> BSimplex(v(len,-3,3))
       [] k = 2 -> BBall(nz(len),RI(s,t \o <<5>>,1,3))
       [] k = 3 -> BDist(v(len-1,-2,2),nz(len-1),RI(s,t \o <<5>>,3,9))
       [] k = 4 -> BGeo(RI(s,t \o <<5>>,1,4))
       [] k = 5 -> BLse(v(len-1,-2,2))
       [] k = 6 -> BEnt(v(len-1,-1,1))
       [] k = 7 -> BExp(RI(s,t \o <<5>>,-2,2))
       [] k = 8 -> BLog(RI(s,t \o <<5>>,1,6))

PadL(v,k) == ZeroV(k) \o v
PadR(v,k) == v \o ZeroV(k)
MapRows(rows,f(_)) == [i \in 1..Len(rows) |-> <<f(rows[i][1]),rows[i][2]>>]
MapD(D,n,f(_)) == [ n |-> n, c |-> f(D.c), eq |-> MapRows(D.eq,f), lp |-> MapRows(D.lp,f),
                    soc |-> [k \in 1..Len(D.soc) |-> MapRows(D.soc[k],f)],
                    exp |-> [k \in 1..Len(D.exp) |-> MapRows(D.exp[k],f)] ]
Join(D1,D2) ==    \* independent variables, objectives added
  LET n == D1.n + D2.n
      a == MapD(D1,n,LAMBDA v : PadR(v,D2.n))
      b == MapD(D2,n,LAMBDA v : PadL(v,D1.n))
  IN [n |-> n, c |-> [j \in 1..n |-> IF j <= D1.n THEN D1.c[j] ELSE D2.c[j-D1.n]],
      eq |-> a.eq \o b.eq, lp |-> a.lp \o b.lp, soc |-> a.soc \o b.soc, exp |-> a.exp \o b.exp]

GenExact(s) ==
  LET k == RI(s,<<71>>,1,3)
      RECURSIVE F(_)
      F(i) == IF i = 1 THEN Block(s,<<72,1>>)
              ELSE LET r == F(i-1) b == Block(s,<<72,i>>) IN << Join(r[1],b[1]), NAdd(r[2],b[2]) >>
      r == F(k)
  IN [D |-> r[1], truth |-> "exact", val |-> r[2]]

(* ------------------------------------------------------------ rewritings *)
RECURSIVE PermF(_,_,_)
PermF(s,t,k) == \* a permutation of 1..k (insertion)
  IF k = 0 THEN <<>> ELSE LET q == PermF(s,t,k-1) IN InsertAt(q,1+Rnd(s,t \o <<k>>,k),k)
PermSeq(v,pi) == [i \in 1..Len(v) |-> v[pi[i]]]

NMulI(k,v) == k*v       \* data of the families are integers
NAddI(v,k) == v+k
NScaleRow(k,row) == << [j \in 1..Len(row[1]) |-> NMulI(k,row[1][j])], NMulI(k,row[2]) >>

RwCols(D,s)  == LET pi == PermF(s,<<81>>,D.n) IN MapD(D,D.n,LAMBDA v : PermSeq(v,pi))
RwLp(D,s)    == [D EXCEPT !.lp = PermSeq(@,PermF(s,<<82>>,Len(D.lp)))]
RwEq(D,s)    == [D EXCEPT !.eq = PermSeq(@,PermF(s,<<83>>,Len(D.eq)))]
RwSocs(D,s)  == [D EXCEPT !.soc = PermSeq(@,PermF(s,<<84>>,Len(D.soc)))]
RwExps(D,s)  == [D EXCEPT !.exp = PermSeq(@,PermF(s,<<85>>,Len(D.exp)))]
RwTails(D,s) == [D EXCEPT !.soc = [k \in 1..Len(@) |-> <<@[k][1]>> \o PermSeq(Tail(@[k]),PermF(s,<<86,k>>,Len(@[k])-1))]]
RwScaleLp(D,s) == [D EXCEPT !.lp = [i \in 1..Len(@) |-> NScaleRow(Pick(s,<<87,i>>,<<1,2,5,20>>),@[i])]]
RwScaleEq(D,s) == [D EXCEPT !.eq = [i \in 1..Len(@) |-> NScaleRow(Pick(s,<<88,i>>,<<1,-1,3,10>>),@[i])]]
RwScaleCone(D,s) == [D EXCEPT !.soc = [k \in 1..Len(@) |-> LET f == Pick(s,<<89,k>>,<<1,2,6>>) IN [i \in 1..Len(@[k]) |-> NScaleRow(f,@[k][i])]],
                              !.exp = [k \in 1..Len(@) |-> LET f == Pick(s,<<90,k>>,<<1,2,3>>) IN [i \in 1..3 |-> NScaleRow(f,@[k][i])]]]
RwEq2Lp(D,s) == IF Len(D.eq) = 0 THEN D ELSE
  LET r == Head(D.eq) IN [D EXCEPT !.eq = Tail(@), !.lp = @ \o << r, NScaleRow(-1,r) >>]
RwDup(D,s)   == IF Len(D.lp) = 0 THEN D ELSE
  LET r == Pick(s,<<91>>,D.lp) IN [D EXCEPT !.lp = Append(@,<<r[1],NAddI(r[2],1)>>)]
RwLp2Soc(D,s) == IF Len(D.lp) = 0 THEN D ELSE
  LET r == Head(D.lp) IN [D EXCEPT !.lp = Tail(@), !.soc = << <<r>> >> \o @]
RwUnused(D,s) == LET n == D.n+1 E == MapD(D,n,LAMBDA v : Append(v,0))
                 IN [E EXCEPT !.lp = @ \o << Row(Unit(n,n,1),1), Row(Unit(n,n,-1),1) >>]
(* rows and columns without entries, a slack variable, the objective as a row *)
RwEmptyEq(D,s) == [D EXCEPT !.eq = InsertAt(@,1+Rnd(s,<<92>>,Len(@)+1),Row(ZeroV(D.n),0))]
RwEmptyLp(D,s) == [D EXCEPT !.lp = InsertAt(@,1+Rnd(s,<<93>>,Len(@)+1),Row(ZeroV(D.n),RI(s,<<94>>,1,5)))]
RwFree(D,s)  == IF Rnd(s,<<95>>,2) = 0 THEN MapD(D,D.n+1,LAMBDA v : Append(v,0)) ELSE MapD(D,D.n+1,LAMBDA v : <<0>> \o v)
RwSlack(D,s) == IF Len(D.lp) = 0 THEN D ELSE
  LET k == 1+Rnd(s,<<96>>,Len(D.lp)) n == D.n+1 E == MapD(D,n,LAMBDA v : Append(v,0)) r == E.lp[k]
  IN [E EXCEPT !.eq = Append(@,<<[r[1] EXCEPT ![n] = 1],r[2]>>), !.lp[k] = Row(Unit(n,n,-1),0)]
RwEpi(D,s)   == LET n == D.n+1 E == MapD(D,n,LAMBDA v : Append(v,0))
                IN [E EXCEPT !.c = Unit(n,n,1), !.lp = <<Row([E.c EXCEPT ![n] = -1],0)>> \o @]
NRw == 19
Rewrite(D,k,s) ==
  CASE k = 1 -> RwCols(D,s) [] k = 2 -> RwLp(D,s) [] k = 3 -> RwEq(D,s) [] k = 4 -> RwSocs(D,s)
    [] k = 5 -> RwExps(D,s) [] k = 6 -> RwTails(D,s) [] k = 7 -> RwScaleLp(D,s) [] k = 8 -> RwScaleEq(D,s)
    [] k = 9 -> RwScaleCone(D,s) [] k = 10 -> RwEq2Lp(D,s) [] k = 11 -> RwDup(D,s) [] k = 12 -> RwLp2Soc(D,s)
    [] k = 13 -> RwUnused(D,s) [] k = 14 -> RwEmptyEq(D,s) [] k = 15 -> RwEmptyLp(D,s) [] k = 16 -> RwFree(D,s)
    [] k = 17 -> RwSlack(D,s) [] k = 18 -> RwEpi(D,s) [] OTHER -> D
=============================================================================
