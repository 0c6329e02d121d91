-------------------------------- MODULE BB --------------------------------
(* Branch and bound over integer boxes.

   Best is the reference semantics: a sequence of <<point, value>>, one entry for
   each feasible choice of the integer variables with the best objective value
   obtainable for it. A node is a record [st, lo, hi, L]: status, box, bound.

   Search state: [nodes, U, inc, iter]: the node table, the value of the
   incumbent ("inf": none), the incumbent's integer point, branchings done.    *)
EXTENDS Num, FiniteSets

NotSolved == 1  Branchable == 2  Closed == 3

InBox(p,nd) == \A i \in 1..Len(p) : nd.lo[i] <= p[i] /\ p[i] <= nd.hi[i]
Opened(nd) == nd.st \in {NotSolved,Branchable}

(* every feasible point better than the incumbent is in an open node *)
Lost(Best,st,tol) == { k \in 1..Len(Best) : /\ NLt(Best[k][2], NSub(st.U,tol))
                                            /\ ~ \E i \in 1..Len(st.nodes) : Opened(st.nodes[i]) /\ InBox(Best[k][1],st.nodes[i]) }
Covered(Best,st,tol) == Lost(Best,st,tol) = {}

(* the bound of a node is valid for the points of its box that still matter *)
BoundValid(Best,nd,U,tol) == \A k \in 1..Len(Best) :
   InBox(Best[k][1],nd) /\ NLt(Best[k][2],NSub(U,tol)) => NLe(nd.L, NAdd(Best[k][2],tol))
BoundsValid(Best,st,tol) == \A i \in 1..Len(st.nodes) : BoundValid(Best,st.nodes[i],st.U,tol)

(* the incumbent is a feasible point with its value *)
IncumbentFeasible(Best,st,tol) == ~NFin(st.U) \/
   \E k \in 1..Len(Best) : Best[k][1] = st.inc /\ NLe(Best[k][2],NAdd(st.U,tol))

Min2(a,b) == IF NLt(a,b) THEN a ELSE b
RECURSIVE MinL(_,_)
MinL(nodes,k) == IF k = 0 THEN "inf" ELSE Min2(nodes[k].L,MinL(nodes,k-1))
RECURSIVE OptVal(_,_)
OptVal(Best,k) == IF k = 0 THEN "inf" ELSE Min2(Best[k][2],OptVal(Best,k-1))

(* the gap between incumbent and global bound is within the tolerances (the relative
   gap is the excess of U over L, measured by L)                                *)
GapMet(U,L,abs,rel) == \/ ~NLt(L,U)
                       \/ NLe(NSub(U,L),abs)
                       \/ NFin(U) /\ NFin(L) /\ ~NEq(L,0) /\ NLe(NAbs(NSub(NDiv(U,L),1)),rel)

(* final verdicts *)
OPTIMAL == 0  INFEASIBLE == 1  MAXFEAS == 10  MAXNONE == 11
VerdictSound(Best,flag,U,iter,maxit,tol) ==
  CASE flag = OPTIMAL    -> Len(Best) > 0 /\ NLe(U,NAdd(OptVal(Best,Len(Best)),tol))
    [] flag = INFEASIBLE -> Len(Best) = 0
    [] flag = MAXFEAS    -> NFin(U) /\ iter >= maxit-1
    [] flag = MAXNONE    -> ~NFin(U) /\ iter >= maxit-1
    [] OTHER             -> FALSE

(* transitions *)
Root(lo,hi) == [nodes |-> << [st |-> NotSolved, lo |-> lo, hi |-> hi, L |-> "-inf"] >>, U |-> "inf", inc |-> <<>>, iter |-> 0]
Branch(st,i,v,f) == \* split node i on variable v at f | f+1
  LET nd == st.nodes[i]
      left  == [nd EXCEPT !.st = NotSolved, !.hi[v] = f]
      right == [nd EXCEPT !.st = NotSolved, !.lo[v] = f+1]
  IN [st EXCEPT !.nodes = Append([@ EXCEPT ![i] = left],right), !.iter = @+1]
(* a branching is legal if the two children cover the parent's integer points
   and each is smaller                                                       *)
SplitCovers(parent,left,right,Best) ==
  \A k \in 1..Len(Best) : InBox(Best[k][1],parent) => InBox(Best[k][1],left) \/ InBox(Best[k][1],right)
=============================================================================
