------------------------------- MODULE MCBB -------------------------------
(* Exhaustive exploration of branch and bound on every integer program with NV
   variables in 0..R and values in Vals, with every relaxation that is a valid
   lower bound, every rounding, every branching and every node selection. A trial
   branching (strong branching) solves the two children's relaxations; what it cuts
   off is decided by Branch's Tried, the children by Branch's SplitBox.          *)
EXTENDS Branch, TLC, SequencesExt
CONSTANTS NV, R, Vals, MaxIt, Trial, Abs, Rel
VARIABLES best, st, pc, cur, flag
vars == <<best,st,pc,cur,flag>>
Pts == [1..NV -> 0..R]
Zero == [i \in 1..NV |-> 0]  Top == [i \in 1..NV |-> R]
Init == /\ \E F \in SUBSET Pts : \E v \in [F -> Vals] :
             best = LET s == SetToSeq(F) IN [k \in 1..Len(s) |-> <<s[k],v[s[k]]>>]
        /\ st = [Root(Zero,Top) EXCEPT !.nodes = <<[st |-> NotSolved, lo |-> Zero, hi |-> Top, L |-> "-inf", sp |-> 0, sv |-> 0]>>] /\ pc = "bound" /\ cur = 1 /\ flag = -99
BoxBest(nd) == OptVal(SelectSeq(best,LAMBDA e : InBox(e[1],nd)),Len(SelectSeq(best,LAMBDA e : InBox(e[1],nd))))
Unsolved == { i \in 1..Len(st.nodes) : st.nodes[i].st = NotSolved }
Single(nd) == \A v \in 1..NV : nd.lo[v] = nd.hi[v]
(* the relaxations of the two children of nd on variable v split at f | f+1: every
   value that is valid for the box and not below that of nd, or infeasible        *)
RelaxOf(nd,r) == LET bv == BoxBest(nd) IN
  { [fl |-> 0, v |-> w, lo |-> nd.lo, hi |-> nd.hi] : w \in {w \in Vals \cup {r} : NLe(w,bv) /\ NLe(r,w)} }
  \cup (IF NFin(bv) THEN {} ELSE {[fl |-> 1, v |-> "nan", lo |-> nd.lo, hi |-> nd.hi]})
(* the node's box after trial branchings on a set of variables *)
RECURSIVE Shrunk(_,_,_)
Shrunk(nd,r,W) ==
  IF W = {} THEN {nd} ELSE
  LET v == CHOOSE v \in W : TRUE rest == Shrunk(nd,r,W \ {v}) IN
  rest \cup UNION { UNION { LET ch == SplitBox(nd,v,f,FALSE) one == [fl |-> 0, v |-> r, lo |-> nd.lo, hi |-> nd.hi] IN
      { LET t == Tried(<<one,D,Q,one>>,nd,v,f,FALSE,st.U).what IN
        CASE t = "down cut" -> [b EXCEPT !.lo[v] = f+1] [] t = "up cut" -> [b EXCEPT !.hi[v] = f] [] OTHER -> b
        : D \in RelaxOf(ch[1],r), Q \in RelaxOf(ch[2],r) }
    : f \in nd.lo[v]..(nd.hi[v]-1) } : b \in rest }
Cuts(nd,r) == Shrunk(nd,r,IF Trial THEN 1..NV ELSE {})
(* bound a node: relaxation value r valid for its box; possibly integral; possibly
   a rounded feasible point becomes the incumbent; possibly trial branchings cut the box *)
Bound == /\ pc = "bound" /\ Unsolved # {}
  /\ \E i \in Unsolved :
     LET nd == st.nodes[i] bv == BoxBest(nd) IN
     \/ /\ ~NFin(bv) /\ st' = [st EXCEPT !.nodes[i].st = Closed, !.nodes[i].L = "inf"]
     \/ \E r \in Vals \cup {"-1"} : /\ NLe(r,bv) /\ (~NFin(nd.L) \/ NLe(nd.L,r))
        /\ \/ NLt(st.U,r) /\ st' = [st EXCEPT !.nodes[i].st = Closed, !.nodes[i].L = r]
           \/ \E k \in 1..Len(best) : /\ InBox(best[k][1],nd) /\ best[k][2] = r
                 /\ st' = [st EXCEPT !.nodes[i].st = Closed, !.nodes[i].L = r,
                                     !.U = IF NLt(r,@) THEN r ELSE @, !.inc = IF NLt(r,st.U) THEN best[k][1] ELSE @]
           \/ /\ ~Single(nd) /\ ~NLt(st.U,r)
              /\ \E k \in 0..Len(best) : \E cut \in Cuts(nd,r) :
                 \E v \in 1..NV : \E f \in nd.lo[v]..(nd.hi[v]-1) :   \* split where this relaxation is fractional
                   LET u == IF k = 0 THEN "inf" ELSE best[k][2] IN
                   st' = [st EXCEPT !.nodes[i] = [cut EXCEPT !.st = IF NLt(Min2(u,st.U),r) THEN Closed ELSE Branchable, !.L = r, !.sp = v, !.sv = f],
                                    !.U = Min2(u,@), !.inc = IF NLt(u,st.U) THEN best[k][1] ELSE @]
           \/ /\ Single(nd) /\ ~NFin(bv) /\ st' = [st EXCEPT !.nodes[i].st = Closed, !.nodes[i].L = "inf"]
  /\ UNCHANGED <<best,pc,cur,flag>>
Settle == pc = "bound" /\ Unsolved = {} /\ pc' = "select" /\ UNCHANGED <<best,st,cur,flag>>
Cand == { i \in 1..Len(st.nodes) : st.nodes[i].st = Branchable }
Better == { i \in Cand : NLt(st.nodes[i].L,st.U) }
GL == MinL(st.nodes,Len(st.nodes))
Finish(f) == pc' = "done" /\ flag' = f /\ UNCHANGED <<best,st,cur>>
Select == /\ pc = "select"
  /\ IF st.iter >= MaxIt-1 THEN Finish(IF ~NFin(st.U) THEN MAXNONE ELSE MAXFEAS)
     ELSE IF Better = {} \/ GapMet(st.U,GL,Abs,Rel) THEN Finish(IF ~NFin(st.U) THEN INFEASIBLE ELSE OPTIMAL)
     ELSE \E i \in Cand :
            LET ch == SplitBox(st.nodes[i],st.nodes[i].sp,st.nodes[i].sv,R = 1) IN
            st' = [st EXCEPT !.nodes = Append([@ EXCEPT ![i] = ch[1]],ch[2]), !.iter = @+1] /\ pc' = "bound" /\ UNCHANGED <<best,cur,flag>>
Next == Bound \/ Settle \/ Select
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InvCover == Covered(best,st,0)
InvBounds == BoundsValid(best,st,0)
InvInc == IncumbentFeasible(best,st,0)
InvVerdict == pc = "done" => VerdictSound(best,flag,st.U,st.iter,MaxIt,IF NFin(GL) THEN NMax(Abs,NMul(Rel,NAbs(GL))) ELSE 0)
InvCount == Len(st.nodes) <= MaxIt
InvGlobal == ~NFin(GL) \/ NLe(GL,OptVal(best,Len(best)))
Monotone == [][ NLe(st'.U,st.U) ]_vars
Ends == <>(pc = "done")
=============================================================================
