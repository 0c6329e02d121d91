------------------------------- MODULE Loop -------------------------------
(* The life of one solve: iterates are visited one by one; after each visit the
   solve may stop, and if it stops it returns one of the iterates visited so
   far together with a flag.

   An iterate is a record
     full, red : the verdict of the exit test at the full / the reduced
                 tolerances: 0 optimal, 1 primal infeasible, 2 unbounded, NC
     nan       : its cost is not a number
     bad       : it may be discarded as unreliable (gap negative or primal
                 residual blown up); stuck: it was reached by a minimal step
     m         : the measures by which iterates are compared

   A solve state is a record [its, best, intr, ph, flag, ret]: the iterates so
   far, the index of the best one, whether an interrupt is pending, "run" or
   "done", and (when done) the flag and the index of the returned iterate.

   Better(a,b) is a parameter: the measures a are better than b.              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Better(_,_)

NC == -87
INACC == 10
OPT == 0  PINF == 1  DINF == 2
MAXIT == -1  NUMERICS == -2  OUTCONE == -3  SIGINT == -4  FATAL == -7
DocumentedFlags == {0,1,2,10,11,12,MAXIT,NUMERICS,OUTCONE,SIGINT,FATAL}

Start == [its |-> <<>>, best |-> 0, intr |-> FALSE, ph |-> "run", flag |-> NC, ret |-> 0]

Cur(st) == Len(st.its)
It(st,i) == st.its[i]
(* one way to find such an iterate: remember the best so far (MCLoop shows that
   it always is one of Kept)                                                  *)
Keep(st) == LET k == Cur(st) IN
  IF k = 1 \/ st.best = 0 \/ Better(It(st,k).m,It(st,st.best).m) THEN k ELSE st.best

(* the iterates that may be handed back: those no other visited one beats *)
Kept(st,n) == { i \in 1..n : \A j \in 1..n : ~Better(It(st,j).m,It(st,i).m) }

(* stopping without convergence: the returned iterate decides whether the
   verdict is "close to" something                                           *)
Recover(st,i,neg) == << IF It(st,i).red = NC THEN neg ELSE It(st,i).red + INACC, i >>

(* the iterate is unreliable: it is discarded and the solve ends without it *)
Discard(st) == LET k == Cur(st) it == It(st,k) IN k > 1 /\ it.bad /\ it.full = NC
Back(st) == { Recover(st,i,NUMERICS) : i \in Kept(st,Cur(st)-1) }

(* exits that must be taken at the current iterate (empty: may go on) *)
Must(st,maxit) ==
  LET k == Cur(st) it == It(st,k) IN
  IF it.full # NC THEN { <<it.full,k>> }
  ELSE IF Discard(st) THEN Back(st)
  ELSE IF st.intr \/ k-1 = maxit
       THEN { Recover(st, i, IF st.intr THEN SIGINT ELSE MAXIT) : i \in Kept(st,k) }
       ELSE IF it.nan THEN { Recover(st, i, NUMERICS) : i \in Kept(st,k) } ELSE {}

(* exits that may be taken instead: the iterate is discarded although it meets
   the tolerances, it was reached by a minimal step, or computing the next one
   breaks down                                                                *)
May(st) ==
  LET k == Cur(st) it == It(st,k)
  IN (IF k > 1 /\ (it.bad \/ it.stuck) THEN Back(st) ELSE {})
     \cup (IF it.full = NC /\ ~Discard(st) THEN UNION { { Recover(st,i,NUMERICS), Recover(st,i,OUTCONE), <<FATAL,i>> } : i \in Kept(st,k) } \cup { <<FATAL,k>> } ELSE {})

Exits(st,maxit) == Must(st,maxit) \cup May(st)
MayGoOn(st,maxit) == Must(st,maxit) = {}

Visit(st,it) == [st EXCEPT !.its = Append(@,it)]
GoOn(st) == [st EXCEPT !.best = Keep(st)]
Stop(st,e) == [st EXCEPT !.ph = "done", !.flag = e[1], !.ret = e[2]]

(* ------------------------------------------------ what must be true at exit *)
Done(st) == st.ph = "done"
FlagDocumented(st) == Done(st) => st.flag \in DocumentedFlags
ReturnedVisited(st) == Done(st) => st.ret \in 1..Cur(st)
FlagHonest(st) == Done(st) =>
   LET r == It(st,st.ret) IN
   /\ st.flag \in {0,1,2} => r.full = st.flag
   /\ st.flag \in {10,11,12} => r.red = st.flag - INACC
   /\ st.flag < 0 => r.full = NC /\ (st.flag # FATAL => r.red = NC)
(* an unreliable iterate is not handed back, and ends the solve *)
BadNotReturned(st) == Done(st) /\ st.ret > 1 /\ It(st,st.ret).full = NC => ~It(st,st.ret).bad
BadStops(st) == \A i \in 2..Cur(st)-1 : ~It(st,i).bad
(* a converged iterate ends the solve *)
ConvergedStops(st) == \A i \in 1..Cur(st)-1 : It(st,i).full = NC
WithinLimit(st,maxit) == Cur(st) <= maxit + 1
KeepIsKept(st) == Cur(st) > 0 => Keep(st) \in Kept(st,Cur(st))
BestKept(st) == Done(st) /\ st.flag \notin {0,1,2,FATAL} => \A i \in 1..Cur(st)-1 : ~ Better(It(st,i).m,It(st,st.ret).m)
=============================================================================
