------------------------------ MODULE MCLoop ------------------------------
(* Exhaustive exploration of the life of a solve, with the process environment
   it disturbs: the caller's SIGINT handler and the objective it scales while
   running. Interrupts arrive at any moment; computations break down anywhere. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxIt, Ranks
VARIABLES st, hnd, csc, asked
vars == <<st,hnd,csc,asked>>
(* measures: a rank (smaller is better), 0 = incomparable with everything *)
BetterRank(a,b) == a # 0 /\ b # 0 /\ a < b
L == INSTANCE Loop WITH Better <- BetterRank
Verdicts == {L!NC,0,1}
Iterates == { i \in [full : Verdicts, red : Verdicts, nan : BOOLEAN, bad : BOOLEAN, stuck : {FALSE}, m : Ranks] :
               /\ i.full # L!NC => i.red = i.full /\ ~i.nan
               /\ i.nan => i.red = L!NC /\ i.m = 0 }
Init == st = [L!Start EXCEPT !.ph = "idle"] /\ hnd = "caller" /\ csc = FALSE /\ asked = FALSE
Begin == st.ph = "idle" /\ st' = L!Start /\ hnd' = "lib" /\ csc' = TRUE /\ asked' = FALSE
Fatal0 == st.ph = "run" /\ L!Cur(st) = 0 /\ st' = [st EXCEPT !.ph = "aborted", !.flag = L!FATAL] /\ hnd' = "caller" /\ csc' = FALSE /\ UNCHANGED asked
VisitA == /\ st.ph = "run" /\ \E it \in Iterates : st' = [L!Visit(st,it) EXCEPT !.ph = "check"]
          /\ UNCHANGED <<hnd,csc,asked>>
Signal == st.ph \in {"run","check"} /\ ~st.intr /\ st' = [st EXCEPT !.intr = TRUE] /\ asked' = TRUE /\ UNCHANGED <<hnd,csc>>
Continue == /\ st.ph = "check" /\ L!MayGoOn(st,MaxIt) /\ st' = [L!GoOn(st) EXCEPT !.ph = "run"] /\ UNCHANGED <<hnd,csc,asked>>
Exit == /\ st.ph = "check" /\ \E e \in L!Exits(st,MaxIt) : st' = L!Stop(st,e)
        /\ hnd' = "caller" /\ csc' = FALSE /\ UNCHANGED asked
Again == st.ph \in {"done","aborted"} /\ st' = [L!Start EXCEPT !.ph = "idle"] /\ UNCHANGED <<hnd,csc>> /\ asked' = FALSE
Next == Begin \/ Fatal0 \/ VisitA \/ Signal \/ Continue \/ Exit \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(VisitA) /\ WF_vars(Continue) /\ SF_vars(Exit)
InvExit == /\ L!FlagDocumented(st) /\ L!ReturnedVisited(st) /\ L!FlagHonest(st) /\ L!WithinLimit(st,MaxIt)
           /\ L!ConvergedStops(st) /\ L!BadNotReturned(st) /\ L!BadStops(st)
InvBest == L!BestKept(st) /\ (st.ph = "check" => L!KeepIsKept(st))
(* on every way out the environment is as it was *)
InvClean == st.ph \in {"idle","done","aborted"} => hnd = "caller" /\ ~csc
(* an interrupted solve does not visit another iterate; it says so unless a verdict was reached *)
InvIntr == L!Done(st) /\ st.intr => st.flag \in {0,1,2,10,11,12,L!SIGINT,L!NUMERICS,L!OUTCONE,L!FATAL}
NoVisitAfterIntr == [][ (st.ph = "check" /\ st.intr) => st'.ph # "run" ]_vars
NoSpuriousIntr == L!Done(st) /\ ~asked => st.flag # L!SIGINT
Terminates == (st.ph = "run") ~> (st.ph \in {"done","aborted"})
Bound == L!Cur(st) <= MaxIt+1
=============================================================================
