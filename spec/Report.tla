------------------------------- MODULE Report -------------------------------
(* What a solve prints when verbosity is on, as lines of words and numbers: one
   line per iterate with its statistics, then the verdict of the exit flag with
   the numbers it rests on.                                                   *)
EXTENDS Num, Integers, Sequences, TLC

(* a number printed with a certain number of digits *)
Shown(t,v,rel,abs) == IF NNaN(v) THEN t = "nan" ELSE IF ~NFin(v) THEN t = v ELSE NFin(t) /\ NLe(NAbs(NSub(t,v)),NAdd(NMul(rel,NAbs(v)),abs))
Four(t,v) == Shown(t,v,"5.01e-4","0")       \* +5.3e
Two(t,v)  == Shown(t,v,"0.0501","0")        \* 3.1e
One(t,v)  == Shown(t,v,"0.501","0")         \* 2.0e
Whole(t,k) == t = ToString(k)

IsProgress(t) == Len(t) = 16 /\ t[14] = "|"
(* the line of the iterate with statistics i *)
LineOf(t,i) ==
  /\ Whole(t[1],i.iter) /\ Four(t[2],i.pcost) /\ Four(t[3],i.dcost) /\ One(t[4],i.gap) /\ One(t[5],i.pres) /\ One(t[6],i.dres)
  /\ One(t[7],i.kapovert) /\ One(t[8],i.mu) /\ Whole(t[11],i.nitref1) /\ Whole(t[12],i.nitref2)
  /\ IF i.iter = 0 THEN t[9] = "---" /\ t[10] = "---" /\ t[13] = "-" /\ t[15] = "-" /\ t[16] = "-"
     ELSE Shown(t[9],i.step,"0","5.01e-5") /\ One(t[10],i.sigma) /\ Whole(t[13],i.nitref3) /\ Whole(t[15],i.affBack) /\ Whole(t[16],i.cmbBack)

(* the verdict *)
Words(flag) ==
  CASE flag = 0 -> <<"OPTIMAL","within">> [] flag = 10 -> <<"Close","to","OPTIMAL","within">>
    [] flag = 1 -> <<"PRIMAL","INFEASIBLE","within">> [] flag = 11 -> <<"Close","to","PRIMAL","INFEASIBLE","within">>
    [] flag = 2 -> <<"UNBOUNDED","within">> [] flag = 12 -> <<"Close","to","UNBOUNDED","within">>
    [] flag = -1 -> <<"RAN","OUT","OF","ITERATIONS","reached">> [] flag = -4 -> <<"INTERRUPTED","reached">>
    [] flag \in {-2,-3} -> <<"NUMERICAL","PROBLEMS","reached">> [] OTHER -> <<>>
IsVerdict(t) == t[1] \in {"OPTIMAL","Close","PRIMAL","UNBOUNDED","RAN","INTERRUPTED","NUMERICAL"}
VerdictOf(t,flag,i) ==
  LET w == Words(flag) n == Len(w) IN
  /\ Len(t) > n /\ SubSeq(t,1,n) = w
  /\ CASE flag \in {1,11} -> Len(t) >= n+2 /\ t[n+1] = "feastol" /\ Two(t[n+2],i.pinfres)
       [] flag \in {2,12} -> Len(t) >= n+2 /\ t[n+1] = "feastol" /\ Two(t[n+2],i.dinfres)
       [] OTHER -> /\ Len(t) >= n+6 /\ t[n+1] = "feastol" /\ t[n+3] = "reltol" /\ t[n+5] = "abstol"
                   /\ (IF NNaN(i.pres) \/ NNaN(i.dres) THEN Two(t[n+2],i.pres) \/ Two(t[n+2],i.dres) ELSE Two(t[n+2],NMax(i.pres,i.dres)))
                   /\ Two(t[n+4],i.relgap) /\ Two(t[n+6],i.gap)
(* "recovering best iterate k" *)
Recovered(t) == { t[j+3] : j \in { j \in 1..Len(t)-3 : t[j] = "recovering" /\ t[j+1] = "best" /\ t[j+2] = "iterate" } }
Runtime(t) == t[1] = "Runtime"
(* branch and bound: nodes so far, bounds, and the gap between them *)
IsBBLine(t) == Len(t) = 4 /\ t[1] # "Iter" /\ (NFin(t[2]) \/ t[2] \in {"inf","-inf","nan"})
Hundredth(t,v) == Shown(t,v,"1e-12","0.00501")
BBLineOf(t,k,l,u) == Whole(t[1],k) /\ Hundredth(t[2],l) /\ Hundredth(t[3],u) /\ (NFin(l) /\ NFin(u) => Shown(t[4],NSub(u,l),"1e-9","0.00501"))
=============================================================================
