--------------------------- MODULE SessionTrace ---------------------------
(* Validation of recorded histories. Every operation recorded from the real
   library must be a transition of Session, and what was observed must satisfy
   Rules in the state in which it happened. One TLC step per operation.

   bad collects <<scenario, index of the operation, operation, property, rule,
   detail>>; cov counts what was exercised.                                  *)
EXTENDS Rules, Json
Recs == ndJsonDeserialize(IOEnv.TR_IN)
VARIABLES i, k, st, mem, bad, cov
vars == <<i,k,st,mem,bad,cov>>

St0 == Init0(0..15,0..5)
Mem0 == [last |-> [w \in 0..5 |-> <<>>], log |-> <<>>, bblog |-> <<>>, tab |-> <<>>, key |-> <<>>]
Init == i = 1 /\ k = 1 /\ st = St0 /\ mem = Mem0 /\ bad = <<>> /\ cov = <<>>

Key(o) == << st.ws[o.w].P, st.ws[o.w].ints >>
TabOf(o) == IF mem.key = <<Key(o)>> THEN mem.tab ELSE Table(Key(o)[1],Key(o)[2])
BBProps == {"C05","C09","C10","C11","C15"}
Judge(sc,o) ==
  CASE o.op = "solve"    -> JudgeSolve(sc,st,mem,o)
    [] o.op = "bbsolve"  -> (IF OnAny(BBProps) THEN JudgeBB(sc,st,mem,o,TabOf(o)) ELSE {})
                            \cup (IF o.r.lev > 1 /\ On("C16") THEN SearchBad(st.ws[o.w].P,st.ws[o.w].ints,st.ws[o.w].stg.bb,o.r) ELSE {})
                            \cup (IF o.r.lev > 0 /\ On("C17") THEN BBReportBad(st.ws[o.w].verb,o.r) ELSE {})
                            \cup BBStgBad(st,o.w,st.ws[o.w].stg.bb,o.r,"bbsolve") \cup BBHistBad(mem,BBEntry(st,o))
    [] o.op = "inplace"  -> JudgeInplace(st,o)
    [] o.op = "dump"     -> JudgeDump(st,o)
    [] o.op = "ledger"   -> JudgeLedger(st,o)
    [] o.op \in {"cleanup","bbcleanup"} -> JudgeClean(st,mem,o)
    [] o.op = "raise"    -> JudgeRaise(st,o)
    [] o.op = "badsetup" -> Chk(o.r.null = 1,"C08","setup accepts dimensions that do not add up",o.wrongm)
    [] o.op \in {"setup","bbsetup"} -> JudgeSetup(st,o)
    [] o.op = "bbidx"    -> Chk(o.r.bi = st.ws[o.w].ints[1] /\ o.r.ii = st.ws[o.w].ints[2],"C07","variable index lists changed",o.w)
    [] OTHER -> {}
Remember(o) ==
  CASE o.op = "solve"   -> [mem EXCEPT !.last[o.w] = [x |-> o.r.x, y |-> o.r.y, s |-> o.r.s, z |-> o.r.z], !.log = Append(@,Entry(st,o))]
    [] o.op = "bbsolve" ->
         LET a == [mem EXCEPT !.last[o.w] = IF Len(o.r.x) = st.ws[o.w].P.n THEN [x |-> o.r.x, y |-> o.r.y, s |-> o.r.s, z |-> o.r.z] ELSE <<>>,
                              !.bblog = Append(@,BBEntry(st,o))]
         IN IF OnAny(BBProps) THEN [a EXCEPT !.tab = TabOf(o), !.key = <<Key(o)>>] ELSE a
    [] o.op \in {"setup","bbsetup"} -> [mem EXCEPT !.last[o.w] = <<>>]
    [] OTHER -> mem

Labels(sc,o) == {"op " \o o.op} \cup
  CASE o.op = "solve" -> {"flag " \o ToString(o.r.flag)} \cup (IF Injected(o.r) THEN {"fault " \o ToString(o.r.inj)} ELSE {})
         \cup (IF o.r.flag \in {0,1,2,10,11,12} THEN {"claims judged"} ELSE {}) \cup (IF o.r.lev > 0 THEN {"runs traced"} ELSE {})
         \cup (IF \E j \in 1..Len(mem.log) : mem.log[j].P = st.ws[o.w].P /\ mem.log[j].clean THEN {"pairs compared"} ELSE {})
    [] o.op = "bbsolve" -> {"bbflag " \o ToString(o.r.flag)} \cup (IF Injected(o.r) THEN {"bb fault " \o ToString(o.r.inj)} ELSE {}) \cup
         (IF \E j \in 1..Len(mem.bblog) : mem.bblog[j].hist = BBEntry(st,o).hist THEN {"bb twins compared"} ELSE {}) \cup (IF o.r.bbiter > 0 THEN {"searches that branch"} ELSE {})
    [] OTHER -> {}
Bump(c,S) == [l \in DOMAIN c \cup S |-> (IF l \in DOMAIN c THEN c[l] ELSE 0) + (IF l \in S THEN 1 ELSE 0)]

Entries(sc,o,S) == LET q == SetToSeq(S) IN [j \in 1..Len(q) |-> <<sc.id,ToString(k),o.op,q[j][1],q[j][2],q[j][3]>>]
Perform ==
  /\ i <= Len(Recs) /\ k <= Len(Recs[i].ops)
  /\ LET sc == Recs[i] o == sc.ops[k] IN
     /\ k' = k+1 /\ i' = i
     /\ IF ~("r" \in DOMAIN o) THEN bad' = Append(bad,<<sc.id,ToString(k),o.op,"any","the library did not return",sc.status>>) /\ UNCHANGED <<st,mem,cov>>
        ELSE IF ~Enabled(st,o) THEN bad' = Append(bad,<<sc.id,ToString(k),o.op,"INTERNAL","operation not enabled","">>) /\ UNCHANGED <<st,mem,cov>>
        ELSE /\ bad' = bad \o Entries(sc,o,{ b \in Judge(sc,o) \cup JudgeSilent(st,o) : On(b[1]) \/ b[1] = "any" })
             /\ st' = Step(st,o) /\ mem' = Remember(o) /\ cov' = Bump(cov,Labels(sc,o))
EndScenario ==
  /\ i <= Len(Recs) /\ k > Len(Recs[i].ops)
  /\ i' = i+1 /\ k' = 1 /\ st' = St0 /\ mem' = Mem0 /\ UNCHANGED <<bad,cov>>
Finish ==
  /\ i = Len(Recs)+1
  /\ JsonSerialize(IOEnv.TR_OUT, [bad |-> bad, cov |-> cov, n |-> Len(Recs)])
  /\ i' = i+1 /\ UNCHANGED <<k,st,mem,bad,cov>>
Next == Perform \/ EndScenario \/ Finish
Spec == Init /\ [][Next]_vars
StateInv == Inv(st)
=============================================================================
