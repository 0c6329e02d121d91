----------------------------- MODULE Session -----------------------------
(* The library as its user sees it: workspaces, the caller's data buffers that
   a workspace borrows and scales in place, the signal handler, and memory.

   A state st is a record
     buf : buffer id -> [P, use, w]       P   the data the caller put there (and
                                              will find again), use = "raw" (never
                                              lent), "lent", "back" (returned)
                                          w   the workspace it is lent to
     ws  : workspace id -> [ph, b, kind, P, stg, hist, kept, ints]
                                          ph  "none", "open", "shut" (kept arrays
                                              still alive)
                                          P   the data in force
                                          hist what the result may depend on
     hnd : the SIGINT handler installed by the caller
     inj : workspace id -> fault to be injected into the next solve
     rnd : the state of the C random generator, which branch and bound draws
           from: <<seed>>, or <<>> if unknown

   The transitions are the operators Enabled and Step over operation records.
   MCSession explores them exhaustively, SessionGen walks them to produce
   histories, SessionTrace replays recorded histories of the real library.   *)
EXTENDS Integers, Sequences, TLC

NoWs == [ph |-> "none", b |-> -1, kind |-> "c", P |-> <<>>, stg |-> <<>>, hist |-> <<>>, kept |-> 0, ints |-> <<>>, verb |-> 0]
NoInj == <<>>

Init0(B,W) == [ buf |-> [b \in B |-> [P |-> <<>>, use |-> "empty", w |-> -1, bb |-> FALSE]],
                ws  |-> [w \in W |-> NoWs],
                hnd |-> "caller",
                inj |-> [w \in W |-> NoInj],
                rnd |-> <<>> ]

(* the documented settings of a fresh workspace *)
DefaultStg == [ maxit |-> "100", max_bk_iter |-> "90", nitref |-> "9", gamma |-> "0.99", delta |-> "2e-7", eps |-> "1e-13",
                bk_scale |-> "0.8", centrality |-> "1", feastol |-> "1e-8", abstol |-> "1e-8", reltol |-> "1e-8",
                feastol_inacc |-> "1e-4", abstol_inacc |-> "5e-5", reltol_inacc |-> "5e-5" ]
DefaultBB == [ maxit |-> 1000, abs |-> "1e-6", rel |-> "1e-3", itol |-> "1e-4", strat |-> 3, eta |-> 6, nsel |-> 1 ]
BBSet(o) == IF o.bbstg = <<>> THEN DefaultBB ELSE o.bbstg
BBStgOf(o) == ("absgap" :> BBSet(o).abs) @@ ("relgap" :> BBSet(o).rel) @@ ("bb" :> BBSet(o)) @@ DefaultStg

(* the data in force in an open workspace *)
InForce(st,w) == st.ws[w].P

Open(st,w) == st.ws[w].ph = "open"
Free(st,b) == st.buf[b].use \in {"raw","back"}

(* a buffer may replace another in a full update iff the structure is the same *)
SameStructure(P,Q) == /\ P.n = Q.n /\ P.m = Q.m /\ P.p = Q.p /\ P.l = Q.l /\ P.q = Q.q /\ P.e = Q.e
                      /\ P.Gjc = Q.Gjc /\ P.Gir = Q.Gir /\ P.Ajc = Q.Ajc /\ P.Air = Q.Air

Enabled(st,o) ==
  CASE o.op = "prob"     -> st.buf[o.buf].use \in {"empty","raw","back"}
    [] o.op = "setup"    -> st.ws[o.w].ph = "none" /\ Free(st,o.buf)
    [] o.op = "badsetup" -> st.ws[o.w].ph = "none" /\ Free(st,o.buf)
    [] o.op = "stg"      -> Open(st,o.w)
    [] o.op = "inj"      -> Open(st,o.w)
    [] o.op = "solve"    -> Open(st,o.w) /\ st.ws[o.w].kind = "c"
    [] o.op = "updh"     -> Open(st,o.w) /\ st.ws[o.w].kind = "c" /\ o.idx < Len(InForce(st,o.w).h)
    [] o.op = "updc"     -> Open(st,o.w) /\ st.ws[o.w].kind = "c" /\ o.idx < Len(InForce(st,o.w).c)
    [] o.op = "upd"      -> /\ Open(st,o.w) /\ st.ws[o.w].kind = "c" /\ Free(st,o.buf)
                            /\ SameStructure(InForce(st,o.w),st.buf[o.buf].P)
    [] o.op = "inplace"  -> Open(st,o.w) /\ st.ws[o.w].kind = "c" /\ SameStructure(InForce(st,o.w),o.P)
    [] o.op = "cleanup"  -> Open(st,o.w) /\ st.ws[o.w].kind = "c"
    [] o.op = "freekept" -> st.ws[o.w].ph = "shut"
    [] o.op = "bbsetup"  -> st.ws[o.w].ph = "none" /\ Free(st,o.buf)
    [] o.op = "bbsolve"  -> Open(st,o.w) /\ st.ws[o.w].kind = "bb"
    [] o.op = "bbupdh"   -> Open(st,o.w) /\ st.ws[o.w].kind = "bb" /\ o.idx < Len(InForce(st,o.w).h)
    [] o.op = "bbupdc"   -> Open(st,o.w) /\ st.ws[o.w].kind = "bb" /\ o.idx < Len(InForce(st,o.w).c)
    \* the node table was made for the limit in force at setup
    [] o.op = "bbstg"    -> Open(st,o.w) /\ st.ws[o.w].kind = "bb" /\ (o.name = "maxit" => o.val <= st.ws[o.w].hist[1][5].maxit)
    [] o.op = "bbcleanup"-> Open(st,o.w) /\ st.ws[o.w].kind = "bb"
    [] OTHER             -> TRUE

(* data that were lent before are the caller's only up to rounding ("~") *)
Mark(st,b,name) == IF st.buf[b].use = "raw" THEN name ELSE name \o "~"
Put(st,w,f) == [st EXCEPT !.ws[w] = f]
Hist(st,w,x) == Append(st.ws[w].hist,x)

Step(st,o) ==
  CASE o.op = "prob" ->
         [st EXCEPT !.buf[o.buf] = [P |-> o.P, use |-> "raw", w |-> -1, bb |-> FALSE]]
    [] o.op = "setup" ->
         [st EXCEPT !.buf[o.buf] = [@ EXCEPT !.use = "lent", !.w = o.w, !.bb = FALSE],
                    !.ws[o.w] = [NoWs EXCEPT !.ph = "open", !.b = o.buf, !.P = st.buf[o.buf].P, !.stg = DefaultStg,
                                             !.hist = <<<<Mark(st,o.buf,"setup"),st.buf[o.buf].P>>>>]]
    [] o.op = "badsetup" -> st                      \* rejected: nothing changes
    [] o.op = "stg" -> [st EXCEPT !.ws[o.w].stg = (o.name :> o.val) @@ @, !.ws[o.w].hist = Append(@,<<o.name,o.val>>)]
    [] o.op = "inj" -> [st EXCEPT !.inj[o.w] = <<o.kind,o.at>>]
    [] o.op = "bbstg" ->
         LET g == [st.ws[o.w].stg.bb EXCEPT ![o.name] = o.val]
         IN [st EXCEPT !.ws[o.w].stg = ("absgap" :> g.abs) @@ ("relgap" :> g.rel) @@ ("bb" :> g) @@ @, !.ws[o.w].hist = Append(@,<<"bbstg",o.name,o.val>>)]
    [] o.op = "verbose" -> [st EXCEPT !.ws[o.w].verb = o.v]
    [] o.op = "srand" -> [st EXCEPT !.rnd = <<o.k>>]
    [] o.op = "solve" ->                            \* the data and the handler are as before
         [st EXCEPT !.inj[o.w] = NoInj, !.ws[o.w].hist = Append(@,<<"solve",st.inj[o.w]>>)]
    [] o.op = "updh" ->
         [st EXCEPT !.ws[o.w].P.h[o.idx+1] = o.val, !.buf[st.ws[o.w].b].P.h[o.idx+1] = o.val,
                    !.ws[o.w].hist = Append(@,<<"updh",o.idx,o.val>>)]
    [] o.op = "updc" ->
         [st EXCEPT !.ws[o.w].P.c[o.idx+1] = o.val, !.buf[st.ws[o.w].b].P.c[o.idx+1] = o.val,
                    !.ws[o.w].hist = Append(@,<<"updc",o.idx,o.val>>)]
    [] o.op = "upd" ->                              \* the old buffer goes back, the new one is lent
         [st EXCEPT !.buf = [@ EXCEPT ![st.ws[o.w].b] = [@ EXCEPT !.use = "back", !.w = -1],
                                      ![o.buf] = [@ EXCEPT !.use = "lent", !.w = o.w, !.bb = FALSE]],
                    !.ws[o.w] = [@ EXCEPT !.b = o.buf, !.P = st.buf[o.buf].P, !.hist = Append(@,<<Mark(st,o.buf,"upd"),st.buf[o.buf].P>>)]]
    [] o.op = "inplace" ->
         [st EXCEPT !.buf[st.ws[o.w].b].P = o.P,
                    !.ws[o.w] = [@ EXCEPT !.P = o.P, !.hist = Append(@,<<"upd",o.P>>)]]
    [] o.op = "cleanup" ->
         [st EXCEPT !.buf[st.ws[o.w].b] = [@ EXCEPT !.use = "back", !.w = -1],
                    !.ws[o.w] = IF o.keep = 0 THEN NoWs ELSE [NoWs EXCEPT !.ph = "shut", !.kept = o.keep],
                    !.inj[o.w] = NoInj]
    [] o.op = "freekept" -> Put(st,o.w,NoWs)
    [] o.op = "bbsetup" ->                          \* G and h are copied, A, b and c are borrowed
         [st EXCEPT !.buf[o.buf] = [@ EXCEPT !.use = "lent", !.w = o.w, !.bb = TRUE],
                    !.ws[o.w] = [NoWs EXCEPT !.ph = "open", !.b = o.buf, !.kind = "bb", !.P = st.buf[o.buf].P, !.stg = BBStgOf(o),
                                             !.ints = <<o.bi,o.ii>>, !.hist = <<<<Mark(st,o.buf,"bbsetup"),st.buf[o.buf].P,o.bi,o.ii,BBSet(o)>>>>]]
    [] o.op = "bbsolve" ->                          \* what the search draws at random is part of its history
         [st EXCEPT !.inj[o.w] = NoInj, !.ws[o.w].hist = Append(@,<<"solve",st.inj[o.w],st.rnd>>),
                    !.rnd = <<>>]
    [] o.op = "bbupdh" -> [st EXCEPT !.ws[o.w].P.h[o.idx+1] = o.val, !.ws[o.w].hist = Append(@,<<"updh",o.idx,o.val>>)]
    [] o.op = "bbupdc" -> [st EXCEPT !.ws[o.w].P.c[o.idx+1] = o.val, !.buf[st.ws[o.w].b].P.c[o.idx+1] = o.val,
                                     !.ws[o.w].hist = Append(@,<<"updc",o.idx,o.val>>)]
    [] o.op = "bbcleanup" ->
         [st EXCEPT !.buf[st.ws[o.w].b] = [@ EXCEPT !.use = "back", !.w = -1],
                    !.ws[o.w] = IF o.keep = 0 THEN NoWs ELSE [NoWs EXCEPT !.ph = "shut", !.kept = o.keep],
                    !.inj[o.w] = NoInj]
    [] o.op = "handler" -> [st EXCEPT !.hnd = IF o.k = 0 THEN "dfl" ELSE IF o.k = 2 THEN "ign" ELSE "caller"]
    [] OTHER -> st

(* What memory the library may hold: none for a closed workspace, exactly the
   kept arrays for a shut one.                                               *)
LiveExact(st) == \A w \in DOMAIN st.ws : st.ws[w].ph # "open"
LiveCount(st) == LET RECURSIVE F(_)
                     F(S) == IF S = {} THEN 0 ELSE LET w == CHOOSE w \in S : TRUE IN st.ws[w].kept + F(S \ {w})
                 IN F({w \in DOMAIN st.ws : st.ws[w].ph = "shut"})

(* ------------------------------------------------------------ invariants *)
Lent(st,b) == st.buf[b].use = "lent"
OneOwner(st) == \A b \in DOMAIN st.buf : Lent(st,b) <=> (\E w \in DOMAIN st.ws : Open(st,w) /\ st.ws[w].b = b)
OneOwner2(st) == \A v,w \in DOMAIN st.ws : Open(st,v) /\ Open(st,w) /\ v # w => st.ws[v].b # st.ws[w].b
(* the data in force are what the caller will find in the buffer (no third copy) *)
SettingsAreThose(st) == \A w \in DOMAIN st.ws : Open(st,w) /\ st.ws[w].kind = "bb" =>
   LET H == st.ws[w].hist
       RECURSIVE S(_)
       S(k) == IF k = 1 THEN H[1][5] ELSE IF H[k][1] = "bbstg" THEN [S(k-1) EXCEPT ![H[k][2]] = H[k][3]] ELSE S(k-1)
   IN st.ws[w].stg.bb = S(Len(H)) /\ st.ws[w].stg.absgap = S(Len(H)).abs /\ st.ws[w].stg.relgap = S(Len(H)).rel
InForceIsBuffer(st) == \A w \in DOMAIN st.ws : Open(st,w) =>
   /\ st.ws[w].kind = "c" => st.buf[st.ws[w].b].P = st.ws[w].P
   /\ st.ws[w].kind = "bb" => st.buf[st.ws[w].b].P.c = st.ws[w].P.c
NothingLeft(st) == (\A w \in DOMAIN st.ws : st.ws[w].ph = "none") => (\A b \in DOMAIN st.buf : ~Lent(st,b)) /\ LiveCount(st) = 0
(* the data in force are the setup data with the updates applied in order *)
RECURSIVE Replay(_,_)
Replay(hist,k) == IF k = 0 THEN <<>> ELSE
  LET x == hist[k] P == Replay(hist,k-1)
  IN CASE x[1] \in {"setup","setup~","bbsetup","bbsetup~","upd","upd~"} -> x[2]
       [] x[1] = "updh" -> [P EXCEPT !.h[x[2]+1] = x[3]]
       [] x[1] = "updc" -> [P EXCEPT !.c[x[2]+1] = x[3]]
       [] OTHER -> P
HistoryIsData(st) == \A w \in DOMAIN st.ws : Open(st,w) => Replay(st.ws[w].hist,Len(st.ws[w].hist)) = st.ws[w].P
Inv(st) == OneOwner(st) /\ OneOwner2(st) /\ InForceIsBuffer(st) /\ NothingLeft(st) /\ HistoryIsData(st) /\ SettingsAreThose(st)
=============================================================================
