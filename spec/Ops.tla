-------------------------------- MODULE Ops --------------------------------
(* Constructors of operation records (what a caller may do). *)
EXTENDS Problems, Session
OProb(b,P) == [op |-> "prob", buf |-> b, P |-> P]
OSetup(w,b) == [op |-> "setup", w |-> w, buf |-> b]
OBad(w,b,m,bb) == [op |-> "badsetup", w |-> w, buf |-> b, wrongm |-> m, bb |-> bb]
OStg(w,n,v) == [op |-> "stg", w |-> w, name |-> n, val |-> v]
OTrace(w,l) == [op |-> "trace", w |-> w, lev |-> l]
OInj(w,k,a) == [op |-> "inj", w |-> w, kind |-> k, at |-> a]
OSolve(w) == [op |-> "solve", w |-> w]
ODump(b) == [op |-> "dump", buf |-> b]
OUpdh(w,i,v) == [op |-> "updh", w |-> w, idx |-> i, val |-> v]
OUpdc(w,i,v) == [op |-> "updc", w |-> w, idx |-> i, val |-> v]
OUpd(w,b) == [op |-> "upd", w |-> w, buf |-> b]
(* fresh: which of the five arrays are new ones (bits Gpr, Apr, c, h, b) *)
OInplace(w,P,fresh) == [op |-> "inplace", w |-> w, P |-> P, fresh |-> fresh]
OClean(w,k) == [op |-> "cleanup", w |-> w, keep |-> k]
OFreeKept(w) == [op |-> "freekept", w |-> w]
OHandler(k) == [op |-> "handler", k |-> k]
ORaise == [op |-> "raise"]
OPoison(b) == [op |-> "poison", byte |-> b]
OSrand(k) == [op |-> "srand", k |-> k]
OLedger == [op |-> "ledger"]
OVerbose(w,v) == [op |-> "verbose", w |-> w, v |-> v]
NoStg == <<>>
OBBSetup(w,b,bi,ii,stg) == [op |-> "bbsetup", w |-> w, buf |-> b, bi |-> bi, ii |-> ii, bbstg |-> stg]
BBStg(maxit,abs,rel,itol,strat,eta,nsel) == [maxit |-> maxit, abs |-> abs, rel |-> rel, itol |-> itol, strat |-> strat, eta |-> eta, nsel |-> nsel]
OBBStg(w,n,v) == [op |-> "bbstg", w |-> w, name |-> n, val |-> v]
OBBSolve(w) == [op |-> "bbsolve", w |-> w]
OBBUpdh(w,i,v) == [op |-> "bbupdh", w |-> w, idx |-> i, val |-> v]
OBBUpdc(w,i,v) == [op |-> "bbupdc", w |-> w, idx |-> i, val |-> v]
OBBClean(w,k) == [op |-> "bbcleanup", w |-> w, keep |-> k]
OBBIdx(w) == [op |-> "bbidx", w |-> w]
=============================================================================
