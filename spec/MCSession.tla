---------------------------- MODULE MCSession ----------------------------
(* Exhaustive exploration of Session over small constants. The history is
   bounded, hidden from nothing: it is what HistoryIsData compares against.  *)
EXTENDS Session
CONSTANTS Bufs, Wss, Vals, MaxHist, Sets
VARIABLE st
Pm(v) == [n |-> 1, m |-> 2, p |-> 0, l |-> 2, q |-> <<>>, e |-> 0, Gjc |-> 0, Gir |-> 0, Ajc |-> 0, Air |-> 0,
          Gpr |-> v, Apr |-> v, c |-> <<v>>, h |-> <<v,v>>, b |-> v]
Ops == [op : {"prob"}, buf : Bufs, P : {Pm(v) : v \in Vals}]
  \cup [op : {"setup","badsetup"}, w : Wss, buf : Bufs]
  \cup [op : {"bbsetup"}, w : Wss, buf : Bufs, bi : {<<0>>}, ii : {<<>>}, bbstg : {<<>>}]
  \cup [op : {"bbstg"}, w : Wss, name : Sets, val : {7,1001}]
  \cup [op : {"inj"}, w : Wss, kind : {1}, at : {0}]
  \cup [op : {"solve","bbsolve","freekept"}, w : Wss]
  \cup [op : {"updh","updc","bbupdh","bbupdc"}, w : Wss, idx : {0,1}, val : Vals]
  \cup [op : {"upd"}, w : Wss, buf : Bufs]
  \cup [op : {"inplace"}, w : Wss, P : {Pm(v) : v \in Vals}]
  \cup [op : {"cleanup","bbcleanup"}, w : Wss, keep : {0,2}]
  \cup [op : {"handler"}, k : {0,1}]
Init == st = Init0(Bufs,Wss)
Next == \E o \in Ops : Enabled(st,o) /\ st' = Step(st,o)
Spec == Init /\ [][Next]_st
Bound == \A w \in Wss : Len(st.ws[w].hist) <= MaxHist
Inv0 == Inv(st)
(* a solve changes neither data nor handler; only the owner's operations touch a buffer *)
Frame == [][ \A w \in Wss : (Open(st,w) /\ st'.ws[w].ph = "open" /\ st.ws[w].P # st'.ws[w].P)
               => \A v \in Wss \ {w} : st'.ws[v] = st.ws[v] ]_st
BackStays == [][ \A b \in Bufs : (st.buf[b].use = "back" /\ st'.buf[b].use = "back") => st'.buf[b].P = st.buf[b].P ]_st
=============================================================================
