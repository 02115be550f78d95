---------------------------- MODULE PollingTrace ----------------------------
(* Checks traces recorded from the real crate against Polling: a trace is    *)
(* accepted iff it is a behaviour of the specification.  Each call event     *)
(* also carries the result the call will have (from its ret event), so that  *)
(* the silent steps are determined up to their position.                     *)
EXTENDS Polling, Json, IOUtils

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES tid, l
tvars == <<vars, tid, l>>

Ev  == Traces[tid].ev
Len_ == Len(Ev)
Rng(q) == {q[i] : i \in DOMAIN q}

\* Registers: 2*tid is the furthest position reached, 2*tid+1 the kinds of the guards that
\* failed there.
TraceReport(kinds) ==
    LET r == TLCGet(2 * tid + 1) IN
    TLCSet(2 * tid + 1, IF r[1] = l THEN <<l, r[2] \cup {kinds}>>
                        ELSE IF r[1] < l THEN <<l, {kinds}>> ELSE r)

TraceInit ==
    /\ Init
    /\ l = 1
    /\ tid \in 1..Len(Traces)
    /\ TLCSet(2 * tid, 1) /\ TLCSet(2 * tid + 1, <<0, {}>>)

Is(x) == l <= Len_ /\ Ev[l].e = x /\ l' = l + 1 /\ UNCHANGED tid
E_ == Ev[l]

TrTime == /\ l <= Len_ /\ E_.t # now
          /\ Time(E_.t)
          /\ UNCHANGED <<l, tid>>
\* Every event is at the current time.
OnTime == E_.t = now

TrNew  == Is("new")  /\ OnTime /\ New(E_.p, Rng(E_.faults), [E_.res EXCEPT !.touch = Rng(@)])
TrDrop == Is("drop") /\ OnTime /\ Drop(E_.p, [E_.res EXCEPT !.touch = Rng(@)])
TrEvNew == Is("evnew") /\ OnTime /\ EvNew(E_.c, E_.req, E_.res)
TrEvClear == Is("evclear") /\ OnTime /\ EvClear(E_.c, E_.res)
TrEv   == Is("ev") /\ OnTime /\ EvValue(E_.first, E_.ops, E_.st, E_.r)
TrCall == Is("call") /\ OnTime /\ Call(E_.th, E_.o)
TrRet  == Is("ret") /\ OnTime /\ call[E_.th].op # "wait" /\ RetOther(E_.th, E_.r, Rng(E_.touch))
TrRetW == Is("ret") /\ OnTime /\ call[E_.th].op = "wait" /\ RetWait(E_.th, call[E_.th].res, E_.tk, Rng(E_.touch))
TrOpen == Is("env") /\ OnTime /\ E_.op = "open" /\ Open(E_.s, Rng(E_.cond))
TrClose == Is("env") /\ OnTime /\ E_.op = "close" /\ Close(E_.s)
TrEnv  == Is("env") /\ OnTime /\ E_.op \notin {"open", "close"} /\ Env(E_.s, Rng(E_.cond), Rng(E_.new))
TrBlk  == Is("blk") /\ OnTime /\ Blocks(E_.th)
TrSig  == Is("sig") /\ OnTime /\ Signal(E_.to)
TrQ    == Is("q") /\ OnTime /\ Quiesce(Rng(E_.bl), Rng(E_.pol), E_.unk, E_.noclo, E_.final, E_.tk)

SilentStep(t) ==
    LET o == call[t] IN
    CASE o.op = None -> FALSE
      [] o.op \in {"add", "mod", "del"} ->
            IF o.done THEN RegEffect(t, o.res.r) ELSE RegEffect(t, "ok")
      [] o.op = "notify" -> NotifyEffect(t)
      [] o.op = "wait" /\ ~o.done -> Acquire(t)
      [] o.op = "wait" /\ o.done /\ o.res.r = "ok" ->
            \/ Acquire(t)
            \/ o.res.n = 0 /\ Busy(t)
            \/ Collect(t, o.res.evs)
      [] OTHER -> Acquire(t) \/ WaitFail(t)
Silent ==
    /\ l <= Len_
    /\ \E t \in Threads : SilentStep(t)
    /\ UNCHANGED <<tid, l>>

TraceNext ==
    \/ TrTime \/ TrNew \/ TrDrop \/ TrEvNew \/ TrEvClear \/ TrEv \/ TrCall \/ TrRet \/ TrRetW
    \/ TrOpen \/ TrClose \/ TrEnv \/ TrSig \/ TrBlk \/ TrQ \/ Silent

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* Explored only while the trace is not accepted yet; remembers the progress made.
Progress ==
    /\ TLCGet(2 * tid) <= Len_
    /\ IF TLCGet(2 * tid) < l THEN TLCSet(2 * tid, l) ELSE TRUE

Verdict ==
    /\ \A i \in 1..Len(Traces) :
         TLCGet(2 * i) <= Len(Traces[i].ev) =>
            PrintT(<<"REJECTED", i, TLCGet(2 * i), TLCGet(2 * i + 1)>>)
    /\ PrintT(<<"VALIDATED", Len(Traces)>>)
=============================================================================
