----------------------------- MODULE PollingMC -----------------------------
(* Explores Polling exhaustively within small bounds, next to monitors that   *)
(* restate the properties over the history of calls and returns, without the  *)
(* state of the specification (armed, edge, pend, ...).  With every guard in  *)
(* force no monitor may fire: the guards are as strong as the properties.     *)
(* With the guards of one kind removed a monitor must fire: the guards are    *)
(* needed, and so is each monitor.  Receptive says that the guards are not    *)
(* too strong: a call in progress always has a permitted way to go on.        *)
EXTENDS Polling

CONSTANTS
    Modes, Interests, Conds, Caps,
    CondSteps,      \* <<conditions that end, conditions that begin>> of one step of the environment
    Timeouts,
    Budget,         \* calls per thread
    OpsOf(_),       \* what a thread calls
    MaxEv,          \* events in a batch
    MaxTicks,       \* steps of the environment
    Faulty,         \* whether calls are made during which the system may refuse something
    Target,         \* the property whose monitor is watched alone
    Bad             \* results that no guard permits are tried, too

VARIABLES h, out, left, ticks
mvars == <<vars, h, out, left, ticks>>

\* Values of the constants
StepsI  == {<<{}, {"I"}>>, <<{"I"}, {}>>}
StepsIH == StepsI \cup {<<{}, {"H"}>>}
StepsP  == StepsI \cup {<<{}, {"P"}>>, <<{"P"}, {}>>, <<{}, {"E"}>>}
StepsO  == StepsI \cup {<<{}, {"O"}>>, <<{"O"}, {}>>}
ToInf   == {Inf}
ToZero  == {Inf, TZero}
ToMs    == {Inf, <<0, 0, 1000000>>}
ToAll   == {Inf, TZero, <<0, 0, 1000000>>}
All(t)   == {"add", "mod", "del", "wait", "notify"}
Regs(t)  == {"add", "mod", "del", "wait"}
Notes(t) == {"wait", "notify"}
\* the first thread waits, the others do all else
Roles(t) == IF t = 1 THEN {"wait"} ELSE {"add", "mod", "del", "notify"}
Waits(t) == IF t = 1 THEN {"add", "wait"} ELSE {"wait", "notify"}

NoReport(kinds) == TRUE
Keys == {"1", "2"}
ms == <<0, 0, 1000000>>
Zero == [p \in Pollers |-> 0]

(* h.unc[p]: notify calls that have returned and that no wait has consumed    *)
(* h.snap[t]: how many of them the wait of t must consume                     *)
(* h.free[t]: a wait on the poller has collected or returned since t called   *)
(*            notify, or none but such a wait was there; h.used[t]: ... and that notification has been consumed  *)
(* h.oblige[t]: the wait of t must not block; h.owed[p]: nor the next one     *)
(* h.own[p][s]: key given last, or None; h.del[p]: keys whose source was deleted *)
(* h.deliv[p][s]: events since the last arming, 2 if that is not known; h.evt[p][s]: something new happened *)
(*            since the last event                                            *)
(* h.bad: monitors that fired                                                 *)
HInit == [unc |-> Zero, snap |-> [t \in Threads |-> 0], free |-> [t \in Threads |-> FALSE],
          used |-> [t \in Threads |-> FALSE], oblige |-> [t \in Threads |-> FALSE],
          owed |-> [p \in Pollers |-> FALSE],
          own |-> [p \in Pollers |-> [s \in Sources |-> None]], del |-> [p \in Pollers |-> {}],
          deliv |-> [p \in Pollers |-> [s \in Sources |-> 0]],
          evt |-> [p \in Pollers |-> [s \in Sources |-> FALSE]],
          bad |-> {}]

MCInit ==
    /\ plr  = [p \in Pollers |-> [alive |-> TRUE, pend |-> FALSE, timed |-> FALSE, edge |-> TRUE,
                                  batch |-> TRUE, ms |-> FALSE, dead |-> {}]]
    /\ reg  = [p \in Pollers |-> [s \in Sources |-> NoReg]]
    /\ cond = [s \in Sources |-> {}]
    /\ call = [t \in Threads |-> NoCall]
    /\ cont = [c \in Containers |-> [evs |-> <<>>, req |-> 1]]
    /\ now  = TZero
    /\ h = HInit
    /\ out = [t \in Threads |-> <<>>]
    /\ left = [t \in Threads |-> Budget]
    /\ ticks = MaxTicks

St(t) == IF call[t].op = None THEN None ELSE call[t].st
ContOf(t) == CHOOSE c \in Containers : c = "c" \o ToString(t)
Fire(b) == h' = [h EXCEPT !.bad = @ \cup b]
If(c, x) == IF c THEN {x} ELSE {}

Ready(p, s) == reg[p][s].on /\ cond[s] \cap Cover(reg[p][s]) # {}

Base(t, op, p) == [op |-> op, p |-> p, t |-> now, st |-> "new", sig |-> FALSE, blocked |-> FALSE, flt |-> FALSE, r |-> None]
WithFaults(o) == {[o EXCEPT !.flt = f] : f \in Faulty}

Begin(t) ==
    /\ call[t] = NoCall /\ left[t] > 0
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ UNCHANGED <<out, ticks>>
    /\ \E p \in Pollers :
       \/ /\ "notify" \in OpsOf(t)
          /\ Call(t, Base(t, "notify", p))
          /\ h' = [h EXCEPT !.used[t] = FALSE,
                         !.free[t] = Inside(p) # {} /\ \A u \in Inside(p) : call[u].st = "out"]
       \/ \E to \in Timeouts, cap \in Caps :
          /\ "wait" \in OpsOf(t)
          /\ \E o \in WithFaults(Base(t, "wait", p)) : Call(t, o @@ [to |-> to, cap |-> cap, c |-> ContOf(t)])
          /\ h' = [h EXCEPT !.snap[t] = h.unc[p], !.oblige[t] = FALSE]
       \/ \E s \in Sources, op \in OpsOf(t) \cap {"add", "mod"}, i \in Interests, m \in Modes, k \in Keys :
          /\ \E o \in WithFaults(Base(t, op, p)) : Call(t, o @@ [s |-> s, key |-> k, rd |-> "r" \in i, wr |-> "w" \in i, pri |-> "p" \in i, mode |-> m])
          /\ UNCHANGED h
       \/ \E s \in Sources :
          /\ "del" \in OpsOf(t)
          /\ \E o \in WithFaults(Base(t, "del", p)) : Call(t, o @@ [s |-> s])
          /\ UNCHANGED h

Reg(t, r) ==
    /\ RegEffect(t, r)
    /\ UNCHANGED <<out, left, ticks>>
    /\ LET o == call[t]  had == h.own[o.p][o.s] # None
           want == IF o.op = "add" THEN (IF had THEN "AlreadyExists" ELSE "ok")
                   ELSE (IF had THEN "ok" ELSE "NotFound")
           g == [h EXCEPT !.bad = @ \cup If(IF o.flt THEN r = "ok" /\ want # "ok" ELSE r # want, "C09")]
       IN h' = IF r # "ok" THEN g
               ELSE IF o.op = "del" THEN
                  [g EXCEPT !.own[o.p][o.s] = None, !.del[o.p] = IF had THEN @ \cup {h.own[o.p][o.s]} ELSE @]
               ELSE [g EXCEPT !.own[o.p][o.s] = o.key, !.deliv[o.p][o.s] = 0,
                              !.evt[o.p][o.s] = Ready(o.p, o.s)']

Notify(t) ==
    /\ NotifyEffect(t)
    /\ UNCHANGED <<h, out, left, ticks>>

RetN(t, r) ==
    /\ call[t].op = "notify"
    /\ RetOther(t, r, {})
    /\ UNCHANGED <<out, left, ticks>>
    /\ LET p == call[t].p  ins == Inside(p) IN
       h' = [h EXCEPT !.bad = @ \cup If(r # "ok", "C01"),
                      !.unc[p] = IF h.used[t] THEN @ ELSE IF @ < 2 THEN @ + 1 ELSE @,
                      !.oblige = IF h.free[t] THEN @ ELSE [u \in Threads |-> IF u \in ins THEN TRUE ELSE @[u]],
                      !.owed[p] = IF h.free[t] \/ ins # {} THEN @ ELSE TRUE]

RetR(t) ==
    /\ call[t].op \in {"add", "mod", "del"}
    /\ RetOther(t, "any", {})
    /\ UNCHANGED <<h, out, left, ticks>>

Acq(t) ==
    /\ Acquire(t)
    /\ UNCHANGED <<out, left, ticks>>
    /\ LET p == call[t].p IN
       h' = [h EXCEPT !.bad = @ \cup If(\E u \in Waiting(p) : call[u].st = "in", "C10"),
                      !.oblige[t] = @ \/ h.owed[p], !.owed[p] = FALSE]

Turned(t) == Busy(t) /\ UNCHANGED <<h, out, left, ticks>>

BatchEv == {EventOf(k, c) : k \in Keys, c \in SUBSET Conds}
\* Batches of events a wait might deliver, right or wrong.
Batches == {<<>>} \cup {<<e>> : e \in BatchEv} \cup (IF MaxEv > 1 THEN {<<e, f>> : e, f \in BatchEv} ELSE {})

Coll(t, E) ==
    /\ Collect(t, E)
    /\ out' = [out EXCEPT ![t] = E]
    /\ UNCHANGED <<left, ticks>>
    /\ LET o == call[t]  p == o.p
           late == o.to # Inf /\ TLe(TAdd(o.t, o.to), now)
           keys == {E[i].k : i \in DOMAIN E}
           srcs(k) == {s \in Sources : h.own[p][s] = k}
           \* when keys are unique, the source of an event is known
           known == {s \in Sources : h.own[p][s] \in keys /\ Cardinality(srcs(h.own[p][s])) = 1}
           quiet == {s \in Sources : h.own[p][s] # None /\ h.own[p][s] \notin keys}
           mode(s) == reg[p][s].mode
           others == {u \in Threads : call[u].op = "notify" /\ call[u].p = p /\ ~h.used[u]}
           empty == E = <<>> /\ ~late
           noReason == empty /\ h.unc[p] = 0 /\ others = {}
           rest == h.unc[p] - h.snap[t]
           eat == empty /\ h.snap[t] = 0
           unc1 == IF eat /\ rest > 0 THEN rest - 1 ELSE rest
           b == If(noReason, "C02")
                \cup If(\E k \in keys : srcs(k) = {} /\ k \in h.del[p], "C17")
                \cup If(\E k \in keys : srcs(k) = {} /\ k \notin h.del[p], "C08")
                \cup If(\E s \in known : Oneshot(mode(s)) /\ h.deliv[p][s] = 1, "C04")
                \cup If(\E s \in known : mode(s) = "L" /\ ~Ready(p, s), "C05")
                \cup If(\E s \in known : Edge(mode(s)) /\ ~h.evt[p][s], "C06")
                \cup If(\E s \in known : ~Ready(p, s), "C08")
                \cup If(\E i \in DOMAIN E : \E s \in known : E[i].k = h.own[p][s] /\ Ready(p, s)
                           /\ E[i] # EventOf(E[i].k, cond[s] \cap Cover(reg[p][s])), "C08")
                \cup If(\E i, j \in DOMAIN E : i # j /\ \E s \in known : E[i].k = h.own[p][s] /\ E[j].k = h.own[p][s], "C08")
                \cup If(Len(E) > o.cap, "C16")
                \* nothing to consume, room in the batch, and yet something ready is left out
                \cup If(h.unc[p] = 0 /\ others = {} /\ ~late /\ Len(E) < o.cap /\
                        \E s \in quiet : Ready(p, s) /\ CASE mode(s) = "L" -> TRUE
                                                            [] mode(s) = "O" -> h.deliv[p][s] = 0
                                                            [] OTHER -> FALSE, "C07")
       IN h' = [h EXCEPT !.bad = @ \cup b,
                  !.unc[p] = unc1,
                  !.snap = [u \in Threads |-> IF u = t THEN 0 ELSE IF @[u] < unc1 THEN @[u] ELSE unc1],
                  !.used = [u \in Threads |-> IF call[u].op = "notify" /\ call[u].p = p
                                                 /\ (~eat \/ rest = 0) /\ St(u) = "done" THEN TRUE ELSE @[u]],
                  !.free = [u \in Threads |-> IF call[u].op = "notify" /\ call[u].p = p THEN TRUE ELSE @[u]],
                  !.deliv[p] = [s \in Sources |-> IF s \in known THEN 1 ELSE IF h.own[p][s] \in keys THEN 2 ELSE @[s]],
                  !.evt[p] = [s \in Sources |-> IF s \in known THEN FALSE ELSE @[s]]]

\* res: what the caller sees; wrong counts are among the possibilities.
RetW(t, n, evs) ==
    /\ call[t].op = "wait" /\ call[t].st \in {"out", "busy"}
    /\ LET o == call[t]  p == o.p  old == cont[o.c].evs IN
       /\ RetWait(t, [r |-> "ok", n |-> n, len |-> Len(evs), emp |-> evs = <<>>, evs |-> evs], TZero, {})
       /\ out' = [out EXCEPT ![t] = <<>>]
       /\ UNCHANGED <<left, ticks>>
       /\ h' = [h EXCEPT !.bad = @ \cup If(o.st = "out" /\ n # Len(evs), "C16")
                                   \cup If(o.st = "busy" /\ n # 0, "C10")
                                   \cup If(o.st = "busy" /\ evs # old, "C16")
                                   \cup If(o.st = "busy" /\ o.blocked, "C10")
                                   \cup If(o.st = "out" /\ o.to # Inf /\ ~TLe(now, TAdd(TAdd(o.t, o.to), ms)), "C03"),
                         !.oblige[t] = FALSE,
                         !.free = [u \in Threads |-> IF call[u].op = "notify" /\ call[u].p = p THEN TRUE ELSE @[u]]]

\* What the wait that fails was obliged to consume is left for the next one.
Fail(t) ==
    /\ WaitFail(t)
    /\ h' = [h EXCEPT !.bad = @ \cup If(~call[t].flt, "C20"), !.oblige[t] = FALSE, !.snap[t] = 0,
                     !.owed[call[t].p] = @ \/ h.oblige[t]]
    /\ UNCHANGED <<out, left, ticks>>
RetErr(t, evs) ==
    /\ St(t) = "err"
    /\ RetWait(t, [r |-> "Other", n |-> 0, len |-> 0, emp |-> TRUE, evs |-> evs], TZero, {})
    /\ h' = [h EXCEPT !.bad = @ \cup If(evs # <<>> /\ evs # cont[call[t].c].evs, "C20")]
    /\ UNCHANGED <<out, left, ticks>>

Change(s) ==
    \E x \in CondSteps :
    /\ x[1] \subseteq cond[s] \/ x[1] = {}
    /\ LET c == (cond[s] \ x[1]) \cup x[2] IN
       /\ ticks > 0 /\ ticks' = ticks - 1
       /\ Env(s, c, x[2])
       /\ h' = [h EXCEPT !.evt = [p \in Pollers |-> IF reg[p][s].on /\ x[2] \cap Cover(reg[p][s]) # {}
                                                    THEN [@[p] EXCEPT ![s] = TRUE]
                                                    \* the kernel may report a change of any kind
                                                    ELSE IF reg[p][s].on THEN [@[p] EXCEPT ![s] = TRUE] ELSE @[p]]]
       /\ UNCHANGED <<out, left>>

Tick == /\ ticks > 0 /\ ticks' = ticks - 1
        /\ \E t \in Threads : call[t].op = "wait" /\ call[t].to \notin {Inf, TZero}
        /\ Time(TAdd(now, ms))
        /\ UNCHANGED <<h, out, left>>

\* No thread runs any more: those in a call are stuck.
Stuck ==
    LET bl == {t \in Threads : call[t].op # None} IN
    /\ bl # {}
    /\ \A t \in bl : ~call[t].blocked
    /\ \A t \in bl : call[t].st \notin {"out", "busy", "done", "err"}
    /\ Quiesce({[th |-> t, st |-> "fds"] : t \in bl}, {}, 0, 0, FALSE, TZero)
    /\ UNCHANGED <<out, left, ticks>>
    /\ Fire(UNION {LET o == call[t]  p == o.p IN
               If(o.op # "wait", "C11")
               \cup If(o.op = "wait" /\ o.st = "new" /\ \E u \in bl \ {t} : call[u].op = "wait" /\ call[u].p = p, "C10")
               \cup If(o.op = "wait" /\ h.oblige[t], "C01")
               \cup If(o.op = "wait" /\ o.st = "in" /\ \E s \in Sources : h.own[p][s] # None /\ Ready(p, s) /\
                         (reg[p][s].mode = "L" \/ (reg[p][s].mode = "O" /\ h.deliv[p][s] = 0)), "C07")
               \cup If(o.op = "wait" /\ o.st = "in" /\ o.to = TZero, "C03")
               \cup If(o.op = "wait" /\ o.st = "in" /\ o.to # Inf /\ ~TLe(now, TAdd(TAdd(o.t, o.to), ms)), "C03")
               : t \in bl})

Results == {"ok", "AlreadyExists", "NotFound"}
MCNext ==
    \/ \E t \in Threads :
        \/ Begin(t) \/ Notify(t) \/ RetR(t) \/ Acq(t) \/ Turned(t) \/ Fail(t)
        \/ RetN(t, "ok")
        \/ (Bad /\ RetN(t, "Other"))
        \/ \E evs \in {<<>>} \cup {<<e>> : e \in BatchEv} : RetErr(t, evs)
        \/ \E r \in Results : Reg(t, r)
        \/ \E E \in Batches : Coll(t, E)
        \/ St(t) = "out" /\ RetW(t, Len(out[t]), out[t])
        \/ St(t) = "busy" /\ RetW(t, 0, cont[call[t].c].evs)
        \/ (Bad /\ St(t) = "out" /\ RetW(t, Len(out[t]) + 1, out[t]))
        \/ (Bad /\ St(t) = "busy" /\ RetW(t, 1, cont[call[t].c].evs))
        \/ (Bad /\ St(t) = "busy" /\ RetW(t, 0, <<>>))
    \/ \E s \in Sources : Change(s)
    \/ Tick \/ Stuck
MCSpec == MCInit /\ [][MCNext]_mvars

Clean == h.bad = {}
NotTarget == Target \notin h.bad
\* Exploration ends where a monitor has fired.
Going == h.bad = {}

\* The guards leave every call a way to go on.
Receptive ==
    \A t \in Threads :
      LET o == call[t] IN
      /\ o.op \in {"add", "mod", "del"} /\ o.st = "new" => ENABLED (\E r \in Results : RegEffect(t, r))
      /\ o.op = "notify" /\ o.st = "new" => ENABLED NotifyEffect(t)
      /\ o.op = "wait" /\ o.st = "new" => ENABLED (Acquire(t)) \/ ENABLED (Busy(t))
      /\ o.op = "wait" /\ o.st = "in" /\ (plr[o.p].pend \/ MustSet(o.p) # {} \/ (o.to # Inf /\ Expired(o)))
            => ENABLED (\E E \in Batches : Collect(t, E))

\* What happens on one poller leaves the others alone.
Independent ==
    [][\A p \in Pollers :
        (\A t \in Threads : (call[t].op # None /\ call[t].p = p) => call'[t] = call[t])
        /\ (\A t \in Threads : (call'[t].op # None /\ call'[t].p = p) => call'[t] = call[t])
        /\ cond' = cond
        => (plr'[p] = plr[p] /\ reg'[p] = reg[p])]_mvars

\* With fair threads a wait that must return does.
Fair == \A t \in Threads :
          /\ WF_mvars(\E E \in Batches : Coll(t, E))
          /\ WF_mvars(Acq(t) \/ Turned(t) \/ Notify(t) \/ RetN(t, "ok") \/ RetR(t) \/ \E r \in Results : Reg(t, r))
          /\ WF_mvars(RetW(t, Len(out[t]), out[t]) \/ (St(t) = "busy" /\ RetW(t, 0, cont[call[t].c].evs)))
LiveSpec == MCSpec /\ Fair
Returns == \A t \in Threads : (call[t].op = "wait" /\ h.oblige[t]) ~> (call[t].op = None)
OpsReturn == \A t \in Threads : (call[t].op \in {"add", "mod", "del", "notify"}) ~> (call[t].op = None)
=============================================================================
