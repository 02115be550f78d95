------------------------------ MODULE Polling ------------------------------
(***************************************************************************)
(* What a user of the polling crate can observe: pollers, sources, threads *)
(* calling new/add/modify/delete/notify/wait/drop, readiness of sources,   *)
(* time and signals.                                                       *)
(*                                                                         *)
(* Every API call is three kinds of step: Call, silent steps in which the  *)
(* call takes effect (one for registration calls and notify; Acquire and   *)
(* Collect for wait), and Ret.  The silent steps are the linearization     *)
(* points.  Environment steps (readiness, time) are atomic.                *)
(*                                                                         *)
(* The guarantees are the guards of these steps.  Each guard carries the   *)
(* set of names ("kinds") of the guarantees it belongs to, and is in force *)
(* iff one of them is in Enabled: a checker of one property enforces the   *)
(* guards of that property and follows the observed behaviour otherwise.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, PTime

CONSTANTS
    Pollers, Sources, Threads, Containers,
    Enabled,        \* kinds in force
    Report(_)       \* called with the kinds of a guard that fails (diagnosis)

MaxKey == "18446744073709551615"
None   == "none"

VARIABLES
    plr,    \* [Pollers -> NoPoller or poller record]
    reg,    \* [Pollers -> [Sources -> NoReg or registration record]]
    cond,   \* [Sources -> set of conditions that hold, or Closed]
    call,   \* [Threads -> NoCall or the API call in progress]
    cont,   \* [Containers -> [evs, req]] events containers: content, requested capacity
    now     \* time

vars == <<plr, reg, cond, call, cont, now>>

(***************************************************************************)
(* Conditions: "I" input, "P" priority, "O" output, "H" hang-up, "E" error *)
(***************************************************************************)
NoPoller == [alive |-> FALSE]
NoReg    == [on |-> FALSE]
NoCall   == [op |-> None]
Closed   == {"closed"}

\* Guard: cond must hold unless none of its kinds is being checked.
Chk(kinds, c) == IF c THEN TRUE
                 ELSE IF kinds \cap Enabled = {} THEN TRUE
                 ELSE Report(kinds) /\ FALSE

Init ==
    /\ plr  = [p \in Pollers |-> NoPoller]
    /\ reg  = [p \in Pollers |-> [s \in Sources |-> NoReg]]
    /\ cond = [s \in Sources |-> Closed]
    /\ call = [t \in Threads |-> NoCall]
    /\ cont = [c \in Containers |-> [evs |-> <<>>, req |-> 1]]
    /\ now  = TZero

---------------------------------------------------------------------------
(* Interest and readiness *)

Oneshot(m) == m \in {"O", "EO"}
Edge(m)    == m \in {"E", "EO"}

Cover(r) == {"H", "E"} \cup (IF r.rd THEN {"I", "P"} ELSE {})
                       \cup (IF r.wr THEN {"O"} ELSE {})
                       \cup (IF r.pri THEN {"P"} ELSE {})

\* The conditions of s that registration r is about.
Rev(r, s) == cond[s] \cap Cover(r)

\* The event that reports conditions c for key k.
EventOf(k, c) == [k   |-> k,
                  rd  |-> c \cap {"I", "P", "H", "E"} # {},
                  wr  |-> c \cap {"O", "H", "E"} # {},
                  pri |-> "P" \in c,
                  hup |-> "H" \in c,
                  err |-> "E" \in c,
                  cf  |-> {"H", "E"} \subseteq c]

\* A wait must be able to deliver s now / is allowed to deliver s now.
Must(p, s) == LET r == reg[p][s] IN
    /\ r.on /\ Rev(r, s) # {}
    /\ Oneshot(r.mode) => r.armed
    /\ Edge(r.mode) => r.edge = "must"
May(p, s) == LET r == reg[p][s] IN
    /\ r.on /\ Rev(r, s) # {}
    /\ Oneshot(r.mode) => r.armed
    /\ Edge(r.mode) => r.edge # "no"

MustSet(p) == {s \in Sources : Must(p, s)}
MaySet(p)  == {s \in Sources : May(p, s)}

\* Kinds for a source that should be reported and is not / should not and is.
Extra(p, s) == LET r == reg[p][s] IN
    (IF r.failed THEN {"after_fail"} ELSE {}) \cup (IF r.again THEN {"after_readd"} ELSE {})
      \cup (IF r.during THEN {"after_during"} ELSE {})
      \cup (IF ~(r.rd \/ r.wr \/ r.pri) THEN {"none_interest"} ELSE {})
      \cup (IF cond[s] \cap {"P", "H", "E"} # {} THEN {"extra_cond"} ELSE {})
MissKinds(p, s) == LET m == reg[p][s].mode IN
    {"miss"} \cup (IF m = "L" THEN {"miss_level"} ELSE {})
             \cup (IF Edge(m) THEN {"miss_edge"} ELSE {})
             \cup (IF Oneshot(m) THEN {"miss_oneshot"} ELSE {})
             \cup Extra(p, s)
             \cup (IF Rev(reg[p][s], s) \subseteq {"P", "H", "E"} THEN {"miss_extra"} ELSE {})

---------------------------------------------------------------------------
(* Pollers *)

Waiting(p)   == {t \in Threads : call[t].op = "wait" /\ call[t].p = p}
Inside(p)    == {t \in Waiting(p) : call[t].st \in {"in", "out"}}

Tolerated == {"eventfd", "timerfd_create", "pipe2"}

\* res: [r, nfd, noclo, edge, lvl, batch, touch]; faults: set of names
New(p, faults, res) ==
    /\ ~plr[p].alive
    /\ Chk({"new_fail"}, (faults \subseteq Tolerated) => res.r = "ok")
    /\ Chk({"new_hidden"}, ("epoll_create" \in faults /\ res.batch) => res.r # "ok")
    /\ Chk({"panic"}, res.r # "panic")
    /\ Chk({"leak"}, res.r # "ok" => res.nfd = 0)
    /\ Chk({"cloexec"}, res.noclo = 0)
    /\ Chk({"touch"}, res.touch = {})
    /\ Chk({"support"}, res.lvl)
    /\ plr' = IF res.r = "ok"
              THEN [plr EXCEPT ![p] = [alive |-> TRUE, pend |-> FALSE, timed |-> FALSE,
                                       edge |-> res.edge, batch |-> res.batch, ms |-> res.ms,
                                       dead |-> {}]]
              ELSE plr
    /\ reg' = [reg EXCEPT ![p] = [s \in Sources |-> NoReg]]
    /\ UNCHANGED <<cond, call, cont, now>>

Drop(p, res) ==
    /\ plr[p].alive
    /\ \A t \in Threads : call[t].op # None => call[t].p # p
    /\ Chk({"panic"}, res.r = "ok")
    /\ Chk({"leak"}, res.left = 0)
    /\ Chk({"touch"}, res.touch = {})
    /\ plr' = [plr EXCEPT ![p] = NoPoller]
    /\ reg' = [reg EXCEPT ![p] = [s \in Sources |-> NoReg]]
    /\ UNCHANGED <<cond, call, cont, now>>

---------------------------------------------------------------------------
(* Calls *)

\* o: the call with its arguments; o.st = "new".
Call(t, o) ==
    /\ call[t] = NoCall
    /\ plr[o.p].alive
    /\ call' = [call EXCEPT ![t] = o]
    /\ plr' = IF o.op = "wait" /\ o.to # Inf
              THEN [plr EXCEPT ![o.p].timed = TRUE] ELSE plr
    /\ UNCHANGED <<reg, cond, cont, now>>

(* -- registration -- *)

\* The errors that apply to registration call o.
Errs(o) ==
    (IF o.op # "del" /\ o.key = MaxKey THEN {"InvalidInput"} ELSE {})
    \cup (IF o.op = "add" /\ reg[o.p][o.s].on THEN {"AlreadyExists"} ELSE {})
    \cup (IF o.op # "add" /\ ~reg[o.p][o.s].on THEN {"NotFound"} ELSE {})
    \cup (IF o.op # "del" /\ Edge(o.mode) /\ ~plr[o.p].edge THEN {"Unsupported"} ELSE {})

NewReg(o, old) ==
    LET r == [on |-> TRUE, key |-> o.key, rd |-> o.rd, wr |-> o.wr, pri |-> o.pri,
              mode |-> o.mode, armed |-> TRUE, edge |-> "no", failed |-> FALSE,
              again |-> (IF o.op = "add" \/ ~old.on THEN o.s \in plr[o.p].dead ELSE old.again),
              during |-> Inside(o.p) # {}, skip |-> 0,
              keys |-> (IF old.on THEN old.keys \cup {old.key} ELSE {})]
    IN [r EXCEPT !.edge = IF Rev(r, o.s) # {} THEN "must" ELSE "no"]

\* Registration call takes effect with result r.  o.flt: the system may refuse what the call needs;
\* then it may fail, as a whole, in other ways, too.
RegEffect(t, r) ==
    LET o == call[t]  e == Errs(o)  old == reg[o.p][o.s] IN
    /\ o.op \in {"add", "mod", "del"} /\ o.st = "new"
    /\ Chk({"res"} \cup (IF e = {"Unsupported"} THEN {"res_edge"} ELSE {}),
           e # {} => r \in e \/ (o.flt /\ r # "ok"))
    /\ Chk({"res", "res_unexpected"} \cup (IF o.op # "del" /\ Edge(o.mode) THEN {"res_edge"} ELSE {})
             \cup (IF o.op = "add" /\ o.s \in plr[o.p].dead THEN {"after_readd"} ELSE {}),
           e = {} => r = "ok" \/ o.flt)
    /\ call' = [call EXCEPT ![t].st = "done"]
    /\ IF r # "ok" THEN
          /\ reg' = IF old.on THEN [reg EXCEPT ![o.p][o.s].failed = TRUE] ELSE reg
          /\ UNCHANGED plr
       ELSE IF o.op = "del" THEN
          /\ reg' = [reg EXCEPT ![o.p][o.s] = NoReg]
          /\ plr' = IF old.on THEN [plr EXCEPT ![o.p].dead = @ \cup {o.s, old.key} \cup old.keys] ELSE plr
       ELSE
          /\ reg' = [reg EXCEPT ![o.p][o.s] = NewReg(o, old)]
          /\ UNCHANGED plr
    /\ UNCHANGED <<cond, cont, now>>

(* -- notify -- *)

\* The notification is left for the wait in progress or else the next one, or it is absorbed by a
\* wait that has already collected its result but has not returned, if no other is in progress.
NotifyEffect(t) ==
    LET o == call[t] IN
    /\ o.op = "notify" /\ o.st = "new"
    /\ call' = [call EXCEPT ![t].st = "done"]
    /\ \E b \in (IF Inside(o.p) # {} /\ \A u \in Inside(o.p) : call[u].st = "out" THEN {TRUE, plr[o.p].pend} ELSE {TRUE}) :
         plr' = [plr EXCEPT ![o.p].pend = b]
    /\ UNCHANGED <<reg, cond, cont, now>>

(* -- wait -- *)

Acquire(t) ==
    LET o == call[t] IN
    /\ o.op = "wait" /\ o.st = "new"
    /\ Chk({"two_waiters"}, \A u \in Inside(o.p) : call[u].st = "out")
    /\ call' = [call EXCEPT ![t].st = "in"]
    /\ UNCHANGED <<plr, reg, cond, cont, now>>

\* Turned away because another thread is inside wait.
Busy(t) ==
    LET o == call[t] IN
    /\ o.op = "wait" /\ o.st = "new"
    /\ Inside(o.p) # {}
    /\ call' = [call EXCEPT ![t].st = "busy"]
    /\ UNCHANGED <<plr, reg, cond, cont, now>>

\* Where the system call takes milliseconds, long timeouts may be cut to 24 days.
Days24 == <<0, 2073600, 0>>
Expired(o) == \/ TLe(TAdd(o.t, o.to), now)
              \/ plr[o.p].ms /\ TLe(Days24, o.to) /\ TLe(TAdd(o.t, Days24), now)

\* Sources an event may belong to.
Cands(p, e) == {s \in Sources : reg[p][s].on /\ reg[p][s].key = e.k}
RECURSIVE Assign(_)
Assign(cs) == IF cs = <<>> THEN {<<>>}
              ELSE {<<x>> \o y : x \in (IF Head(cs) = {} THEN {None} ELSE Head(cs)), y \in Assign(Tail(cs))}

\* Event e, attributed to source s, is right.
EventOk(o, s, e, left) ==
    IF s = None THEN
        Chk(left \cup (IF e.k = MaxKey THEN {"internal"}
                       ELSE IF e.k \in plr[o.p].dead THEN {"ghost"}
                       ELSE {"key"}), FALSE)
    ELSE
      LET r == reg[o.p][s]  c == Rev(r, s)  x == EventOf(e.k, c)  z == left \cup Extra(o.p, s) IN
      /\ Chk({"nocond"} \cup z \cup (IF r.mode = "L" THEN {"level_after"} ELSE {}), c # {})
      /\ Chk({"oneshot_repeat"} \cup z, Oneshot(r.mode) => r.armed)
      /\ Chk({"edge_repeat"} \cup z, (Edge(r.mode) /\ c # {} /\ r.armed) => r.edge # "no")
      /\ c # {} => /\ Chk({"flags"} \cup Extra(o.p, s), e.rd = x.rd /\ e.wr = x.wr)
                   /\ Chk({"flags", "flags_extra"}, e.pri = x.pri /\ e.hup = x.hup /\ e.err = x.err)
                   \* a failed connection: certain with both conditions, excluded with neither
                   /\ Chk({"flags_extra"}, (x.cf => e.cf) /\ (e.cf => x.hup \/ x.err))

\* The wait takes its result: events E (a sequence of event records).
Collect(t, E) ==
    LET o == call[t]  p == o.p  old == cont[o.c].evs IN
    /\ o.op = "wait" /\ o.st = "in"
    /\ \E a \in Assign([i \in 1..Len(E) |-> Cands(p, E[i])]) :
       LET got == {a[i] : i \in 1..Len(E)} \ {None} IN
       /\ \A i \in 1..Len(E) :
            EventOk(o, a[i], E[i], IF \E j \in 1..Len(old) : old[j] = E[i] THEN {"leftover"} ELSE {})
       /\ Chk({"dup"}, \A i, j \in 1..Len(E) : (i # j /\ a[i] # None) => a[i] # a[j])
       \* an empty return needs a reason
       /\ (E = <<>>) =>
             Chk(IF o.to = Inf THEN {"spurious"} ELSE {"spurious", "early"},
                 plr[p].pend \/ (o.to # Inf /\ Expired(o)))
       \* nothing that can be reported is held back, unless the batch is full or the wait
       \* does no more than consume a notification
       /\ LET internal == (IF plr[p].pend THEN 1 ELSE 0) + (IF o.to # Inf /\ Expired(o) THEN 1 ELSE 0)
              full == plr[p].batch /\ Len(E) + internal >= o.cap
          IN /\ IF full \/ (E = <<>> /\ plr[p].pend) THEN TRUE
                ELSE \A s \in MustSet(p) \ got : Chk(MissKinds(p, s), FALSE)
             \* what a full batch leaves out comes next: others do not overtake it again and again
             /\ full => \A s \in MustSet(p) \ got :
                           Chk({"starved"}, reg[p][s].skip < 2 + Cardinality({u \in Sources : reg[p][u].on}))
             /\ reg' = [reg EXCEPT ![p] = [s \in Sources |->
                    IF s \in got
                    THEN [@[s] EXCEPT !.armed = IF Oneshot(reg[p][s].mode) THEN FALSE ELSE @,
                                      !.edge = IF Edge(reg[p][s].mode) THEN "no" ELSE @,
                                      !.skip = 0]
                    ELSE IF s \in MustSet(p) THEN [@[s] EXCEPT !.skip = IF full THEN @ + 1 ELSE @]
                    ELSE IF reg[p][s].on THEN [@[s] EXCEPT !.skip = 0] ELSE @[s]]]
    /\ Chk({"batch"}, plr[p].batch => Len(E) <= o.cap)
    /\ plr' = [plr EXCEPT ![p].pend = FALSE]
    /\ call' = [call EXCEPT ![t].st = "out"]
    /\ UNCHANGED <<cond, cont, now>>

\* The wait fails: no reason to as long as the system does its part.  Notifications, registrations
\* and events are still there for the next one.
WaitFail(t) ==
    LET o == call[t] IN
    /\ o.op = "wait" /\ o.st \in {"in", "new"}
    /\ Chk({"wait_error"}, o.flt)
    /\ call' = [call EXCEPT ![t].st = "err"]
    /\ UNCHANGED <<plr, reg, cond, cont, now>>

(* -- returns -- *)

ms1 == <<0, 0, 1000000>>

RetOther(t, r, touch) ==
    /\ call[t].op \in {"add", "mod", "del", "notify"} /\ call[t].st = "done"
    /\ call[t].op = "notify" => Chk({"notify_error"}, r = "ok")
    /\ Chk({"panic"}, r # "panic")
    /\ Chk({"touch"}, touch = {})
    /\ call' = [call EXCEPT ![t] = NoCall]
    /\ UNCHANGED <<plr, reg, cond, cont, now>>

\* res: [r, n, len, emp, evs]; slack: time that passed because of reading the clock etc.
RetWait(t, res, slack, touch) ==
    LET o == call[t] IN
    /\ o.op = "wait"
    /\ \/ /\ o.st = "out" /\ res.r = "ok"
          /\ Chk({"count"}, /\ res.n = Len(res.evs) /\ res.len = res.n
                            /\ res.emp <=> (res.len = 0))
          /\ Chk({"late"}, o.to # Inf => TLe(now, TAdd(TAdd(TAdd(o.t, o.to), ms1), slack)))
          /\ cont' = [cont EXCEPT ![o.c].evs = res.evs]
       \/ /\ o.st = "busy" /\ res.r = "ok"
          /\ Chk({"busy_events", "count"}, res.n = 0)
          /\ Chk({"busy_events"}, res.evs = <<>> \/ res.evs = cont[o.c].evs)
          /\ Chk({"busy_touch"}, res.evs = cont[o.c].evs)
          /\ Chk({"busy_blocked"}, ~o.blocked)
          /\ cont' = [cont EXCEPT ![o.c].evs = res.evs]
       \/ /\ o.st = "err" /\ res.r # "ok"
          /\ Chk({"panic"}, res.r # "panic")
          /\ Chk({"fail_events"}, res.evs = <<>> \/ res.evs = cont[o.c].evs)
          /\ cont' = [cont EXCEPT ![o.c].evs = res.evs]
    /\ Chk({"touch"}, touch = {})
    /\ Chk({"capacity"}, o.cap >= cont[o.c].req)
    /\ call' = [call EXCEPT ![t] = NoCall]
    /\ UNCHANGED <<plr, reg, cond, now>>

---------------------------------------------------------------------------
(* Environment *)

\* Source s now has conditions c; new: conditions for which there was a new event.
Env(s, c, new) ==
    /\ cond' = [cond EXCEPT ![s] = c]
    /\ reg' = [p \in Pollers |->
        IF reg[p][s].on /\ Edge(reg[p][s].mode)
        THEN [reg[p] EXCEPT ![s].edge = IF new \cap Cover(reg[p][s]) # {} THEN "must"
                                        ELSE IF @ = "no" THEN "may" ELSE @]
        ELSE reg[p]]
    /\ UNCHANGED <<plr, call, cont, now>>

Open(s, c) ==
    /\ cond[s] = Closed
    /\ cond' = [cond EXCEPT ![s] = c]
    /\ UNCHANGED <<plr, reg, call, cont, now>>

\* Sources are deleted from every poller before they are closed.
Close(s) ==
    /\ \A p \in Pollers : ~reg[p][s].on
    /\ cond' = [cond EXCEPT ![s] = Closed]
    /\ UNCHANGED <<plr, reg, call, cont, now>>

Time(x) ==
    /\ TLe(now, x)
    /\ now' = x
    /\ UNCHANGED <<plr, reg, cond, call, cont>>

---------------------------------------------------------------------------
(* Quiescence: no thread can take a step.  bl: the threads that have not   *)
(* returned, with the way they are stuck; pol: readiness of the pollers'   *)
(* own descriptors; final: all finite timeouts have passed.                *)

BlockedOk(t, st, slack, final) ==
    LET o == call[t]  p == o.p IN
    /\ o.op # None
    /\ Chk({"op_blocked"}, o.op = "wait")
    /\ Chk({"spin"}, st # "spin")
    /\ o.op = "wait" =>
        /\ \/ o.st = "in"
           \/ /\ o.st \in {"new", "busy"}
              /\ \E u \in Inside(p) : u # t
              /\ Chk({"busy_blocked"}, FALSE)
        /\ o.st = "in" =>
            /\ Chk({"lost_notify"} \cup (IF o.sig THEN {"sig_lost"} ELSE {}), ~plr[p].pend)
            /\ \A s \in MustSet(p) :
                 Chk(MissKinds(p, s) \cup {"lost_ready"} \cup (IF o.sig THEN {"sig_lost"} ELSE {}), FALSE)
            /\ o.to # Inf =>
                /\ Chk({"zero_blocks"}, o.to # TZero)
                /\ Chk({"late"}, TLe(now, TAdd(TAdd(TAdd(o.t, o.to), ms1), slack)))
                /\ Chk({"late"}, ~final)

Pollable(p, b) ==
    (plr[p].alive /\ Waiting(p) = {}) =>
        /\ Chk({"pollable"}, b => (plr[p].pend \/ plr[p].timed \/ MaySet(p) # {}))
        /\ Chk({"pollable"}, ~b => (~plr[p].pend /\ MustSet(p) = {}))

Quiesce(bl, pol, unk, noclo, final, slack) ==
    /\ \A t \in Threads : call[t].op # None <=> \E b \in bl : b.th = t
    /\ \A b \in bl : BlockedOk(b.th, b.st, slack, final)
    /\ \A x \in pol : Pollable(x[1], x[2])
    /\ Chk({"leak"}, unk = 0)
    /\ Chk({"cloexec"}, noclo = 0)
    /\ call' = [t \in Threads |-> IF call[t].op = "wait" THEN [call[t] EXCEPT !.blocked = TRUE]
                                  ELSE call[t]]
    /\ UNCHANGED <<plr, reg, cond, cont, now>>

\* Thread t was seen blocking for descriptors in a wait: it is inside, not turned away.
Blocks(t) ==
    LET o == call[t] IN
    /\ o.op = "wait"
    /\ o.st = "in" \/ Chk({"busy_blocked"}, FALSE)
    /\ UNCHANGED vars

\* A signal reaches thread t.
Signal(t) ==
    /\ call' = IF call[t].op = "wait" THEN [call EXCEPT ![t].sig = TRUE] ELSE call
    /\ UNCHANGED <<plr, reg, cond, cont, now>>

---------------------------------------------------------------------------
(* Containers and event values *)

EvNew(c, req, res) ==
    /\ Chk({"capacity"}, res.capr >= req /\ res.capr >= 1)
    /\ Chk({"count"}, res.len = 0 /\ res.emp)
    /\ Chk({"panic"}, res.r = "ok")
    /\ cont' = [cont EXCEPT ![c] = [evs |-> <<>>, req |-> IF req > 1 THEN req ELSE 1]]
    /\ UNCHANGED <<plr, reg, cond, call, now>>

EvClear(c, res) ==
    /\ Chk({"count"}, res.len = 0 /\ res.emp /\ res.it = 0)
    /\ Chk({"capacity"}, res.capr >= cont[c].req)
    /\ Chk({"panic"}, res.r = "ok")
    /\ cont' = [cont EXCEPT ![c].evs = <<>>]
    /\ UNCHANGED <<plr, reg, cond, call, now>>

EvStep(e, x) ==
    CASE x = "si1" -> [e EXCEPT !.hup = TRUE]
      [] x = "wi"  -> [e EXCEPT !.hup = TRUE]
      [] x = "si0" -> [e EXCEPT !.hup = FALSE]
      [] x = "sp1" -> [e EXCEPT !.pri = TRUE]
      [] x = "wp"  -> [e EXCEPT !.pri = TRUE]
      [] x = "sp0" -> [e EXCEPT !.pri = FALSE]
      [] x = "clr" -> [e EXCEPT !.pri = FALSE, !.hup = FALSE, !.err = FALSE]
      [] x = "wne" -> [e EXCEPT !.pri = FALSE, !.hup = FALSE, !.err = FALSE]
      [] x = "r1"  -> [e EXCEPT !.rd = TRUE]
      [] x = "r0"  -> [e EXCEPT !.rd = FALSE]
      [] x = "w1"  -> [e EXCEPT !.wr = TRUE]
      [] x = "w0"  -> [e EXCEPT !.wr = FALSE]
      [] OTHER     -> e

\* st: the values of an event after construction and after each operation.
EvValue(first, ops, st, r) ==
    /\ Chk({"evvalue"}, r = "ok" /\ Len(st) = Len(ops) + 1)
    /\ Chk({"evvalue"}, Len(st) > 0 => st[1] = first)
    /\ \A i \in 1..Len(ops) : i + 1 <= Len(st) => Chk({"evvalue"}, st[i+1] = EvStep(st[i], ops[i]))
    /\ UNCHANGED vars

---------------------------------------------------------------------------
(* Invariants of the states of the specification *)

TypeOK ==
    /\ \A p \in Pollers : plr[p].alive => plr[p].pend \in BOOLEAN
    /\ \A p \in Pollers, s \in Sources :
          reg[p][s].on => /\ plr[p].alive
                          /\ reg[p][s].mode \in {"O", "L", "E", "EO"}
                          /\ reg[p][s].edge \in {"no", "may", "must"}
                          /\ reg[p][s].key # MaxKey
OneWaiter ==
    \A p \in Pollers : Cardinality({t \in Inside(p) : call[t].st = "in"}) <= 1
MustIsMay == \A p \in Pollers : MustSet(p) \subseteq MaySet(p)
=============================================================================
