----------------------------- MODULE PollingGen -----------------------------
(* Random behaviours of Polling with several threads, pollers and sources,    *)
(* printed as programs: phases of operations per thread.  Each program is run *)
(* on the real crate under many schedules, not only the one chosen here.      *)
EXTENDS Polling, Json

CONSTANTS Modes, Interests, Timeouts, Phases, Weights, Caps

VARIABLES out, left, n
gvars == <<vars, out, left, n>>

NoReport(kinds) == TRUE
Pick(S) == RandomElement(S)
OneOf(q) == q[RandomElement(1..Len(q))]

KindOf(s) == CASE s \in {"us", "us2"} -> "us" [] s \in {"efd", "efd2"} -> "efd"
               [] s \in {"pr", "pr2"} -> "pr" [] s \in {"pw", "pw2"} -> "pw"
Init0(s) == CASE KindOf(s) \in {"us", "efd", "pw"} -> {"O"} [] OTHER -> {}
EnvOps(s) == CASE KindOf(s) = "us" -> <<"wr", "wr", "drain", "fill", "unfill", "hup", "oob", "rdoob", "shutw">>
               [] KindOf(s) = "efd" -> <<"wr", "wr", "drain", "fill">>
               [] KindOf(s) = "pr" -> <<"wr", "wr", "drain", "hup">>
               [] KindOf(s) = "pw" -> <<"fill", "unfill", "hup">>
Gone(c) == "H" \in c \/ "E" \in c
EnvCond(s, c, x) ==
    CASE x = "wr"    -> IF Gone(c) THEN c ELSE c \cup {"I"}
      [] x = "drain" -> IF Gone(c) THEN c ELSE c \ {"I"}
      [] x = "fill"  -> IF Gone(c) THEN c ELSE c \ {"O"}
      [] x = "unfill" -> IF Gone(c) THEN c ELSE c \cup {"O"}
      [] x = "shutw" -> c \cup {"I"}
      [] x = "hup"   -> (CASE KindOf(s) = "us" -> {"I", "O", "H"} [] KindOf(s) = "pr" -> (c \ {"O"}) \cup {"H"}
                           [] OTHER -> {"O", "E"})
      [] x = "oob"   -> IF Gone(c) THEN c ELSE c \cup {"P", "I"}
      [] x = "rdoob" -> c \ {"P"}
EnvNew(x) == CASE x = "wr" -> {"I"} [] x = "oob" -> {"P"} [] x = "hup" -> {"H", "E", "I", "O"} [] x = "unfill" -> {"O"}
               [] x = "shutw" -> {"I"} [] OTHER -> {}

ContOf(t) == CHOOSE c \in Containers : c = "c" \o ToString(t)
NewPoller == [alive |-> TRUE, pend |-> FALSE, timed |-> FALSE, edge |-> TRUE, batch |-> TRUE, ms |-> FALSE, dead |-> {}]

GenInit ==
    /\ plr  = [p \in Pollers |-> NewPoller]
    /\ reg  = [p \in Pollers |-> [s \in Sources |-> NoReg]]
    /\ cond = [s \in Sources |-> Init0(s)]
    /\ call = [t \in Threads |-> NoCall]
    /\ cont = [c \in Containers |-> [evs |-> <<>>, req |-> 1]]
    /\ now  = TZero
    /\ out = <<>> /\ n = Phases
    /\ left = [t \in Threads |-> 0]

Idle(t) == call[t] = NoCall
Deliverable(p) == {s \in Sources : May(p, s)}
Blocked(t) == LET o == call[t] IN
    /\ o.op = "wait" /\ o.st = "in"
    /\ ~plr[o.p].pend /\ Deliverable(o.p) = {} /\ ~(o.to # Inf /\ Expired(o))
Active(t) == (~Idle(t) /\ ~Blocked(t)) \/ (Idle(t) /\ left[t] > 0)
Quiet == \A t \in Threads : ~Active(t)
Solo(t) == \A u \in Threads \ {t} : Idle(u) /\ left[u] = 0

\* RandomElement is bound with \E: a LET may be evaluated several times.
StartPhase ==
    /\ Quiet /\ n > 0
    /\ n' = n - 1
    /\ LET idle == {t \in Threads : Idle(t)} IN
       \E r \in {Pick(1..100)} :
       IF idle = {} \/ r <= 10 THEN
          \E d \in {OneOf(<<1000000, 4000000, 20000000>>)} :
          /\ now' = TAdd(now, <<0, 0, d>>)
          /\ out' = Append(out, [adv |-> d])
          /\ left' = [t \in Threads |-> 0]
          /\ UNCHANGED <<plr, reg, cond, call, cont>>
       ELSE
          /\ \E t \in {Pick(idle)}, k \in {Pick(1..4)}, ks \in {[u \in Threads |-> Pick(0..2)]} :
             left' = IF r <= 45 THEN [u \in Threads |-> IF u = t THEN k ELSE 0]
                     ELSE [u \in Threads |-> IF u \in idle THEN (IF u = t THEN 1 ELSE ks[u]) ELSE 0]
          /\ out' = Append(out, [ops |-> [t \in Threads |-> <<>>]])
          /\ UNCHANGED vars

Log(t, x) == /\ out' = [out EXCEPT ![Len(out)].ops[t] = Append(@, x)]
             /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ UNCHANGED n

Str(i) == (IF "r" \in i THEN "r" ELSE "") \o (IF "w" \in i THEN "w" ELSE "") \o (IF "p" \in i THEN "p" ELSE "")

Base(t, op, p) == [op |-> op, p |-> p, t |-> now, st |-> "new", sig |-> FALSE, blocked |-> FALSE, flt |-> FALSE]

Begin(t) ==
    /\ Idle(t) /\ left[t] > 0
    /\ \E x \in {OneOf(Weights)}, p \in {Pick(Pollers)}, s \in {Pick(Sources)}, z \in {Pick(1..100)} :
       CASE x = "reg" ->
              \E i0 \in {Pick(Interests)}, m0 \in {Pick(Modes)} :
              \* mostly the call that the state admits, now and then what is registered already
              LET r == reg[p][s]
                  same == r.on /\ z <= 15
                  op == IF (z <= 90) = r.on THEN "mod" ELSE "add"
                  m == IF same THEN r.mode ELSE m0
                  i == IF same THEN (IF r.rd THEN {"r"} ELSE {}) \cup (IF r.wr THEN {"w"} ELSE {}) \cup (IF r.pri THEN {"p"} ELSE {}) ELSE i0
                  k == IF z = 50 THEN MaxKey ELSE IF r.on /\ z <= 25 THEN r.key ELSE ToString(100 * Len(out) + 10 * t + left[t])
              IN /\ Call(t, Base(t, op, p) @@ [s |-> s, key |-> k, rd |-> "r" \in i, wr |-> "w" \in i, pri |-> "p" \in i, mode |-> m])
                 /\ Log(t, [op |-> op, p |-> p, s |-> s, key |-> k, i |-> Str(i), m |-> m])
         [] x = "del" -> /\ Call(t, Base(t, "del", p) @@ [s |-> s])
                         /\ Log(t, [op |-> "del", p |-> p, s |-> s])
         [] x = "notify" -> /\ Call(t, Base(t, "notify", p))
                            /\ Log(t, [op |-> "notify", p |-> p])
         [] x = "wait" ->
              \E to \in {OneOf(Timeouts)} :
              /\ Call(t, Base(t, "wait", p) @@ [to |-> (IF to = -1 THEN Inf ELSE <<0, 0, to>>), cap |-> 1024, c |-> ContOf(t)])
              /\ Log(t, [op |-> "wait", p |-> p, to |-> to, c |-> ContOf(t)])
         [] x = "env" ->
              \E e \in {OneOf(EnvOps(s))} :
              /\ Env(s, EnvCond(s, cond[s], e), EnvNew(e))
              /\ Log(t, [op |-> "env", x |-> e, s |-> s])
         [] x = "sig" -> \E u \in {Pick(Threads)} : Signal(u) /\ Log(t, [op |-> "sig", to |-> u])
         [] x = "cont" ->
              \E r \in {OneOf(Caps)} :
              /\ cont' = [cont EXCEPT ![ContOf(t)] = [evs |-> <<>>, req |-> 1]]
              /\ UNCHANGED <<plr, reg, cond, call, now>>
              /\ Log(t, [op |-> "evnew", c |-> ContOf(t), cap |-> r])
         [] x = "reopen" /\ Solo(t) ->
              /\ reg' = [q \in Pollers |-> [reg[q] EXCEPT ![s] = NoReg]]
              /\ cond' = [cond EXCEPT ![s] = Init0(s)]
              /\ UNCHANGED <<plr, call, cont, now>>
              /\ Log(t, [op |-> "reopen", s |-> s, kind |-> KindOf(s)])
         [] x = "renew" /\ Solo(t) ->
              /\ plr' = [plr EXCEPT ![p] = NewPoller]
              /\ reg' = [reg EXCEPT ![p] = [y \in Sources |-> NoReg]]
              /\ UNCHANGED <<cond, call, cont, now>>
              /\ Log(t, [op |-> "renew", p |-> p])
         [] OTHER -> UNCHANGED <<vars, out, n>> /\ left' = [left EXCEPT ![t] = @ - 1]

Continue(t) ==
    LET o == call[t] IN
    /\ o # NoCall
    /\ \/ /\ o.op \in {"add", "mod", "del"} /\ o.st = "new"
          /\ RegEffect(t, IF Errs(o) = {} THEN "ok" ELSE CHOOSE e \in Errs(o) : TRUE)
       \/ o.op = "notify" /\ o.st = "new" /\ plr' = [plr EXCEPT ![o.p].pend = TRUE]
             /\ call' = [call EXCEPT ![t].st = "done"] /\ UNCHANGED <<reg, cond, cont, now>>
       \/ /\ o.op = "wait" /\ o.st = "new"
          /\ IF Inside(o.p) = {} THEN Acquire(t) ELSE Busy(t)
       \/ /\ o.op = "wait" /\ o.st = "in"
          /\ reg' = [reg EXCEPT ![o.p] = [s \in Sources |-> IF s \in Deliverable(o.p)
                       THEN [@[s] EXCEPT !.armed = IF Oneshot(reg[o.p][s].mode) THEN FALSE ELSE @, !.edge = "no"] ELSE @[s]]]
          /\ plr' = [plr EXCEPT ![o.p].pend = FALSE]
          /\ call' = [call EXCEPT ![t].st = "out"]
          /\ UNCHANGED <<cond, cont, now>>
       \/ /\ o.st \in {"done", "out", "busy"}
          /\ call' = [call EXCEPT ![t] = NoCall]
          /\ UNCHANGED <<plr, reg, cond, cont, now>>
    /\ UNCHANGED <<out, left, n>>

Run == /\ ~Quiet
       /\ \E t \in {Pick({u \in Threads : Active(u)})} : IF Idle(t) THEN Begin(t) ELSE Continue(t)

Finish == /\ Quiet /\ n = 0
          /\ n' = -1
          /\ PrintT(<<"PROG", ToJson(out)>>)
          /\ UNCHANGED <<vars, out, left>>

GenNext == StartPhase \/ Run \/ Finish
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
