----------------------------- MODULE PollingTour -----------------------------
(* The sequential behaviours of one source on one poller: the graph of        *)
(* abstract states and operations, from Polling's own actions.  Its edges     *)
(* are printed; programs that cover all of them are run on the real crate.    *)
EXTENDS Polling

CONSTANTS Modes, Interests, Kind

VARIABLES src,   \* abstract state in which the operation in progress started
          op     \* that operation, or <<>>
tvars == <<vars, src, op>>

P == CHOOSE p \in Pollers : TRUE
S == CHOOSE s \in Sources : TRUE
C == CHOOSE c \in Containers : TRUE
NoReport(kinds) == TRUE

Init0 == CASE Kind = "us" -> {"O"} [] Kind = "efd" -> {"O"} [] Kind = "pr" -> {} [] Kind = "pw" -> {"O"}

\* What operations on the other end do to the conditions (as far as planning needs it).
EnvOps == CASE Kind = "us" -> {"wr", "drain", "fill", "unfill", "shutw", "hup", "oob", "rdoob", "reopen"}
            [] Kind = "efd" -> {"wr", "drain", "fill"}
            [] Kind = "pr" -> {"wr", "drain", "hup", "reopen"}
            [] Kind = "pw" -> {"fill", "unfill", "hup", "reopen"}
Gone(c) == "H" \in c \/ "E" \in c
Shut(c) == "s" \in c
EnvCond(c, x) ==
    CASE x = "wr"    -> IF Gone(c) THEN c ELSE c \cup {"I"}
      [] x = "drain" -> IF Gone(c) THEN c ELSE c \ {"I"}
      [] x = "fill"  -> IF Gone(c) THEN c ELSE c \ {"O"}
      [] x = "unfill" -> IF Gone(c) THEN c ELSE c \cup {"O"}
      [] x = "shutw" -> c \cup {"I"}
      [] x = "hup"   -> (CASE Kind = "us" -> {"I", "O", "H"} [] Kind = "pr" -> (c \ {"O"}) \cup {"H"}
                           [] Kind = "pw" -> {"O", "E"})
      [] x = "oob"   -> IF Gone(c) THEN c ELSE c \cup {"P", "I"}
      [] x = "rdoob" -> c \ {"P"}
      [] x = "reopen" -> Init0
EnvNew(x) == CASE x = "wr" -> {"I"} [] x = "oob" -> {"P"} [] x = "hup" -> {"H", "E", "I", "O"} [] x = "unfill" -> {"O"}
               [] x = "shutw" -> {"I"} [] OTHER -> {}

RegView == LET r == reg[P][S] IN
    IF ~r.on THEN <<plr[P].alive /\ S \in plr[P].dead>>
    ELSE <<r.rd, r.wr, r.pri, r.mode, r.armed, IF Edge(r.mode) THEN r.edge ELSE "-">>
AbsView == <<RegView, cond[S], plr[P].alive /\ plr[P].pend>>
View == <<AbsView, src, op, call[1].op, IF call[1].op = None THEN None ELSE call[1].st>>

\* Calls that the registration state admits, and some that it does not.
RegOps == (IF reg[P][S].on THEN {<<"mod", i, m>> : i \in Interests, m \in Modes}
                           ELSE {<<"add", i, m>> : i \in Interests, m \in Modes})
          \cup {<<o, i, m>> : o \in {"add", "mod"}, i \in {{"w"}}, m \in Modes \cap {"L", "EO"}}
Bad    == {<<"add", {"r"}, "bad">>, <<"mod", {"r"}, "bad">>, <<"mod", {"w"}, "bad">>}

RegCall(x) ==
    [op |-> x[1], p |-> P, t |-> now, st |-> "new", s |-> S,
     key |-> (IF x[3] = "bad" THEN MaxKey ELSE "1"),
     rd |-> "r" \in x[2], wr |-> "w" \in x[2], pri |-> "p" \in x[2],
     mode |-> (IF x[3] = "bad" THEN "L" ELSE x[3]), sig |-> FALSE, blocked |-> FALSE, flt |-> FALSE]
WaitCall(to) == [op |-> "wait", p |-> P, t |-> now, st |-> "new", to |-> to, cap |-> 1024, c |-> C,
                 sig |-> FALSE, blocked |-> FALSE, flt |-> FALSE]

TourInit ==
    /\ Init
    /\ src = <<>> /\ op = <<>>

Setup ==
    /\ ~plr[P].alive /\ cond[S] = Closed
    /\ plr' = [plr EXCEPT ![P] = [alive |-> TRUE, pend |-> FALSE, timed |-> FALSE, edge |-> TRUE,
                                  batch |-> TRUE, ms |-> FALSE, dead |-> {}]]
    /\ cond' = [cond EXCEPT ![S] = Init0]
    /\ UNCHANGED <<reg, call, cont, now, src, op>>

Begin(x, c) == Call(1, c) /\ src' = AbsView /\ op' = x
Idle == plr[P].alive /\ call[1] = NoCall /\ op = <<>>

Choose ==
    /\ Idle
    /\ \/ \E x \in RegOps \cup Bad : Begin(x, RegCall(x))
       \/ Begin(<<"del">>, [op |-> "del", p |-> P, t |-> now, st |-> "new", s |-> S, sig |-> FALSE, blocked |-> FALSE, flt |-> FALSE])
       \/ Begin(<<"notify">>, [op |-> "notify", p |-> P, t |-> now, st |-> "new", sig |-> FALSE, blocked |-> FALSE, flt |-> FALSE])
       \/ Begin(<<"wait0">>, WaitCall(TZero))
       \/ Begin(<<"waitms">>, WaitCall(ms1))
EnvStep ==
    /\ Idle
    /\ \E x \in EnvOps \ {"reopen"} : Env(S, EnvCond(cond[S], x), EnvNew(x)) /\ src' = AbsView /\ op' = <<"env", x>>
Reopen ==
    /\ Idle /\ "reopen" \in EnvOps
    /\ ~reg[P][S].on
    /\ cond' = [cond EXCEPT ![S] = Init0]
    /\ src' = AbsView /\ op' = <<"env", "reopen">>
    /\ UNCHANGED <<plr, reg, call, cont, now>>

Expire == /\ call[1].op = "wait" /\ call[1].st = "in" /\ call[1].to # Inf /\ ~Expired(call[1])
          /\ ~plr[P].pend /\ MustSet(P) = {}
          /\ now' = TAdd(call[1].t, call[1].to)
          /\ UNCHANGED <<plr, reg, cond, call, cont, src, op>>

Deliver == IF May(P, S) THEN <<EventOf(reg[P][S].key, Rev(reg[P][S], S))>> ELSE <<>>

Step ==
    /\ call[1] # NoCall
    /\ LET o == call[1] IN
       \/ /\ o.op \in {"add", "mod", "del"} /\ o.st = "new"
          /\ RegEffect(1, IF Errs(o) = {} THEN "ok" ELSE CHOOSE e \in Errs(o) : TRUE)
       \/ NotifyEffect(1)
       \/ Acquire(1)
       \/ /\ o.op = "wait" /\ o.st = "in"
          /\ plr[P].pend \/ Deliver # <<>> \/ Expired(o)
          /\ Collect(1, Deliver)
       \/ /\ o.op # "wait" /\ RetOther(1, "ok", {})
       \/ /\ o.op = "wait" /\ o.st = "out"
          /\ RetWait(1, [r |-> "ok", n |-> 0, len |-> 0, emp |-> TRUE, evs |-> <<>>], TZero, {})
    /\ UNCHANGED <<src, op>>

\* The operation is over: its edge is complete.
Done == /\ call[1] = NoCall /\ op # <<>>
        /\ PrintT(<<"EDGE", ToString(src), op, ToString(AbsView)>>)
        /\ src' = <<>> /\ op' = <<>>
        /\ UNCHANGED vars

TourNext == Setup \/ Choose \/ EnvStep \/ Reopen \/ Expire \/ Step \/ Done
TourSpec == TourInit /\ [][TourNext]_tvars
=============================================================================
