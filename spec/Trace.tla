-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks executions recorded from the real program: a trace is accepted   *)
(* iff some behaviour of Forwarder produces, event by event, exactly the   *)
(* recorded outputs.  S is the set of specification states the recorded    *)
(* prefix may have led to, so the search is linear in the trace.           *)
(***************************************************************************)
EXTENDS Match, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, S,
          cf,     \* the event that brought the configuration in force, or 0
          K       \* connections to TCP servers: id -> [busy, at (last used)]

vars == <<tr, i, S, cf, K>>

Ev == Traces[tr].ev
C == LET k == IF i <= Len(Ev) /\ Ev[i].op = "restart" THEN i ELSE cf
     IN IF k = 0 THEN Traces[tr].cfg ELSE Ev[k].cfg

Obs(ev, k) == {ev.outs[j] : j \in {x \in 1..Len(ev.outs) : ev.outs[x].k = k}}

EnvOf(st, ev) ==
  LET ups == Obs(ev, "up")
      ids == {o.m.id : o \in ups}
      srv == UNION {Range(st.live.grp[g].servers) : g \in 1..Len(st.live.grp)}
  IN [rids |-> IF ids = {} THEN {0} ELSE ids,
      mod |-> [x \in srv |-> LET os == {o \in ups : o.to = x}
                             IN IF os = {} THEN "none" ELSE (CHOOSE o \in os : TRUE).mod]]

\* messages, and connections closed
Msgs(ev) == SelectSeq(ev.outs, LAMBDA o : o.k # "bye")
Byes(ev) == {o.to : o \in Obs(ev, "bye")}

StepFrom(st, ev, ms) ==
  LET B == Byes(ev)
      to == IF ev.op = "batch"
            THEN BatchStates(C, {[s |-> st, todo |-> 1..Len(ev.evs), left |-> 1..Len(ms)]}, ev.evs, ms, EnvOf(st, ev), Len(ev.evs))
            ELSE {x.s : x \in {y \in React(C, st, ev, EnvOf(st, ev)) : OutsMatch(y.o, ms)}}
  IN {AfterByes(x, B) : x \in {y \in to : ByesOK(st, y, ev, B)}}

Step(ev) == LET ms == Msgs(ev) IN UNION {StepFrom(st, ev, ms) : st \in S}

Expected(ev) == IF ev.op = "batch" THEN {} ELSE UNION {{x.o : x \in React(C, st, ev, EnvOf(st, ev))} : st \in S}

---------------------------------------------------------------------------
(* A connection to a TCP server carries one question at a time and is not   *)
(* used any more once it has been idle for longer than the keep-alive time. *)

Now == (CHOOSE st \in S : TRUE).t

Parts(ev) == IF ev.op = "batch" THEN Range(ev.evs) ELSE {ev}
\* connections an event frees
Freed(ev) == {e.conn : e \in {x \in Parts(ev) : x.op = "r" /\ "conn" \in DOMAIN x}}
Used(ev) == {ev.outs[j].conn : j \in {x \in 1..Len(ev.outs) : "conn" \in DOMAIN ev.outs[x]}}
UsedOnce(ev) == \A a, b \in 1..Len(ev.outs) :
   (a # b /\ "conn" \in DOMAIN ev.outs[a] /\ "conn" \in DOMAIN ev.outs[b]) => ev.outs[a].conn # ev.outs[b].conn

ConnsOK(ev) ==
  /\ \A c \in Used(ev) \cap DOMAIN K :
        /\ ~K[c].busy \/ c \in Freed(ev)
        /\ c \in Freed(ev) \/ Now - K[c].at <= C.keepalive
  /\ UsedOnce(ev) \/ ev.op = "batch"

ConnsAfter(ev) ==
  [c \in DOMAIN K \cup Used(ev) |->
     IF c \in Used(ev) THEN [busy |-> TRUE, at |-> Now]
     ELSE IF c \in Freed(ev) THEN [busy |-> FALSE, at |-> Now] ELSE K[c]]

Init == /\ tr \in 1..Len(Traces)
        /\ i = 1
        /\ S = {InitState(Traces[tr].cfg, Traces[tr].live)}
        /\ K = <<>>
        /\ cf = 0

Next == /\ i <= Len(Ev)
        /\ S # {}
        /\ i' = i + 1
        /\ UNCHANGED tr
        /\ cf' = IF Ev[i].op = "restart" THEN i ELSE cf
        /\ S' = IF ConnsOK(Ev[i]) THEN Step(Ev[i]) ELSE {}
        /\ K' = ConnsAfter(Ev[i])
        /\ IF S' = {} THEN PrintT(<<"REJECT", tr, i, Expected(Ev[i])>>)
           ELSE IF i = Len(Ev) THEN PrintT(<<"ACCEPT", tr, Cardinality(S')>>)
           ELSE TRUE

Spec == Init /\ [][Next]_vars
=============================================================================
