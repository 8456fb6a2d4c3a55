-------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* Bounded models of the forwarder.  A scenario (a JSON file, shared with  *)
(* the driver that replays behaviours into the real program) fixes the     *)
(* configuration and a small alphabet:                                     *)
(*   q     queries clients may send: [c, tr, m]                            *)
(*   sh    shapes of answers a server may give to a query it has seen      *)
(*   adv   amounts of time that may pass                                   *)
(*   live  configurations a reload may install                             *)
(*   turn  addresses (of good-address lists) that may cease to answer      *)
(*   restart  for how long the program may be away; keep: with a cache file *)
(*   depth, dup (how often one request may be answered)                    *)
(* TLC explores every schedule of these and checks the step properties of  *)
(* Props on every transition; in simulation mode it prints behaviours as   *)
(* JSON, which are then replayed into the real program.                    *)
(***************************************************************************)
EXTENDS Forwarder, Json, IOUtils

Sc == JsonDeserialize(IOEnv.SCENARIO)
C == Sc.cfg

VARIABLES st,     \* state of the forwarder
          up,     \* requests servers hold: set of [srv, n, mod, m, o, used, fr]
          open,   \* ghost: client queries not yet answered: set of [o, c, tr, id, n, l, qt, at, up]
          n,      \* steps taken
          last,   \* the step just taken: [ev, outs]
          h       \* behaviour so far, as replayable steps

vars == <<st, up, open, n, last, h>>

Held(srv) == Cardinality({r \in up : r.srv = srv})

GroupOf(live, srv) == CHOOSE g \in 1..Len(live.grp) : srv \in Range(live.grp[g].servers)
Sock(s, srv) == "m" \o ToString(s.gen) \o "." \o ToString(GroupOf(s.live, srv))

Env == [rids |-> {1000 + n},
        mod |-> [x \in UNION {Range(st.live.grp[g].servers) : g \in 1..Len(st.live.grp)} |-> Sock(st, x)]]

\* requests arriving at servers because of outputs outs, for client query o
NewUps(outs, o) ==
  {[srv |-> x.to, n |-> Held(x.to) + 1, mod |-> Sock(st, x.to), id |-> x.id, qn |-> x.qn, qt |-> x.qt,
    at |-> st.t, o |-> o, used |-> 0, edns |-> x.edns] : x \in {y \in Range(outs) : y.k = "up"}}

\* an answer of shape s to request r
Resp(r, s) ==
  [raw |-> 100000 + n, ok |-> s.ok, id |-> IF s.badid THEN r.id + 1 ELSE r.id, qr |-> 1, aa |-> 0, tc |-> 0, rd |-> 1, ra |-> 1,
   rcode |-> s.rcode, nq |-> 1, qn |-> IF s.othername = "" THEN r.qn ELSE s.othername,
   qt |-> IF s.othertype = 0 THEN r.qt ELSE s.othertype, qc |-> 1,
   an |-> [i \in 1..Len(s.an) |->
             [s.an[i] EXCEPT !.n = IF @ = "@" THEN r.qn ELSE @]],
   ns |-> s.ns, ar |-> s.ar, edns |-> s.edns]

\* shapes that make sense for a question type (0: any)
Applies(s, qt) == s.for = 0 \/ s.for = qt

\* one client query may be closed by each reply
RECURSIVE Close(_, _)
Close(os, outs) ==
  IF outs = <<>> THEN os
  ELSE LET r == Head(outs)
           c == {x \in os : r.k = "re" /\ x.c = r.to /\ x.tr = r.tr /\ x.id = r.id
                            /\ x.l = Lower(r.qn) /\ x.qt = r.qt}
       IN IF c = {} THEN Close(os, Tail(outs))
          ELSE Close(os \ {CHOOSE x \in c : \A y \in c : x.o <= y.o}, Tail(outs))

Take(ev, step, outs, op2) ==
  /\ last' = [ev |-> ev, outs |-> outs]
  /\ open' = op2
  /\ h' = Append(h, step)
  /\ n' = n + 1

Query ==
  \E i \in 1..Len(Sc.q) :
    LET a == Sc.q[i]
        ev == [op |-> "q", c |-> a.c, tr |-> a.tr, m |-> a.m]
        me == [o |-> n, c |-> a.c, tr |-> a.tr, id |-> a.m.id, n |-> a.m.qn, l |-> Lower(a.m.qn), qt |-> a.m.qt, at |-> st.t]
    IN \E x \in React(C, st, ev, Env) :
         /\ st' = x.s
         /\ up' = up \cup NewUps(x.o, n)
         /\ Take(ev, [op |-> "q", i |-> i], x.o,
                 Close(IF Servable(a.m) THEN open \cup {me} ELSE open, x.o))

Answer ==
  \E r \in up : r.used < Sc.dup /\
    \E i \in 1..Len(Sc.sh) : Applies(Sc.sh[i], r.qt) /\
      LET ev == [op |-> "r", srv |-> r.srv, mod |-> r.mod, m |-> Resp(r, Sc.sh[i]), req |-> r]
      IN \E x \in React(C, st, ev, Env) :
           /\ st' = x.s
           /\ up' = (up \ {r}) \cup {[r EXCEPT !.used = @ + 1]}
           /\ Take(ev, [op |-> "r", srv |-> r.srv, n |-> r.n, i |-> i], x.o, Close(open, x.o))

Pass ==
  \E k \in Range(Sc.adv) :
    \E x \in React(C, st, [op |-> "adv", n |-> k], Env) :
      /\ last.ev.op # "adv"
      /\ st' = x.s
      /\ UNCHANGED up
      /\ Take([op |-> "adv", n |-> k], [op |-> "adv", n |-> k], x.o, open)

Change ==
  \E i \in 1..Len(Sc.live) :
    LET ev == [op |-> "reload", n |-> 0, live |-> Sc.live[i], groups |-> TRUE]
    IN /\ i > 1 \/ st.gen > 0
       /\ st.live # ev.live
       /\ \E x \in React(C, st, ev, Env) :
            /\ st' = x.s
            /\ UNCHANGED up
            /\ Take(ev, [op |-> "reload", i |-> i], x.o, open)

\* the program is ended, at any moment, and started again; what it keeps is in
\* its cache file
Restart ==
  \E k \in Range(Sc.restart) :
    LET ev == [op |-> "restart", n |-> k, keep |-> Sc.keep, live |-> Sc.live[1]]
    IN \E x \in React(C, st, ev, Env) :
         /\ last.ev.op # "restart"
         /\ st' = x.s
         /\ up' = {}
         /\ Take(ev, [op |-> "restart", n |-> k], x.o, {})

\* an address ceases to answer, or answers again
Turn ==
  \E i \in 1..Len(Sc.turn) :
    LET srv == Sc.turn[i]
        ev == IF srv \in st.down THEN [op |-> "up", srv |-> srv] ELSE [op |-> "down", srv |-> srv, lost |-> <<>>]
    IN \E x \in React(C, st, ev, Env) :
         /\ last.ev.op # ev.op
         /\ st' = x.s
         /\ UNCHANGED up
         /\ Take(ev, [op |-> ev.op, srv |-> srv], x.o, open)

\* other clients fill the cache
Fill ==
  LET ev == [op |-> "fill", n |-> 150, cls |-> <<2, 3, 4>>]
  IN /\ Sc.fill /\ last.ev.op # "fill"
     /\ \E x \in React(C, st, ev, Env) :
          /\ st' = x.s
          /\ UNCHANGED up
          /\ Take(ev, [op |-> "fill", n |-> 150], x.o, open)

Init ==
  /\ st = InitState(C, Sc.live[1])
  /\ up = {} /\ open = {} /\ n = 0 /\ h = <<>>
  /\ last = [ev |-> [op |-> "nop"], outs |-> <<>>]

Next == n < Sc.depth /\ (Query \/ Answer \/ Pass \/ Change \/ Restart \/ Turn \/ Fill)

Spec == Init /\ [][Next]_vars

View == <<st, up, open, n>>

\* simulation: print each behaviour when it is complete
Emit == IF n = Sc.depth THEN PrintT("@@" \o ToJson(h)) ELSE TRUE
=============================================================================
