-------------------------------- MODULE Match --------------------------------
(* When an observed output is an instance of a specified one.               *)
EXTENDS Forwarder

\* specified record p, observed record o: names compare case-insensitively
RRMatch(p, o) ==
  /\ p.t = o.t /\ p.c = o.c /\ p.ttl = o.ttl
  /\ Lower(p.n) = Lower(o.n)
  /\ p.d = o.d \/ (p.t \in {TCNAME, TNS, TPTR, TMX} /\ Lower(p.d) = Lower(o.d))

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* same records in some order
RECURSIVE BagMatch(_, _)
BagMatch(ps, os) ==
  IF Len(ps) # Len(os) THEN FALSE
  ELSE IF ps = <<>> THEN TRUE
  ELSE \E i \in 1..Len(os) : RRMatch(ps[1], os[i]) /\ BagMatch(Tail(ps), RemoveAt(os, i))

AnswersMatch(chain, bag, an) ==
  /\ Len(an) = Len(chain) + Len(bag)
  /\ \A i \in 1..Len(chain) : RRMatch(chain[i], an[i])
  /\ BagMatch(bag, SubSeq(an, Len(chain) + 1, Len(an)))

OutMatch(p, o) ==
  /\ p.k = o.k /\ p.to = o.to /\ p.tr = o.tr
  /\ IF p.raw >= 0 THEN o.m.raw = p.raw
     ELSE /\ o.m.ok /\ o.m.nq = 1 /\ o.m.qc = 1
          /\ o.m.id = p.id
          /\ Lower(o.m.qn) = Lower(p.qn) /\ o.m.qt = p.qt
          /\ p.edns = (o.m.edns > 0)
          /\ IF p.k = "re" THEN o.m.qr = 1 /\ o.m.rcode = p.rcode /\ <<o.m.ra, o.m.tc>> = p.fl
             ELSE <<o.m.qr, o.m.rcode, o.m.ra, o.m.tc>> = p.fl
          /\ p.rest = <<>> \/ <<o.m.aa, o.m.rd, o.m.ns, o.m.ar>> = p.rest
          /\ AnswersMatch(p.chain, p.bag, o.m.an)

RECURSIVE OutsMatch(_, _)
OutsMatch(ps, os) ==
  IF Len(ps) # Len(os) THEN FALSE
  ELSE IF ps = <<>> THEN TRUE
  ELSE \E i \in 1..Len(os) : OutMatch(ps[1], os[i]) /\ OutsMatch(Tail(ps), RemoveAt(os, i))

\* ways to find outputs ps among the observed ones with indices in left: what
\* remains of left
RECURSIVE Consume(_, _, _)
Consume(ps, os, left) ==
  IF ps = <<>> THEN {left}
  ELSE UNION {Consume(Tail(ps), os, left \ {i}) : i \in {j \in left : OutMatch(ps[1], os[j])}}

\* several inputs handed over without waiting in between: any order.  R: set of
\* [s, todo, left]
RECURSIVE BatchStates(_, _, _, _, _, _)
BatchStates(C, R, evs, os, env, n) ==
  IF n = 0 THEN {r.s : r \in {x \in R : x.left = {}}}
  ELSE BatchStates(C,
         UNION {UNION {UNION {{[s |-> y.s, todo |-> r.todo \ {i}, left |-> l] : l \in Consume(y.o, os, r.left)}
                              : y \in React(C, r.s, evs[i], env)}
                       : i \in r.todo}
                : r \in R},
         evs, os, env, n - 1)
=============================================================================
