-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The properties, stated declaratively over what clients and servers see, *)
(* and checked on every transition of the bounded models.                  *)
(***************************************************************************)
EXTENDS Model

Replies(outs) == SelectSeq(outs, LAMBDA o : o.k = "re")
Ups(outs) == SelectSeq(outs, LAMBDA o : o.k = "up")

Ev == last'.ev
Outs == last'.outs
Is(op) == Ev.op = op

SameQ(x, r) == x.c = r.to /\ x.tr = r.tr /\ x.id = r.id /\ x.l = Lower(r.qn) /\ x.qt = r.qt

Asked == IF Is("q") /\ Servable(Ev.m)
         THEN open \cup {[o |-> n, c |-> Ev.c, tr |-> Ev.tr, id |-> Ev.m.id, n |-> Ev.m.qn, l |-> Lower(Ev.m.qn),
                          qt |-> Ev.m.qt, at |-> st.t]}
         ELSE open

\* D01  every reply answers a question its recipient asked and that was still
\*      unanswered, and no question is answered twice
Solicited ==
  /\ \A i \in 1..Len(Outs) : Outs[i].k = "re" => \E x \in Asked : SameQ(x, Outs[i])
  /\ ~Is("restart") => Cardinality(open') = Cardinality(Asked) - Len(Replies(Outs))
  /\ Is("q") \/ Is("r") \/ Outs = <<>>

\* D02  a usable answer arriving in time for a question still open reaches a client
Blocked(m) ==
  \/ C.blockneg /\ m.rcode # 0
  \/ C.ap /\ m.edns = 0
  \/ \E i \in 1..Len(m.an) : IsAddr(m.an[i]) /\ \E j \in 1..Len(st.live.ipm) :
        st.live.ipm[j].k = "block" /\ PrefixMatch(m.an[i].b, st.live.ipm[j].b, st.live.ipm[j].len)

Genuine(m, r) == m.ok /\ m.id = r.id /\ Lower(m.qn) = Lower(r.qn) /\ m.qt = r.qt

NotLost ==
  (Is("r") /\ Genuine(Ev.m, Ev.req) /\ ~Blocked(Ev.m) /\ Ev.req.used = 0
     /\ st.t - Ev.req.at <= KeepFor
     /\ \E x \in open : x.o = Ev.req.o
     \* no other request of the same question has been answered instead
     /\ ~\E r \in up : r # Ev.req /\ r.id = Ev.req.id /\ Lower(r.qn) = Lower(Ev.req.qn) /\ r.qt = Ev.req.qt)
  => \E i \in 1..Len(Outs) : Outs[i].k = "re"
        /\ \E x \in open : x.o = Ev.req.o /\ SameQ(x, Outs[i])

\* D03  a question is forgotten in bounded time, and its group then moves on
Forgotten == \A e \in Entries(st'.pend) : st'.live.grp[IF e.gen = st'.gen THEN e.g ELSE 1].proto = "udp" \/ e.gen # st'.gen
                => st'.t - e.at < ForgetBy
LateIsSilent == (Is("r") /\ st.t - Ev.req.at >= ForgetBy) =>
                  ~\E i \in 1..Len(Outs) : \E x \in open : Outs[i].k = "re" /\ SameQ(x, Outs[i]) /\ x.o = Ev.req.o
                                              /\ ~\E y \in open : y # x /\ SameQ(y, Outs[i])

\* D04  what is passed on is passed on byte for byte
Transparent ==
  /\ (Is("q") /\ ~C.ap) => \A i \in 1..Len(Outs) :
        (Outs[i].k = "up" /\ Lower(Outs[i].qn) = Lower(Ev.m.qn)) => Outs[i].raw = Ev.m.raw
  /\ (Is("r") /\ st.live.ipm = <<>> /\ C.hosts = <<>> /\ st.live.hosts = <<>>) =>
        \A i \in 1..Len(Outs) : Outs[i].raw = Ev.m.raw

\* D05  a query goes only to servers of one group that its name selects
Routed ==
  Is("q") => LET u == {o.to : o \in {x \in Range(Outs) : x.k = "up"}}
             IN u # {} => \E g \in 1..Len(st.live.grp) :
                  /\ u \subseteq Range(st.live.grp[g].servers)
                  /\ st.live.grp[g].par \/ Cardinality(u) = 1
                  /\ \A j \in 1..Len(st.live.rules) :
                       LET p == st.live.rules[j].p IN
                       (p = Lower(Ev.m.qn) /\ Fits(C, st.live.grp[st.live.rules[j].g], Ev.tr = "tcp")
                         /\ ~\E k \in 1..Len(C.hosts \o st.live.hosts) : TRUE)
                       => \E k \in j..Len(st.live.rules) : st.live.rules[k].p = p /\ st.live.rules[k].g = g

\* D06  a disabled name (or anything below it) or type is never forwarded and
\*      is refused at once
RefusedNow ==
  (Is("q") /\ Servable(Ev.m) /\
     (Ev.m.qt \in Range(C.distypes) \/ \E i \in 1..Len(st.live.dis) :
         Under(Lower(Ev.m.qn), st.live.dis[i].p) \/ (HasWild(st.live.dis[i].p) /\ Glob(st.live.dis[i].p, Lower(Ev.m.qn)))))
  => /\ Len(Outs) = 1 /\ Outs[1].k = "re" /\ Outs[1].to = Ev.c /\ Outs[1].chain = <<>> /\ Outs[1].bag = <<>>
     /\ st' = st

\* D07  a name with a hosts address is answered from hosts, at once
HostsAnswer ==
  (Is("q") /\ Servable(Ev.m) /\ ~Refused(C, st.live, QOf(Ev.m)) /\ Ev.m.qt = TA
     /\ ~(\E i \in 1..Len(C.hosts \o st.live.hosts) : (C.hosts \o st.live.hosts)[i].k \in {"C", "X"})
     /\ \E i \in 1..Len(C.hosts) : C.hosts[i].p = Lower(Ev.m.qn) /\ C.hosts[i].k = "A")
  => /\ Len(Outs) = 1 /\ Outs[1].k = "re" /\ Len(Outs[1].chain) = 1
     /\ \E i \in 1..Len(C.hosts) : C.hosts[i].p = Lower(Ev.m.qn) /\ C.hosts[i].k = "A" /\ Outs[1].chain[1].d = C.hosts[i].d

\* D10  nothing that has expired is ever served, and what is left of a lifetime
\*      never grows
CacheServe(o) == o.k = "re" /\ o.raw = -1 /\ Is("q")
FreshOnly ==
  (Is("q") /\ C.cache /\ C.hosts = <<>> /\ st.live.hosts = <<>> /\ C.ttl = <<>> /\ ~C.ignorettl) =>
    \A i \in 1..Len(Outs) : CacheServe(Outs[i]) =>
      \A r \in Range(Outs[i].chain \o Outs[i].bag) :
        \E k \in 1..Len(st.cache) :
           /\ st.cache[k].d = r.d /\ st.cache[k].t = r.t
           /\ r.ttl > 0 /\ r.ttl = st.cache[k].at + st.cache[k].ttl - st.t
CacheNoUp ==
  (Is("q") /\ C.cache /\ \E i \in 1..Len(Outs) : CacheServe(Outs[i])) => Ups(Outs) = <<>>

\* D15  a client never sees a blocked address
NoBlocked ==
  Is("r") /\ (\E i \in 1..Len(Ev.m.an) : IsAddr(Ev.m.an[i]) /\ \E j \in 1..Len(st.live.ipm) :
       /\ st.live.ipm[j].k = "block"
       /\ PrefixMatch(Ev.m.an[i].b, st.live.ipm[j].b, st.live.ipm[j].len)
       /\ ~\E q \in 1..Len(st.live.ipm) : st.live.ipm[q].k = "sub")
  => Outs = <<>> /\ st'.cache = st.cache

\* D16  a reload changes nothing that is in flight or cached
ReloadKeeps == Is("reload") => st'.pend = st.pend /\ st'.cache = st.cache /\ Outs = <<>>

\* D13  what is cached survives with the cache file, everything else is forgotten
RestartKeeps == Is("restart") => /\ st'.pend = {} /\ Outs = <<>>
                                 /\ st'.cache = (IF Ev.keep THEN st.cache ELSE <<>>)
                                 /\ st'.t = st.t + Ev.n

StepOK == /\ Solicited /\ NotLost /\ Forgotten /\ LateIsSilent /\ Transparent /\ Routed /\ RefusedNow
          /\ HostsAnswer /\ FreshOnly /\ CacheNoUp /\ NoBlocked /\ ReloadKeeps /\ RestartKeeps

Holds == [][StepOK]_vars
=============================================================================
