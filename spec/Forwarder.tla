------------------------------ MODULE Forwarder ------------------------------
(***************************************************************************)
(* The forwarder as a state machine.                                       *)
(*                                                                         *)
(* C    configuration that never changes while the process runs            *)
(* st   abstract state: time, live (reloadable) configuration, queries in  *)
(*      flight, cache contents, which server each group currently uses     *)
(* env  what the environment decides and the specification leaves open:    *)
(*      identifiers drawn for redirected queries, name of the socket a     *)
(*      module sends from                                                  *)
(*                                                                         *)
(* React(C, st, ev, env) is the set of [s |-> next state, o |-> outputs]   *)
(* that event ev may lead to.  The bounded models (MC_*.tla) explore it;   *)
(* Trace.tla replays recorded executions of the real program through it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Strs, TLC

TA == 1
TNS == 2
TCNAME == 5
TPTR == 12
TMX == 15
TTXT == 16
TAAAA == 28
THTTPS == 65

CacheTypes == {TA, TNS, TCNAME, TPTR, TMX, TTXT, TAAAA, THTTPS}

Range(f) == {f[i] : i \in DOMAIN f}
Min2(a, b) == IF a < b THEN a ELSE b
SeqOfSet(S) == IF S = {} THEN <<>> ELSE CHOOSE f \in [1..Cardinality(S) -> S] : Range(f) = S

\* how long an unanswered query is certainly still matched, and when it is
\* certainly forgotten (seconds)
KeepFor == 2
ForgetBy == 13

---------------------------------------------------------------------------
(* Rule lookup.  Rules are sequences of records with a pattern field p, in  *)
(* the order they were configured.                                          *)

LastWhere(rules, P(_)) ==
  LET idx == {i \in 1..Len(rules) : P(rules[i])}
  IN IF idx = {} THEN 0 ELSE CHOOSE i \in idx : \A j \in idx : j <= i

FirstWhere(rules, P(_)) ==
  LET idx == {i \in 1..Len(rules) : P(rules[i])}
  IN IF idx = {} THEN 0 ELSE CHOOSE i \in idx : \A j \in idx : i <= j

\* index of the rule for a name: the most specific plain rule (the name
\* itself, then its parents), the last one written winning; then the first
\* matching wildcard.  cand restricts the candidates.
RECURSIVE PlainRule(_, _, _, _)
PlainRule(rules, cand, path, k) ==
  IF k > Len(path) THEN 0
  ELSE LET c == {i \in cand : rules[i].p = path[k]}
       IN IF c # {} THEN CHOOSE i \in c : \A j \in c : j <= i
          ELSE PlainRule(rules, cand, path, k + 1)

DomainRule(rules, name) ==
  LET i == PlainRule(rules, {j \in 1..Len(rules) : ~HasWild(rules[j].p)}, DomainPath(name), 1)
  IN IF i > 0 THEN i
     ELSE FirstWhere(rules, LAMBDA r : HasWild(r.p) /\ Glob(r.p, name))

---------------------------------------------------------------------------
(* Refusing queries.                                                        *)

Refused(C, live, q) ==
  \/ \E i \in 1..Len(C.distypes) : C.distypes[i] = q.qt
  \/ DomainRule(live.dis, q.l) > 0

---------------------------------------------------------------------------
(* Hosts.  A hosts entry is [p, k, d, b]: k is "A", "AAAA", "C" (redirect), *)
(* "G" (good-IP list) or "X" (excluded).  A name is looked up exactly, and  *)
(* otherwise by the first wildcard that matches it.                         *)

\* the entries that apply to a name (their numbers)
HostEntries(hosts, l) ==
  LET exact == {i \in 1..Len(hosts) : hosts[i].p = l}
      w == FirstWhere(hosts, LAMBDA h : HasWild(h.p) /\ Glob(h.p, l))
  IN IF exact # {} THEN exact
     ELSE IF w = 0 THEN {}
     ELSE {j \in 1..Len(hosts) : hosts[j].p = hosts[w].p}

\* of several entries of a kind the last one counts
OfKind(hosts, l, k) ==
  LET is == {i \in HostEntries(hosts, l) : hosts[i].k = k}
  IN IF is = {} THEN {} ELSE {hosts[CHOOSE i \in is : \A j \in is : j <= i]}

HexDigits == "0123456789abcdef"

\* outcome of one hosts table: [k |-> "none"], [k |-> "redirect", to] or
\* [k |-> "answer", t, d]; a set, because the address a list stands for may be
\* one of several.  good maps list names to addresses.
TableOutcomes(hosts, q, good) ==
  LET cn == OfKind(hosts, q.l, "C")
      a4 == OfKind(hosts, q.l, "A")
      a6 == OfKind(hosts, q.l, "AAAA")
      gl == OfKind(hosts, q.l, "G")
      none == {[k |-> "none", t |-> 0, d |-> ""]}
  IN IF q.qt = TCNAME THEN
        IF cn = {} THEN none ELSE {[k |-> "answer", t |-> TCNAME, d |-> h.d] : h \in cn}
     ELSE IF cn # {} THEN {[k |-> "redirect", t |-> 0, d |-> h.d] : h \in cn}
     ELSE IF q.qt = TA THEN
        IF a4 # {} THEN {[k |-> "answer", t |-> TA, d |-> h.d] : h \in a4}
        ELSE IF gl = {} THEN none
        ELSE UNION {IF h.d \in DOMAIN good /\ good[h.d] # {}
                    THEN {[k |-> "answer", t |-> TA, d |-> x] : x \in good[h.d]}
                    ELSE none : h \in gl}
     ELSE IF q.qt = TAAAA THEN
        IF a6 # {} THEN {[k |-> "answer", t |-> TAAAA, d |-> h.d] : h \in a6}
        ELSE IF a4 # {} THEN {[k |-> "answer", t |-> TAAAA, d |-> "::ffff:" \o h.d] : h \in a4}
        ELSE none
     ELSE none

(* Good-address lists.  C.good[x] is [every, ips]; an address answers as long *)
(* as it is not in st.down.  The program looks for addresses that answer now  *)
(* and then; st.good[x] is [may, at]: the addresses the list may have stood   *)
(* for when it last changed, at time at, which addresses answer.              *)

\* how long a look may take
LookTime == 7

GoodNow(C, st, x) ==
  LET there == Range(C.good[x].ips) \ st.down
  IN IF there = {} THEN st.good[x].may
     ELSE IF st.t - st.good[x].at > C.good[x].every + LookTime THEN there
     ELSE st.good[x].may \cup there

GoodMap(C, st) == [x \in DOMAIN C.good |-> GoodNow(C, st, x)]

GoodInit(C, t) == [x \in DOMAIN C.good |-> [may |-> IF C.good[x].ips = <<>> THEN {} ELSE {C.good[x].ips[1]}, at |-> t]]

\* address s begins or ceases to answer
Turned(C, st, s, down) ==
  [st EXCEPT !.good = [x \in DOMAIN @ |-> IF s \in Range(C.good[x].ips) THEN [may |-> GoodNow(C, st, x), at |-> st.t] ELSE @[x]],
             !.down = down]

HasKind(C, live, l, k) ==
  OfKind(C.hosts, l, k) # {} \/ OfKind(live.hosts, l, k) # {}

\* static table first, then the dynamic one
HostsOutcomes(C, live, good, q) ==
  IF C.blockv6 /\ q.qt = TAAAA /\ (HasKind(C, live, q.l, "A") \/ HasKind(C, live, q.l, "G"))
    THEN {[k |-> "refuse", t |-> 0, d |-> ""]}
  ELSE IF HasKind(C, live, q.l, "X") THEN {[k |-> "none", t |-> 0, d |-> ""]}
  ELSE UNION {IF x.k # "none" THEN {x} ELSE TableOutcomes(live.hosts, q, good)
              : x \in TableOutcomes(C.hosts, q, good)}

---------------------------------------------------------------------------
(* Cache.  st.cache is a sequence of [n, t, d, ttl, at, sure], oldest first. *)

Fresh(C, now, r) == C.ignorettl \/ now - r.at < r.ttl
LeftTtl(C, now, r) == IF C.ignorettl THEN r.ttl ELSE r.ttl - (now - r.at)

\* all fresh records of (n, t), newest first
Lookup(C, st, n, t) ==
  LET hit == SelectSeq(st.cache, LAMBDA r : r.n = n /\ r.t = t /\ Fresh(C, st.t, r))
  IN [i \in 1..Len(hit) |-> hit[Len(hit) + 1 - i]]

RR(n, t, ttl, d) == [n |-> n, t |-> t, c |-> 1, ttl |-> ttl, d |-> d]

MaxChain == 16

\* the alias chains from name n that the cache may hold: sequences of CNAME
\* records (overlong: a loop).  The newest alias counts; one that is not sure
\* to have found room in the cache may be missing.
RECURSIVE ChainsFrom(_, _, _, _)
ChainsFrom(C, st, n, acc) ==
  LET c == Lookup(C, st, n, TCNAME)
      sure == {i \in 1..Len(c) : c[i].sure}
      cand == {i \in 1..Len(c) : \A j \in sure : i <= j}
  IN IF c = <<>> \/ Len(acc) > MaxChain THEN {acc}
     ELSE UNION {ChainsFrom(C, st, c[i].d, Append(acc, RR(n, TCNAME, LeftTtl(C, st.t, c[i]), c[i].d))) : i \in cand}
          \cup (IF sure = {} THEN {acc} ELSE {})

\* [hit, chain, bag]: what the cache may say about a question.
CacheSays(C, st, q) ==
  LET miss == [hit |-> FALSE, chain |-> <<>>, bag |-> <<>>]
      usable == C.cache /\ q.qc = 1 /\ q.qt \in CacheTypes /\ q.n # ""
      along(chain) ==
        LET last == IF chain = <<>> THEN q.n ELSE chain[Len(chain)].d
            recs == Lookup(C, st, last, q.qt)
            say(rs) == IF rs = <<>> THEN miss
                       ELSE [hit |-> TRUE, chain |-> chain,
                             bag |-> [i \in 1..Len(rs) |-> RR(last, q.qt, LeftTtl(C, st.t, rs[i]), rs[i].d)]]
            sure == {i \in 1..Len(recs) : recs[i].sure}
            all == 1..Len(recs)
            nth(I, k) == CHOOSE i \in I : Cardinality({j \in I : j < i}) = k - 1
        IN IF Len(chain) > MaxChain THEN {miss}
           ELSE IF sure = all THEN {say(recs)}
           ELSE {say([k \in 1..Cardinality(I) |-> recs[nth(I, k)]]) :
                   I \in {J \in SUBSET all : sure \subseteq J /\ \A i, j \in J : recs[i].d = recs[j].d => i = j}}
  IN IF ~usable THEN {miss}
     ELSE UNION {along(ch) : ch \in IF q.qt = TCNAME THEN {<<>>} ELSE ChainsFrom(C, st, q.n, <<>>)}

\* the TTL under which a record enters the cache; 0 means not cached.  dom is
\* the name that was asked, whose rule may extend to the other names in the
\* answer: actively (inf 0), only where there is no own rule (1), never (2).
ApplyRule(r, ttl) ==
  IF r.k = "nocache" THEN 0
  ELSE IF r.k = "orig" THEN ttl
  ELSE IF r.k = "fixed" THEN r.y
  ELSE r.x * ttl + r.y

CacheTtl(C, dom, rr) ==
  LET asked == DomainRule(C.ttl, dom)
      own == DomainRule(C.ttl, Lower(rr.n))
      use == IF asked = 0 THEN own
             ELSE IF C.ttl[asked].inf = 0 THEN asked
             ELSE IF C.ttl[asked].inf = 1 THEN (IF own > 0 THEN own ELSE asked)
             ELSE own
  IN IF use = 0 THEN rr.ttl ELSE ApplyRule(C.ttl[use], rr.ttl)

\* items beyond this many bytes (name, key, data) may be left out
MaxItem == 470

\* Room in the cache.  Once it has been full (st.full.until >= 0), nothing is
\* sure to be cached; but when everything has expired and been swept away
\* (st.full.until), records take the places of those of the same size class
\* (st.full.cls).  Where TTLs are ignored nothing ever expires.
SizeClass(rr) == (1 + Len(rr.n) + (IF rr.t < 16 THEN 4 ELSE 5) + 1 + rr.len + 15) \div 16

Room(C, st, rr) == st.full.until < 0 \/ (~C.ignorettl /\ st.t > st.full.until /\ SizeClass(rr) \in Range(st.full.cls))

AddRecord(C, st, dom, rr) ==
  LET same == \E i \in 1..Len(st.cache) :
                 /\ st.cache[i].sure
                 /\ st.cache[i].n = rr.n /\ st.cache[i].t = rr.t /\ st.cache[i].d = rr.d
                 /\ Fresh(C, st.t, st.cache[i])
      ttl0 == CacheTtl(C, dom, rr)
      sib == {i \in 1..Len(st.cache) : st.cache[i].n = rr.n /\ st.cache[i].t = rr.t
                                       /\ Fresh(C, st.t, st.cache[i])}
      left == {LeftTtl(C, st.t, st.cache[i]) : i \in sib} \cup {ttl0}
      low == CHOOSE x \in left : \A y \in left : x <= y
      ttl == IF C.cachepar THEN low ELSE ttl0
      old == IF C.cachepar
             THEN [i \in 1..Len(st.cache) |-> IF i \in sib
                      THEN [st.cache[i] EXCEPT !.ttl = low, !.at = st.t] ELSE st.cache[i]]
             ELSE st.cache
      new == [st EXCEPT !.cache =
                Append(SelectSeq(old, LAMBDA r : Fresh(C, st.t, r)),
                       [n |-> rr.n, t |-> rr.t, d |-> rr.d, ttl |-> ttl, at |-> st.t, sure |-> Room(C, st, rr)])]
  IN IF rr.c # 1 \/ rr.t \notin CacheTypes \/ same \/ ttl0 = 0 THEN {st}
     ELSE IF Len(rr.n) + rr.len > MaxItem THEN {st, new}
     ELSE {new}

RECURSIVE AddRecords(_, _, _, _, _)
AddRecords(C, S, dom, rrs, i) ==
  IF i > Len(rrs) THEN S
  ELSE AddRecords(C, UNION {AddRecord(C, s, dom, rrs[i]) : s \in S}, dom, rrs, i + 1)

CacheAdd(C, st, dom, m) ==
  IF C.cache THEN AddRecords(C, {st}, dom, m.an \o m.ns \o m.ar, 1) ELSE {st}

---------------------------------------------------------------------------
(* Address filtering of upstream answers.  A rule is [k, b, len, d]: bytes, *)
(* prefix length, replacement; k is "block" or "sub".                       *)

PrefixMatch(b, p, len) ==
  LET full == len \div 8
      rem == len % 8
  IN /\ Len(b) = Len(p)
     /\ \A i \in 1..full : b[i] = p[i]
     /\ rem > 0 => b[full + 1] \div (2 ^ (8 - rem)) = p[full + 1] \div (2 ^ (8 - rem))

Single(r) == r.len = 8 * Len(r.b)

\* rules that may apply to an address: single addresses first (the first one
\* configured), then any covering network
AddrRules(rules, b) ==
  LET s == FirstWhere(rules, LAMBDA r : Single(r) /\ r.b = b)
  IN IF s > 0 THEN {rules[s]}
     ELSE {rules[i] : i \in {j \in 1..Len(rules) : ~Single(rules[j]) /\ PrefixMatch(b, rules[j].b, rules[j].len)}}

IsAddr(rr) == rr.c = 1 /\ rr.t \in {TA, TAAAA}

\* outcomes of filtering the answer section: set of [drop, an, changed]
RECURSIVE FilterAddrs(_, _, _)
FilterAddrs(rules, an, i) ==
  IF i > Len(an) THEN {[drop |-> FALSE, an |-> an, changed |-> FALSE]}
  ELSE IF ~IsAddr(an[i]) THEN FilterAddrs(rules, an, i + 1)
  ELSE LET rs == AddrRules(rules, an[i].b)
       IN IF rs = {} THEN FilterAddrs(rules, an, i + 1)
          ELSE UNION {IF r.k = "block" THEN {[drop |-> TRUE, an |-> an, changed |-> FALSE]}
                      ELSE {[x EXCEPT !.changed = TRUE] :
                              x \in FilterAddrs(rules, [an EXCEPT ![i].d = r.d], i + 1)}
                      : r \in rs}

---------------------------------------------------------------------------
(* Choosing a group and sending.                                            *)

Fits(C, g, tcp) == IF tcp THEN g.proto = "tcp" \/ C.tcp2udp
                   ELSE g.proto = "udp" \/ C.udp2tcp

\* live.rules: sequence of [p, g]; live.grp: sequence of groups
GroupChoices(C, live, l, tcp) ==
  LET ok(r) == Fits(C, live.grp[r.g], tcp)
      i == PlainRule(live.rules, {j \in 1..Len(live.rules) : ~HasWild(live.rules[j].p) /\ ok(live.rules[j])},
                     DomainPath(l), 1)
      w == {j \in 1..Len(live.rules) : HasWild(live.rules[j].p) /\ ok(live.rules[j])
                                       /\ Glob(live.rules[j].p, l)}
      w1 == {j \in w : live.rules[j].p # "*"}
  IN IF i > 0 THEN {live.rules[i].g}
     ELSE IF w1 # {} THEN {live.rules[j].g : j \in w1}
     ELSE IF w # {} THEN {live.rules[j].g : j \in w}
     ELSE 1..Len(live.grp)      \* unlisted names: some group

\* servers a query is sent to: set of possible sets
Targets(st, g) ==
  LET grp == st.live.grp[g]
      n == Len(grp.servers)
      alive == Range(grp.servers) \ st.down
  IN IF grp.par THEN {alive}
     ELSE IF grp.proto = "udp" THEN {{grp.servers[(st.cur[g] % n) + 1]}}
     ELSE IF alive = {} THEN {{}}
     ELSE {{x} : x \in alive}          \* whichever connection is there first

\* outputs
OutUp(to, tr, raw, q) ==
  [k |-> "up", to |-> to, tr |-> tr, raw |-> raw, id |-> q.id, rcode |-> 0, qn |-> q.n, qt |-> q.qt,
   chain |-> <<>>, bag |-> <<>>, edns |-> q.edns, fl |-> <<0, 0, 0, 0>>, rest |-> <<>>]
OutRe(c, a) ==
  [k |-> "re", to |-> c.c, tr |-> c.tr, raw |-> a.raw, id |-> a.id, rcode |-> a.rcode, qn |-> a.qn, qt |-> a.qt,
   chain |-> a.chain, bag |-> a.bag, edns |-> a.edns, fl |-> a.fl, rest |-> a.rest]

\* an answer on its way to a client: raw >= 0 means "these very bytes"; rest: flags and
\* other sections of a message passed on with changes in its answer section
Local(q, chain, bag) ==
  [raw |-> -1, id |-> q.id, rcode |-> 0, qn |-> q.n, qt |-> q.qt, chain |-> chain, bag |-> bag, edns |-> q.edns, fl |-> <<1, 0>>, rest |-> <<>>]

\* what a redirected query's answer becomes: the original question, the alias,
\* then the address records of the inner answer
Combine(f, target, a) ==
  [raw |-> -1, id |-> f.id, rcode |-> a.rcode, qn |-> f.n, qt |-> f.qt,
   chain |-> <<RR(f.l, TCNAME, 60, target)>> \o
             SelectSeq(a.chain, LAMBDA r : r.t \in {TA, TAAAA, TCNAME}),
   bag |-> SelectSeq(a.bag, LAMBDA r : r.t \in {TA, TAAAA, TCNAME}),
   edns |-> f.edns, fl |-> a.fl, rest |-> <<>>]

\* deliver answer a for the query of context ctx (frames: the questions that
\* were redirected, outermost first; target: the name last asked)
RECURSIVE Deliver(_, _, _)
Deliver(ctx, target, a) ==
  IF ctx.frames = <<>> THEN <<OutRe(ctx, a)>>
  ELSE LET f == ctx.frames[Len(ctx.frames)]
       IN Deliver([ctx EXCEPT !.frames = SubSeq(ctx.frames, 1, Len(ctx.frames) - 1)],
                  f.l, Combine(f, target, a))

MaxRedirect == 16

\* the socket (named by the environment) a query was sent from
SockOf(env, to) ==
  LET seen == {x \in to : env.mod[x] # "none"}
  IN IF seen = {} THEN "none" ELSE env.mod[CHOOSE x \in seen : TRUE]

\* st.pend is a bag: the set of [e, k] with k = 1..(number of copies of e)
Copies(pend, e) == Cardinality({x \in pend : x.e = e})
Plus(pend, e) == pend \cup {[e |-> e, k |-> Copies(pend, e) + 1]}
Minus(pend, e) == pend \ {[e |-> e, k |-> Copies(pend, e)]}
Entries(pend) == {x.e : x \in pend}
Keep(pend, P(_)) == {x \in pend : P(x.e)}

Send(C, st, q, ctx, env) ==
  UNION {
    LET grp == st.live.grp[g]
        fake == C.ap /\ grp.proto = "udp" /\ ~q.edns
        q2 == IF fake THEN [q EXCEPT !.edns = TRUE] ELSE q
        \* redirected queries and queries with an added option are rebuilt
        raw == IF fake \/ ctx.frames # <<>> THEN -1 ELSE q.raw
        new(to) == [g |-> g, gen |-> st.gen, mod |-> SockOf(env, to),
                    id |-> q.id, l |-> q.l, qt |-> q.qt, at |-> st.t, ctx |-> ctx]
    IN {[s |-> [st EXCEPT !.pend = Plus(@, new(to)),
                          !.miss[g] = Min2(9, @ + 1),
                          !.sock[g] = IF SockOf(env, to) = "none" THEN @ ELSE SockOf(env, to)],
         o |-> LET ts == SeqOfSet({x \in to : x \notin st.down})
                   up(x) == OutUp(x, grp.proto, raw, q2)
               IN [i \in 1..Len(ts) |-> IF fake /\ ctx.frames = <<>> THEN [up(ts[i]) EXCEPT !.fl = q.fl] ELSE up(ts[i])]]
        : to \in Targets(st, g)}
    : g \in GroupChoices(C, st.live, q.l, ctx.tr = "tcp")}

\* q: [id, n, l, qt, qc, edns, raw]
RECURSIVE Ask(_, _, _, _, _)
Ask(C, st, q, ctx, env) ==
  LET here(a) == {[s |-> st, o |-> Deliver(ctx, q.l, a)]}
  IN IF Refused(C, st.live, q) THEN here(Local(q, <<>>, <<>>))
     ELSE UNION {
       IF h.k = "refuse" THEN here(Local(q, <<>>, <<>>))
       ELSE IF h.k = "answer" THEN here(Local(q, <<RR(q.n, h.t, 60, h.d)>>, <<>>))
       ELSE IF h.k = "redirect" THEN
         IF Len(ctx.frames) >= MaxRedirect
         THEN {[s |-> st, o |-> <<>>]}            \* redirection loop: given up
         ELSE Ask(C, st, [id |-> 0, n |-> h.d, l |-> Lower(h.d), qt |-> q.qt, qc |-> 1, edns |-> FALSE, raw |-> -1],
                  [ctx EXCEPT !.frames = Append(@, q)], env)
       ELSE UNION {
              IF c.hit THEN here(Local(q, c.chain, c.bag))
              ELSE IF ctx.frames = <<>> THEN Send(C, st, q, ctx, env)
              ELSE UNION {Send(C, st, [q EXCEPT !.id = i], ctx, env) : i \in env.rids}
              : c \in CacheSays(C, st, q)}
       : h \in HostsOutcomes(C, st.live, GoodMap(C, st), q)}

---------------------------------------------------------------------------
(* Answers from upstream.                                                   *)

\* the answer to pass on, given the filtered answer section
Passed(m, f) ==
  [raw |-> IF f.changed THEN -1 ELSE m.raw, id |-> m.id, rcode |-> m.rcode, qn |-> m.qn, qt |-> m.qt,
   chain |-> [i \in 1..Len(f.an) |-> [RR(f.an[i].n, f.an[i].t, f.an[i].ttl, f.an[i].d) EXCEPT !.c = f.an[i].c]], bag |-> <<>>,
   edns |-> m.edns > 0, fl |-> <<m.ra, m.tc>>,
   rest |-> <<m.aa, m.rd, m.ns, m.ar>>]

\* a query no server was there for waits like any other
Matches(st, e, m, mod) ==
  /\ e.mod = mod \/ (e.gen = st.gen /\ st.sock[e.g] = mod) \* whichever socket of the group it was asked with
  /\ e.id = m.id /\ e.l = Lower(m.qn) /\ e.qt = m.qt

\* entries of age <= KeepFor are certainly there; older ones may be gone
Sure(st, e) == st.t - e.at <= KeepFor /\ (e.gen # st.gen \/ e.at > st.weak[e.g])

Mine(st, e, g) == e.g = g /\ e.gen = st.gen

\* before: the state without its having been heard; heard: whether it is ("yes", "no" or "maybe";
\* "crossing": maybe, and maybe before a question of the same instant waited for it)
Respond(C, before, st, m, mod, heard) ==
  LET usable == m.ok /\ m.nq = 1 /\ m.qc = 1
      fs == FilterAddrs(st.live.ipm, m.an, 1)
  IN IF heard = "no" THEN {[s |-> before, o |-> <<>>]}
     ELSE IF ~usable THEN {[s |-> st, o |-> <<>>]}
     ELSE UNION {
       IF f.drop \/ (C.blockneg /\ m.rcode # 0) \/ (C.ap /\ m.edns = 0) THEN {[s |-> st, o |-> <<>>]}
       ELSE LET m2 == [m EXCEPT !.an = f.an]
                es == {e \in Entries(st.pend) : Matches(st, e, m, mod)}
                sure == {e \in es : Sure(st, e)}
                \* with CacheParallel what comes besides is kept, too, if the socket is surely still there
                there == \/ heard = "yes"
                         \/ \E g \in 1..Len(st.live.grp) :
                            /\ st.sock[g] = mod
                            /\ st.weak[g] < 0 \/ \E x \in st.pend : Mine(st, x.e, g) /\ x.e.mod = mod /\ x.e.at > st.weak[g]
                late == (IF C.cachepar THEN CacheAdd(C, st, Lower(m.qn), m2) ELSE {})
                        \cup (IF C.cachepar /\ there THEN {} ELSE {st})
                take(e) == {[s |-> [s2 EXCEPT !.pend = Minus(@, e)], o |-> Deliver(e.ctx, e.l, Passed(m, f))]
                              : s2 \in CacheAdd(C, st, Lower(m.qn), m2)}
                \* a redirected query's bookkeeping may be dropped sooner than the query itself;
                \* addresses and aliases of other classes need not be passed on through an alias
                odd == \E i \in 1..Len(f.an) : f.an[i].c # 1 /\ f.an[i].t \in {TA, TAAAA, TCNAME}
                lost(e) == IF e.ctx.frames # <<>> /\ (st.t - e.at > KeepFor \/ odd)
                           THEN {[s |-> [s2 EXCEPT !.pend = Minus(@, e)], o |-> <<>>]
                                   : s2 \in CacheAdd(C, st, Lower(m.qn), m2)}
                           ELSE {}
            IN UNION {take(e) \cup lost(e) : e \in es}
               \cup (IF sure = {} THEN {[s |-> [s2 EXCEPT !.pend = Keep(@, LAMBDA e : e \notin es)], o |-> <<>>] : s2 \in late}
                                      \cup (IF there THEN {} ELSE {[s |-> before, o |-> <<>>]})
                  ELSE {})
               \cup (IF heard = "crossing" /\ \A e \in sure : e.at = st.t THEN {[s |-> s2, o |-> <<>>] : s2 \in late} ELSE {})
       : f \in fs}

\* anything received shows that a group's socket works
Heard(st, mod) ==
  LET gs == {g \in 1..Len(st.live.grp) : st.sock[g] = mod}
  IN IF gs = {} THEN st
     ELSE [st EXCEPT !.miss = [g \in DOMAIN @ |-> IF g \in gs THEN Min2(9, Cardinality({x \in st.pend : Mine(st, x.e, g)})) ELSE @[g]],
                     !.heard = [g \in DOMAIN @ |-> IF g \in gs THEN st.t ELSE @[g]]]

---------------------------------------------------------------------------
(* Connections to TCP servers.  When a server closes a connection that had  *)
(* been used before, the question waiting on it is asked again on another   *)
(* connection to the same server; a first use is not repeated.              *)

\* (A question already given up may be asked again, or one of the same id and
\* name that has taken its place; that answer goes nowhere.
\* dup: the same question was asked on several connections, so that the answer
\* that came on one may have been taken for this one.)
RECURSIVE AskAgain(_, _, _)
AskAgain(st, srv, lost) ==
  IF lost = <<>> THEN {<<>>}
  ELSE LET x == Head(lost)
           es == {e \in Entries(st.pend) : Matches(st, e, x.m, x.mod)}
           ask(m) == <<OutUp(srv, "tcp", m.raw, [id |-> m.id, n |-> m.qn, qt |-> m.qt, edns |-> m.edns > 0])>>
           up == ask(x.m)
           here == IF ~x.again \/ srv \in st.down THEN {<<>>}
                   ELSE IF (\E e \in es : Sure(st, e)) /\ ~x.dup THEN {up} ELSE {<<>>, up} \cup {ask(x.alts[i]) : i \in DOMAIN x.alts}
       IN {h \o t : h \in here, t \in AskAgain(st, srv, Tail(lost))}

---------------------------------------------------------------------------
(* Time.                                                                    *)

Stale(st, g) == {e \in Entries(st.pend) : Mine(st, e, g) /\ st.t - e.at > KeepFor}

\* whether it matters when exactly a group does its housekeeping: it then moves
\* on to its next server
Rotates(grp) == grp.proto = "udp" /\ ~grp.par /\ Len(grp.servers) > 1

\* one group's housekeeping: stale queries are dropped and the group moves on
Swept(st, g) == [st EXCEPT !.pend = LET old == Stale(st, g) IN Keep(@, LAMBDA e : e \notin old),
                           !.cur = [@ EXCEPT ![g] = (@ + 1) % Len(st.live.grp[g].servers)]]

\* (elsewhere stale queries stay until it is certain that they are gone; see
\* "sure" in Respond)
RECURSIVE SweepGroups(_, _)
SweepGroups(st, g) ==
  IF g > Len(st.live.grp) THEN {st}
  ELSE IF st.live.grp[g].proto = "tcp" \/ Stale(st, g) = {} THEN SweepGroups(st, g + 1)
  ELSE IF ~Rotates(st.live.grp[g])
  THEN SweepGroups([st EXCEPT !.pend = Keep(@, LAMBDA e : ~(Mine(st, e, g) /\ st.t - e.at >= ForgetBy))], g + 1)
  ELSE LET must == \E e \in Stale(st, g) : st.t - e.at >= ForgetBy
       IN SweepGroups(Swept(st, g), g + 1) \cup (IF must THEN {} ELSE SweepGroups(st, g + 1))

\* queries of replaced groups are forgotten in the same time
OldGone(st) == [st EXCEPT !.pend = Keep(@, LAMBDA e : e.gen = st.gen \/ st.t - e.at < ForgetBy)]

\* a group that heard nothing for a while, and let more than 8 queries down
\* meanwhile, may change its socket; what is in flight is then lost
Renew(st) ==
  LET old(g) == st.live.grp[g].proto = "udp" /\ st.miss[g] > 8 /\ st.t - st.heard[g] >= 9
  IN [st EXCEPT !.weak = [g \in DOMAIN @ |-> IF old(g) THEN st.t ELSE @[g]]]

Tick1(st) == {Renew(s) : s \in SweepGroups(OldGone([st EXCEPT !.t = @ + 1]), 1)}

RECURSIVE Ticks(_, _)
Ticks(S, n) == IF n = 0 THEN S ELSE Ticks(UNION {Tick1(s) : s \in S}, n - 1)

\* nothing is waiting: time just passes
Jump(st, n) == [st EXCEPT !.t = @ + n]

Advance(st, n) == IF st.pend = {} THEN {Jump(st, n)} ELSE Ticks({st}, n)

---------------------------------------------------------------------------
(* Reloading.                                                               *)

\* the live configuration is replaced as a whole; queries in flight keep
\* waiting on the old servers
\* (groups: whether the servers are re-read as well)
Reload(st, live, groups) ==
  IF groups THEN [st EXCEPT !.live = live, !.gen = @ + 1, !.cur = [g \in 1..Len(live.grp) |-> 0],
                            !.sock = [g \in 1..Len(live.grp) |-> "none"],
                            !.miss = [g \in 1..Len(live.grp) |-> 0],
                            !.weak = [g \in 1..Len(live.grp) |-> -1],
                            !.heard = [g \in 1..Len(live.grp) |-> st.t]]
  ELSE [st EXCEPT !.live = live]

---------------------------------------------------------------------------
InitState(C, live) ==
  [t |-> 0, gen |-> 0, live |-> live, pend |-> {}, cache |-> <<>>, down |-> {}, gone |-> {}, fin |-> {}, good |-> GoodInit(C, 0),
   full |-> [until |-> -1, cls |-> <<>>],
   cur |-> [g \in 1..Len(live.grp) |-> 0],
   sock |-> [g \in 1..Len(live.grp) |-> "none"],
   miss |-> [g \in 1..Len(live.grp) |-> 0],
   weak |-> [g \in 1..Len(live.grp) |-> -1],
   heard |-> [g \in 1..Len(live.grp) |-> 0]]

QOf(m) == [id |-> m.id, n |-> m.qn, l |-> Lower(m.qn), qt |-> m.qt, qc |-> m.qc,
           edns |-> m.edns > 0, raw |-> m.raw, fl |-> <<m.qr, m.rcode, m.ra, m.tc>>]

\* a query the forwarder must handle: one question, class IN, well formed
Servable(m) == m.ok /\ m.nq = 1 /\ m.qc = 1

\* nobody sees what is sent to a client whose connection is gone
Seen(st, outs) == SelectSeq(outs, LAMBDA o : ~(o.k = "re" /\ o.to \in st.gone))

---------------------------------------------------------------------------
(* Connections of TCP clients.  The forwarder closes one only if the client *)
(* announces a message of impossible length ("bad"; at once), or some time  *)
(* after the client has stopped sending ("fin"): not before its questions   *)
(* are answered or forgotten, but in bounded time.                          *)

Linger == 60
\* with that many clients leaving, the first of them need not be waited for
ManyLeaving == 60

\* the connections in B are closed by the forwarder in a step from st to st2
ByesOK(st, st2, ev, B) ==
  LET now == IF ev.op = "bad" THEN {ev.c} ELSE {}
  IN /\ now \subseteq B
     /\ \A c \in B \ now : \E f \in st.fin : f.c = c /\ (st2.t - f.at >= ForgetBy \/ Cardinality(st.fin) > ManyLeaving)
     /\ \A f \in st2.fin : st2.t - f.at >= Linger => f.c \in B

AfterByes(st, B) == IF B = {} THEN st ELSE [st EXCEPT !.gone = @ \cup B, !.fin = {f \in @ : f.c \notin B}]

React1(C, st, ev, env) ==
  CASE ev.op = "q" ->
         IF Servable(ev.m) THEN Ask(C, st, QOf(ev.m), [c |-> ev.c, tr |-> ev.tr, frames |-> <<>>], env)
         ELSE {[s |-> st, o |-> <<>>]}
    [] ev.op = "r" -> Respond(C, st, Heard(st, ev.mod), ev.m, ev.mod, IF "heard" \in DOMAIN ev THEN ev.heard ELSE "maybe")
    [] ev.op = "down" -> LET s2 == Turned(C, st, ev.srv, st.down \cup {ev.srv})
                         IN {[s |-> s2, o |-> x] : x \in AskAgain(s2, ev.srv, ev.lost)}
    [] ev.op = "up" -> {[s |-> Turned(C, st, ev.srv, st.down \ {ev.srv}), o |-> <<>>]}
    [] ev.op = "cut" -> {[s |-> st, o |-> x] : x \in AskAgain(st, ev.srv, ev.lost)}
    [] ev.op = "adv" -> {[s |-> s2, o |-> <<>>] : s2 \in Advance(st, ev.n)}
    [] ev.op = "reload" -> {[s |-> Reload(s2, ev.live, ev.groups), o |-> <<>>] : s2 \in Advance(st, ev.n)}
    [] ev.op = "restart" ->
         LET new == InitState(C, ev.live)
         IN {[s |-> [new EXCEPT !.t = st.t + ev.n, !.gen = st.gen + 1, !.down = st.down, !.gone = st.gone, !.good = GoodInit(C, st.t + ev.n),
                       !.heard = [g \in DOMAIN @ |-> st.t + ev.n],
                       !.cache = IF ev.keep THEN st.cache ELSE <<>>, !.full = IF ev.keep THEN st.full ELSE @],
              o |-> <<>>]}
    [] ev.op = "gone" -> {[s |-> [st EXCEPT !.gone = @ \cup {ev.c}, !.fin = {f \in @ : f.c # ev.c}], o |-> <<>>]}
    [] ev.op = "bad" -> {[s |-> st, o |-> <<>>]}
    [] ev.op = "fin" -> {[s |-> [st EXCEPT !.fin = @ \cup {[c |-> ev.c, at |-> st.t]}], o |-> <<>>]}
    [] ev.op = "fill" -> {[s |-> [st EXCEPT !.full = [until |-> st.t + ev.n, cls |-> ev.cls]], o |-> <<>>]}
    [] ev.op = "nop" -> {[s |-> st, o |-> <<>>]}
    [] OTHER -> {}

React(C, st, ev, env) ==
  IF st.gone = {} THEN React1(C, st, ev, env)
  ELSE {[x EXCEPT !.o = Seen(st, @)] : x \in React1(C, st, ev, env)}

=============================================================================
