"""What each property's check explores: bounded models (scen.Scenario) and
seeded random environments (work.Mix) of the real program."""
import ipaddress, os, random, socket, struct
import build, dns, drive
from scen import Scenario, shape
from work import Mix, Wire

U1 = dict(proto="udp", servers=["u1"], rules=["*"])
U2 = dict(proto="udp", servers=["u1", "u2"], rules=["*"])
U3 = dict(proto="udp", servers=["u1", "u2", "u3"], rules=["*"])
T1 = dict(proto="tcp", servers=["v1"], rules=["*"])

A1 = lambda ip="9.9.9.1", ttl=30: shape([("@", 1, ttl, ip)], for_=1)
A6 = lambda ip="fd00::1", ttl=30: shape([("@", 28, ttl, ip)], for_=28)
NX = lambda: shape([], rcode=3)

ASSUME = ["virtual time: the program's clock and sleeps are driven by the harness, one second at a time",
          "the machine does not lose datagrams between the program and the harness on loopback",
          "domain names are made of letters, digits, '-', '_' and at most 60 characters; TTLs stay below 2^31"]


class Profile:
    level = "model_checking"
    technique = "TLA+ specification: TLC on bounded models, TLC behaviours replayed into the real program, recorded executions checked against the specification by TLC"
    note = ("TLC checks the step properties on every transition of the bounded models; behaviours of the models and seeded random environments are run in the "
            "real program (built with AddressSanitizer, virtual clock) and every recorded execution must be a behaviour of the specification. "
            "Bounded: what is not generated is not covered. Trusted: TLC, harness/shim.c, lib/drive.py's recording.")
    trace_module = "Trace"
    describe = None
    assumptions = ASSUME
    tier = "quick"

    def __init__(self, pid, scenarios=(), loads=None, scale=12, budget=(150, 1500), builds=None, assumptions=()):
        self.pid = pid
        self.scenarios = list(scenarios)
        self._loads = {n: f for n, (c, f) in (loads or {}).items()}
        self.loads = {n: c for n, (c, f) in (loads or {}).items()}
        self.scale = scale
        self.budget = budget
        self.builds = builds or [build.forwarder]
        self.assumptions = ASSUME + list(assumptions)

    def scenario(self, name):
        return next(s for s in self.scenarios if s.name == name)

    def load(self, name):
        return self._loads[name]


PROFILES = {}


def prop(pid, *scenarios, **kw):
    loads = kw.pop("loads", {})
    PROFILES[pid] = Profile(pid, scenarios, loads, **kw)


NAMES = ["a.com", "b.com", "www.a.com", "c.org", "x.y.c.org", "long-name.example.net"]


def stacks(rnd, cfg, p=.35):
    """some servers, and some of the addresses to listen on, as IPv6 addresses; several of the latter"""
    if rnd.random() < p:
        cfg["groups"] = [dict(g, v6=sorted(rnd.sample(range(1, 30), rnd.choice([8, 15, 29])))) for g in cfg["groups"]]
    if rnd.random() < p:
        cfg["locals"] = rnd.sample([1, 2, 3, -4, -5, -6], rnd.choice([1, 2, 2, 3, 5]))
    return cfg


def long_(rnd, tier, n):
    return n if tier == "quick" else int(n * rnd.choice([1, 1, 2]))


# ---------------------------------------------------------------- D01, D02
def l_mix(rnd, tier):
    cfg = dict(groups=[rnd.choice([U1, U2, U3])], hosts=rnd.choice([[], [], [("tgt.com", "r1.com"), ("tgt.com", "r2.com")]]))
    return Mix(rnd, stacks(rnd, cfg), NAMES[:rnd.choice([2, 4, 6])] + ["r1.com", "r2.com", "tgt.com"], types=(1, 28, 16), case=.2, n=long_(rnd, tier, 80),
               clients=4, w=dict(dup=6, odd=6), lag=rnd.choice([0, 0, 10]), ap=.1).run()


def l_two(rnd, tier):
    """two groups, few identifiers and names: collisions everywhere"""
    cfg = dict(groups=[dict(proto="udp", servers=["u1"], rules=["a.com"]), dict(proto="udp", servers=["u2", "u3"], rules=["*"], par=rnd.random() < .4)])
    return Mix(rnd, stacks(rnd, cfg), ["a.com", "b.com", "www.a.com"], types=(1, 28), ids=(1, 2), case=.3, n=long_(rnd, tier, 90), clients=4,
               w=dict(dup=6, odd=8, batch=8), advs=(1, 1, 2, 2, 3)).run()


def l_tcpmix(rnd, tier):
    g = [rnd.choice([U2, T1, dict(proto="tcp", servers=["v1", "v2"], rules=["*"])])]
    if rnd.random() < .4:
        g.append(dict(proto="udp", servers=["u5"], rules=["a.com", "c.org"]))
    cfg = dict(groups=g, udp2tcp=True, tcp2udp=True, tcplocal=True)
    return Mix(rnd, stacks(rnd, cfg), NAMES[:4], types=(1, 28, 16), ids=(1, 2, 3), clients=2, tcp=3, n=long_(rnd, tier, 70), w=dict(tclose=4, dup=4, odd=4, batch=6), case=.1).run()


def l_deep(rnd, tier):
    """many queries in flight, answered in any order"""
    names = ["n%d.%s" % (i, rnd.choice(["com", "org", "example.net"])) for i in range(rnd.choice([60, 120, 250]))]
    cfg = dict(groups=[rnd.choice([U1, U2, dict(proto="tcp", servers=["v1"], rules=["*"])])], udp2tcp=True)
    lag = rnd.choice([20, 50, 55])
    return Mix(rnd, cfg, names, types=(1, 28, 16, 12), ids=rnd.choice([(7,), (1, 2, 3), tuple(rnd.randrange(65536) for _ in range(60))]), clients=4,
               n=long_(rnd, tier, 130), w=dict(adv=1, batch=6, dup=1, odd=2), advs=(1,), lag=lag, recent=rnd.choice([0.0, .5, 1.0]), edns=.1).run()


SC_ROUTE = Scenario("route", dict(groups=[U2]),
                    q=[("c1", 7, "a.com", 1), ("c2", 7, "a.com", 1), ("c1", 7, "a.com", 28), ("c2", 7, "b.com", 1)],
                    sh=[A1(), NX(), shape([], badid=True)], adv=[3, 12], depth=5, dup=2, nbeh=32)
SC_CASE = Scenario("case", dict(groups=[U1]),
                   q=[("c1", 1, "A.com", 1), ("c2", 1, "a.COM", 1), ("c1", 2, "a.com", 1)],
                   sh=[A1(), shape([("@", 1, 9, "9.9.9.7")], othername="a.Com", for_=1), shape([], othertype=16)], adv=[2], depth=5, dup=1, nbeh=24)

prop("D01", SC_ROUTE, SC_CASE, loads=dict(mix=(60, l_mix), two=(60, l_two), tcp=(60, l_tcpmix)))
prop("D02", SC_ROUTE, loads=dict(deep=(90, l_deep), mix=(40, l_mix), tcp=(30, l_tcpmix)))


# ---------------------------------------------------------------- D03
def l_fail(rnd, tier):
    n = rnd.choice([1, 2, 3, 4])
    g = [dict(proto="udp", servers=["u%d" % (i + 1) for i in range(n)], rules=["*"])]
    if rnd.random() < .4:
        g.append(dict(proto="udp", servers=["u8", "u9"], rules=["b.com"], par=rnd.random() < .3))
    return Mix(rnd, stacks(rnd, dict(groups=g)), NAMES[:4], types=(1, 28), n=long_(rnd, tier, 60), w=dict(q=40, r=rnd.choice([2, 8, 20]), adv=30, dup=3, odd=2),
               advs=(1, 1, 2, 3, 3, 4, 8, 10, 11, 13, 25), recent=rnd.choice([.2, .9])).run()


def l_quiet(rnd, tier):
    """questions that stay unanswered, between others that are answered, and pauses of any length"""
    g = dict(proto="udp", servers=rnd.choice([["u1"], ["u1", "u2"], ["u1", "u2", "u3"]]), rules=["*"], par=rnd.random() < .4)
    m = Mix(rnd, stacks(rnd, dict(groups=[g], cache=False)), NAMES, types=(1, 28, 16), ids=range(1, 60), clients=2, n=0)
    d = m.d

    def ask(n=1, answer=False):
        for _ in range(n):
            d.query(m.client(), m.qbytes())
        if answer and d.inbox:
            q = d.inbox.pop()
            d.respond(q, m.rbytes(q))
    try:
        for _ in range(rnd.choice([4, 6])):
            for _ in range(rnd.choice([1, 2, 3])):
                ask(rnd.choice([0, 1, 2, 4]))
                if rnd.random() < .4:
                    d.advance(rnd.choice([1, 3]))
                ask(answer=rnd.random() < .8)
                if rnd.random() < .5:
                    d.advance(rnd.choice([3, 5, 9, 11]))
            ask(answer=True)
            d.advance(rnd.choice([8, 9, 9, 9, 10]))
            ask()
            d.advance(rnd.choice([1, 1, 2]))
            if d.inbox:
                q = d.inbox.pop()
                d.respond(q, m.rbytes(q))
            if d.failed:
                break
        return m.finish()
    finally:
        d.close()


SC_FAIL = Scenario("failover", dict(groups=[U3]), q=[("c1", 1, "a.com", 1), ("c2", 2, "b.com", 1)],
                   sh=[A1(), NX()], adv=[2, 3, 12], depth=6, dup=1, nbeh=40)
prop("D03", SC_FAIL, loads=dict(fail=(110, l_fail), quiet=(60, l_quiet)))


# ---------------------------------------------------------------- D04
def l_wire(rnd, tier):
    tcp = rnd.random() < .4
    g = [rnd.choice([U1, U2]) if not tcp else rnd.choice([T1, U1])]
    cfg = dict(groups=g, udp2tcp=True, tcp2udp=True, tcplocal=True)
    return Wire(rnd, cfg, ["a.com", "b.com", "", "_x._tcp.long-label-%s.example.org" % ("y" * 40), "1.0.0.127.in-addr.arpa"],
                types=(1, 28, 16, 255, 33, 2, 6, 12, 15, 65, 257, 99, 64, 10, 41000), ids=tuple(rnd.randrange(65536) for _ in range(20)) + (0, 65535),
                clients=2, tcp=2, n=long_(rnd, tier, 70), case=.4, w=dict(adv=2, dup=0, odd=0, batch=2)).run()


prop("D04", SC_CASE, SC_ROUTE, loads=dict(wire=(150, l_wire)))

# ---------------------------------------------------------------- D05
RULEPOOL = ["com", "a.com", "b.a.com", "c.b.a.com", "net", "x.net", "a.com.net", "*", "*.org", "w*.a.org", "?.b.org", "ww?.com", "*a*", "a", "com.a"]
QPOOL = ["a.com", "b.a.com", "c.b.a.com", "z.c.b.a.com", "xa.com", "aa.com", "com", "net", "x.net", "q.x.net", "a.com.net", "q.org", "a.org", "w1.a.org", "ww.a.org",
         "b.org", "c.b.org", "cc.b.org", "www.com", "ww1.com", "m.com", "a", "b.com.a", "ya.net", "a.co", ".a.com".strip("."), "bb.a.com"]


def pattern(rnd, names):
    """a pattern with wildcards, made of one of the names, that matches it or not"""
    n = list(rnd.choice([x for x in names if x]))
    for _ in range(rnd.choice([1, 1, 2, 3])):
        i = rnd.randrange(len(n))
        c = n[i]
        k = rnd.randrange(7)
        if k == 0:
            n[i] = "?"
        elif k == 1:
            n[i] = "*"
        elif k == 2:
            n.insert(rnd.randrange(len(n) + 1), "*")
        elif k == 3:
            n[i:rnd.randrange(i, len(n)) + 1] = ["*"]
        elif len(c) > 1 or not c.isalnum():
            n[i] = rnd.choice(["?", "*", "[.a]"])
        elif k == 4:
            n[i] = rnd.choice(["[%s]", "[a-c%s]", "[%s0-9]", "[!%s]", "[x%sz]"]) % c
        elif k == 5:
            n[i] = rnd.choice(["[a-m]", "[n-z]", "[0-4]", "[!a-m]", "[!0-9]", "[abcw]"])
        else:
            n.insert(i, "?")
    return "".join(n)


def group_file(rnd, g):
    """a group of a file: some names in another file, both protocols"""
    if rnd.random() < .4:
        g["list"] = rnd.randrange(1, len(g["rules"]) + 1)
    if g["proto"] == "udp" and rnd.random() < .25:
        g["proto"] = "*"


def l_groups(rnd, tier):
    gs = []
    for i in range(rnd.choice([1, 2, 3, 4])):
        proto = rnd.choice(["udp", "udp", "tcp"])
        rules = rnd.sample(RULEPOOL, rnd.choice([1, 2, 3, 5])) + [pattern(rnd, QPOOL) for _ in range(rnd.choice([0, 0, 1, 2]))]
        if rnd.random() < .15:
            rules[0] = "." + rules[0] if rules[0][0] not in "*?[" else rules[0]
        p = "u" if proto == "udp" else "v"
        gs.append(dict(proto=proto, servers=["%s%d" % (p, 2 * i + 1)] + (["%s%d" % (p, 2 * i + 2)] if rnd.random() < .4 else []), rules=rules,
                       par=rnd.random() < .2, file=rnd.random() < .35))
        if gs[-1]["file"]:
            group_file(rnd, gs[-1])
            gs[-1]["missing"] = i > 0 and rnd.random() < .1
    # every query finds some group that may carry it
    if rnd.random() < .6:
        gs.append(dict(proto="udp", servers=["u20"], rules=["*"]))
        gs.append(dict(proto="tcp", servers=["v20"], rules=["*"]))
    cfg = dict(groups=gs, udp2tcp=rnd.random() < .5, tcp2udp=rnd.random() < .5, tcplocal=True)
    return Mix(rnd, stacks(rnd, cfg), rnd.sample(QPOOL, 14), types=(1, 28, 16), clients=2, tcp=2, n=long_(rnd, tier, 60), case=.3, w=dict(r=10, adv=3, dup=0, odd=0)).run()


SC_GROUPS = Scenario("groups", dict(groups=[dict(proto="udp", servers=["u1"], rules=["a.com", "org"]), dict(proto="udp", servers=["u2"], rules=["b.a.com", "*.org"]),
                                            dict(proto="udp", servers=["u3"], rules=["*"])]),
                     q=[("c1", 1, n, 1) for n in ("a.com", "b.a.com", "c.b.a.com", "x.org", "org", "xa.com")], sh=[A1()], depth=3, nbeh=32, gdepth=14)
SC_TRANS = Scenario("transport", dict(groups=[dict(proto="udp", servers=["u1"], rules=["a.com"]), dict(proto="tcp", servers=["v2"], rules=["a.com", "b.com"]),
                                              dict(proto="udp", servers=["u3"], rules=["*"]), dict(proto="tcp", servers=["v4"], rules=["*"])], tcplocal=True),
                    q=[("c1", 1, "a.com", 1), ("t1", 1, "a.com", 1), ("c1", 2, "b.com", 1), ("t1", 2, "b.com", 1), ("t1", 3, "z.com", 1)], sh=[A1()], depth=3, nbeh=24, gdepth=10)
prop("D05", SC_GROUPS, SC_TRANS, loads=dict(groups=(140, l_groups)))


# ---------------------------------------------------------------- D06
def l_filter(rnd, tier):
    dis = rnd.sample(RULEPOOL[:7] + RULEPOOL[8:], rnd.choice([0, 1, 2, 4])) + [pattern(rnd, QPOOL) for _ in range(rnd.choice([0, 0, 1]))]
    dl = rnd.sample(["d.com", "sub.d.com", "lst.net", "*.ads.org", "ad?.com", "a.com", "x.net"], rnd.choice([0, 2, 4])) + [pattern(rnd, QPOOL) for _ in range(rnd.choice([0, 0, 1]))]
    cfg = dict(groups=[U1], disabled=dis, dislist=dl, distypes=rnd.choice([[], [28], [255, 16], [65, 1]]), tcplocal=True, tcp2udp=True,
               cache=rnd.random() < .3, hosts=rnd.choice([[], [("1.2.3.4", "a.com"), ("x.net", "r.com"), ("d.com", "r2.com")]]))
    names = rnd.sample(QPOOL, 8) + ["d.com", "sub.d.com", "xsub.d.com", "e.com", "lst.net", "q.ads.org", "ads.org", "ad1.com", "r.com", "r2.com"]
    if cfg["cache"]:
        names = [n for n in names]
    return Mix(rnd, cfg, names, types=(1, 28, 16, 255, 65), clients=2, tcp=1, n=long_(rnd, tier, 60), case=0 if cfg["cache"] else .3, w=dict(r=20, adv=3, dup=0, odd=0)).run()


def l_filter_reload(rnd, tier):
    def mk(r):
        no = r.random() < .15
        return dict(groups=[U1], dynhosts=[("1.1.1.1", "h.com")], nodislist=no, disabled=["always.com"], dislist=[] if no else r.sample(["d.com", "e.com", "sub.e.com", "*.f.com", "com"], r.choice([0, 1, 2, 3])), reload=30)
    return Mix(rnd, mk(rnd), ["d.com", "a.d.com", "e.com", "sub.e.com", "x.f.com", "f.com", "org", "always.com"], n=long_(rnd, tier, 50), w=dict(reload=8), alt=lambda r, m: mk(r)).run()


SC_FILTER = Scenario("filter", dict(groups=[U1], disabled=["d.com", "*.ads.org"], distypes=[16], hosts=[("1.2.3.4", "x.d.com")]),
                     q=[("c1", 1, "d.com", 1), ("c1", 2, "x.d.com", 1), ("c1", 3, "xd.com", 1), ("c1", 4, "q.ads.org", 1), ("c1", 5, "a.com", 16)],
                     sh=[A1()], depth=4, nbeh=24, gdepth=12)
prop("D06", SC_FILTER, loads=dict(filter=(130, l_filter), reload=(24, l_filter_reload)))

# ---------------------------------------------------------------- D07, D08, D09
HN = ["h1.com", "h2.com", "sub.h1.com", "w1.net", "ww.net", "x.wild.org", "y.wild.org", "plain.com", "zz.a.org", "excl.wild.org"]


def six(rnd):
    """an IPv6 address, in one of the ways it may be written"""
    v = [rnd.choice([0, 0, 1, rnd.randrange(65536)]) for _ in range(8)]
    if rnd.random() < .2:
        v[:6] = [0, 0, 0, 0, 0, 0xffff]
    a = ipaddress.IPv6Address(b"".join(struct.pack(">H", x) for x in v))
    k = rnd.randrange(6)
    if k == 0:
        return a.exploded
    if k == 1:
        return a.compressed.upper()
    if k == 2:
        return ":".join("%x" % x for x in v)
    if k == 3:
        return ":".join("%x" % x for x in v[:6]) + ":" + str(ipaddress.IPv4Address(a.packed[12:]))
    if k == 4:
        return socket.inet_ntop(socket.AF_INET6, a.packed)
    return a.compressed


def hosts_table(rnd, k, redirect=False):
    out = []
    for _ in range(k):
        n = rnd.choice(HN + ["*.wild.org", "w?.net", "*.h1.com", "?z.*.org", pattern(rnd, HN), pattern(rnd, HN)])
        v = rnd.choice(["1.2.3.%d" % rnd.randrange(1, 255), "10.0.%d.9" % rnd.randrange(255), "fd00::%x" % rnd.randrange(1, 65535), "2001:db8::%x:1" % rnd.randrange(1, 999), six(rnd)])
        out.append((v, n))
    if rnd.random() < .4:
        out.append(("@@", rnd.choice(HN)))
    return out


def l_hosts(rnd, tier):
    cfg = dict(groups=[U1], hosts=hosts_table(rnd, rnd.choice([1, 3, 8])), tcplocal=True, tcp2udp=True, cache=rnd.random() < .3)
    if rnd.random() < .5:
        cfg["dynhosts"] = hosts_table(rnd, rnd.choice([1, 3, 8]))
        cfg["reload"] = rnd.choice([100000, 0])
    return Mix(rnd, cfg, HN, types=(1, 1, 28, 28, 16, 5, 255, 12), clients=2, tcp=1, n=long_(rnd, tier, 60), case=0 if cfg["cache"] else .3,
               w=dict(r=15, adv=2, dup=0, odd=0), edns=.3).run()


def l_hosts_reload(rnd, tier):
    n, script, http = rnd.choice([1, 1, 2, 3]), rnd.random() < .2, rnd.random() < .5
    old = hosts_table(rnd, rnd.choice([0, 2, 5])) if rnd.random() < .4 else None
    R = rnd.choice([30, 30, 17, 0]) if http else 30

    def mk(r):
        # several files, some of which may be missing (if none is there nothing is read at all), and a script that adds to them
        c = dict(groups=[U1], hosts=[("7.7.7.7", "h1.com")], dynhosts=[], sources=[hosts_table(r, r.choice([0, 1, 3, 6])) for _ in range(n)], reload=R, http=http, old=old)
        if not http and (started or old is not None):
            c["sources"] = [None if r.random() < .25 else x for x in c["sources"]]
        if http and not started:
            c["web"] = r.choice(["ok", "ok", "ok", "refused", "error", "part"])
        if script:
            c.update(script=hosts_table(r, r.choice([0, 1, 2])), exit=r.choice([0, 0, 1]))
        started.append(1)
        return c
    started = []
    return Mix(rnd, mk(rnd), HN, types=(1, 28, 5), n=long_(rnd, tier, 50), w=dict(reload=8, web=8 if http else 0, restart=2 if rnd.random() < .5 else 0), alt=lambda r, m: mk(r)).run()


SC_HOSTS = Scenario("hosts", dict(groups=[U1], hosts=[("1.2.3.4", "h.com"), ("fd00::5", "h.com"), ("1.2.3.5", "*.w.org"), ("@@", "ex.w.org")], dynhosts=[("5.5.5.5", "d.com"), ("6.6.6.6", "h.com")], reload=100000),
                    q=[("c1", 1, "h.com", 1), ("c1", 2, "h.com", 28), ("c1", 3, "x.w.org", 1), ("c1", 4, "ex.w.org", 1), ("c1", 5, "d.com", 28), ("c1", 6, "H.com", 1), ("c1", 7, "h.com", 16)],
                    sh=[A1(), A6()], depth=3, nbeh=24, gdepth=12)
prop("D07", SC_HOSTS, loads=dict(hosts=(140, l_hosts), reload=(24, l_hosts_reload)))


def l_redirect(rnd, tier):
    hosts = [("tgt.com", "r1.com"), ("tgt.com", "r2.com"), ("r1.com", "r3.com"), ("h1.com", "r4.com"), ("1.2.3.4", "h1.com"), ("*.w.org".replace("*", "q"), "*.rw.org"), ("dis.com", "r5.com"),
             ("r3.com", "r8.com"), ("y1.com", "y2.com"), ("y2.com", "y1.com"), ("y3.com", "y3.com"), ("y1.com", "y4.com"), ("fd00::9", "h1.com")]
    hosts = rnd.sample(hosts, rnd.choice([2, 4, 8, 12]))
    gs = [rnd.choice([U1, U2, T1])]
    conv = dict(tcp2udp=True, udp2tcp=True)
    if rnd.random() < .3:
        gs = [U1, T1]
        conv = dict(tcp2udp=rnd.random() < .3, udp2tcp=rnd.random() < .3)
    cfg = dict(groups=gs, hosts=hosts, disabled=["dis.com"], tcplocal=True, cache=rnd.random() < .3, **conv)
    if rnd.random() < .3:
        cfg["dynhosts"] = [("other.com", "r6.com"), ("tgt.com", "r7.com"), ("9.9.9.9", "other.com")]
        cfg["reload"] = rnd.choice([100000, 0])
    names = ["tgt.com", "r1.com", "r2.com", "r3.com", "r4.com", "r5.com", "r6.com", "r7.com", "r8.com", "x.rw.org", "q.w.org", "plain.com", "h1.com", "other.com", "y%d.com" % rnd.randrange(1, 5)]
    return Mix(rnd, stacks(rnd, cfg), names, ap=.1, types=(1, 1, 28, 5, 16), ids=(1, 2, 3), clients=3, tcp=2, n=long_(rnd, tier, 70), case=0 if cfg["cache"] else .2,
               w=dict(dup=3, odd=3, batch=5), edns=.3, advs=(1, 1, 2, 3, 12)).run()


SC_REDIR = Scenario("redirect", dict(groups=[U1], hosts=[("tgt.com", "r1.com"), ("tgt.com", "r2.com"), ("r1.com", "r3.com")]),
                    q=[("c1", 1, "r1.com", 1), ("c2", 1, "r2.com", 1), ("c1", 2, "r3.com", 1), ("c2", 3, "tgt.com", 1), ("c1", 4, "r1.com", 5)],
                    sh=[A1(), NX()], adv=[3], depth=5, nbeh=32, gdepth=14)
prop("D08", SC_REDIR, loads=dict(redirect=(140, l_redirect)))


def l_v6(rnd, tier):
    cfg = dict(groups=[U1], hosts=hosts_table(rnd, rnd.choice([2, 5, 8])), blockv6=True, cache=rnd.random() < .4)
    if rnd.random() < .5:
        cfg["dynhosts"] = hosts_table(rnd, 4)
        cfg["reload"] = rnd.choice([100000, 0])
    if rnd.random() < .5:
        cfg["good"] = dict(l1=dict(every=30, ips=["g1", "g2"]))
        cfg["hosts"] = cfg["hosts"] + [("<l1>", rnd.choice(HN + ["*.wild.org", "n1.com"])) for _ in range(rnd.choice([1, 2]))]
    return Mix(rnd, cfg, HN + ["n1.com", "n2.com"], types=(28, 28, 28, 1, 16), clients=2, n=long_(rnd, tier, 60), w=dict(r=25, adv=3, dup=0, odd=0)).run()


SC_V6 = Scenario("ipv6", dict(groups=[U1], hosts=[("1.2.3.4", "h.com"), ("fd00::5", "h.com"), ("fd00::6", "s.com"), ("1.1.1.1", "*.w.org")], blockv6=True),
                 q=[("c1", 1, "h.com", 28), ("c1", 2, "s.com", 28), ("c1", 3, "x.w.org", 28), ("c1", 4, "n.com", 28), ("c1", 5, "h.com", 1)],
                 sh=[A1(), A6()], depth=4, nbeh=24, gdepth=12)
prop("D09", SC_V6, loads=dict(v6=(110, l_v6)))

# ---------------------------------------------------------------- D10, D11, D12
CN = ["a.com", "b.com", "www.a.com", "c.org"]


def l_fresh(rnd, tier):
    cfg = dict(groups=[U1], cache=True, ignorettl=rnd.random() < .15, cachepar=rnd.random() < .2)
    return Mix(rnd, cfg, CN, types=(1, 28, 5, 16), ids=(1, 2), clients=2, n=long_(rnd, tier, 80), flags=.1, ap=.05,
               w=dict(q=50, r=35, adv=22, dup=2, odd=2), ttls=[1, 2, 3, 5, 8, 60, 61, 119, 300], advs=(1, 1, 1, 2, 3, 4, 5, 30, 59, 60)).run()


def l_content(rnd, tier):
    cfg = dict(groups=[U1], cache=True, cachepar=rnd.random() < .3, tcplocal=True, tcp2udp=True)
    return Mix(rnd, cfg, CN + ["d.com", "e.com", "1.0.0.127.in-addr.arpa"], types=(1, 2, 5, 12, 15, 16, 28, 65, 33, 255), clients=2, tcp=1, n=long_(rnd, tier, 80),
               w=dict(q=50, r=40, adv=5, dup=3, odd=3), ttls=[30, 300, 86400, 604800], advs=(1, 2, 10, 40), edns=.3).run()


def l_shared(rnd, tier):
    """answers about each other's names: aliases and additional records end up in the cache"""
    names = ["a.com", "b.com", "c.com", "d.com"]

    def answer(p, n, t):
        an, own = [], n
        if t != 5:
            for _ in range(rnd.choice([0, 0, 1, 1, 2])):
                nxt = rnd.choice([x for x in names if x != own])
                an.append((own, 5, m.ttl(), nxt))
                own = nxt
        if rnd.random() < .8 or not an:
            for _ in range(rnd.choice([1, 2])):
                an.append((own, t, m.ttl(), m.data(t)))
        k = dict(an=an)
        if rnd.random() < .4:
            k["ar"] = [(rnd.choice(names), 1, m.ttl(), m.addr(1)) for _ in range(rnd.choice([1, 2]))]
        if rnd.random() < .2:
            k["ns"] = [(rnd.choice(names), 2, m.ttl(), "ns.example.net")]
        return k
    m = Mix(rnd, dict(groups=[U1], cache=True, cachepar=rnd.random() < .3), names, types=(1, 28, 5), ids=(1,), clients=1, n=long_(rnd, tier, 70), answer=answer, edns=0, flags=0,
            w=dict(q=50, r=45, adv=10, dup=0, odd=0, batch=0), ttls=[2, 5, 20, 300], advs=(1, 2, 3, 10))
    return m.run()


SC_CACHE = Scenario("cache", dict(groups=[U1], cache=True),
                    q=[("c1", 1, "a.com", 1), ("c2", 2, "a.com", 28), ("c1", 3, "b.com", 1)],
                    sh=[shape([("@", 1, 2, "9.9.9.1"), ("@", 1, 5, "9.9.9.2")], for_=1), shape([("@", 5, 3, "b.com"), ("b.com", 1, 2, "9.9.9.3")], for_=1), NX()],
                    adv=[1, 2, 60], depth=6, nbeh=40)
prop("D10", SC_CACHE, loads=dict(fresh=(120, l_fresh), shared=(40, l_shared)))
prop("D11", SC_CACHE, loads=dict(content=(110, l_content), shared=(70, l_shared)))


def l_ttl(rnd, tier):
    rules = []
    pool = ["a.com", "com", "www.a.com", "alias.org", "*.org", "b.com", "net", "*"]
    for p in rnd.sample(pool, rnd.choice([0, 1, 2, 4])) + [pattern(rnd, ["a.com", "www.a.com", "b.com", "x.net", "alias.org"]) for _ in range(rnd.choice([0, 0, 1]))]:
        k = rnd.choice(["orig", "nocache", "fixed", "vari"])
        rules.append((p, k, rnd.choice([1, 2, 3]) if k == "vari" else 0, rnd.choice([0, 1, 5, 60]) if k == "vari" else rnd.choice([1, 5, 90]) if k == "fixed" else 0, rnd.choice([0, 1, 2])))
    cfg = dict(groups=[U1], cache=True, ttl=rules)
    x = rnd.random()
    if x < .2:
        cfg["overridettl"] = rnd.choice([1, 7, 100])
    elif x < .4:
        cfg["multiplettl"] = rnd.choice([2, 5])
    names = ["a.com", "www.a.com", "b.com", "x.net", "c.org"]

    def answer(p, n, t):
        an, own = [], n
        for _ in range(rnd.choice([0, 0, 1])):
            nxt = rnd.choice(["alias.org", "q.alias.org", "b.com", "other.info"])
            if nxt != own:
                an.append((own, 5, m.ttl(), nxt))
                own = nxt
        an.append((own, t, m.ttl(), m.data(t)))
        return dict(an=an)
    m = Mix(rnd, cfg, names, types=(1, 28), ids=(1,), clients=1, n=long_(rnd, tier, 80), answer=answer, edns=0, flags=0,
            w=dict(q=50, r=45, adv=20, dup=0, odd=0, batch=0), ttls=[1, 2, 5, 20, 300], advs=(1, 1, 2, 3, 5, 10, 30))
    return m.run()


SC_TTL = Scenario("ttlrules", dict(groups=[U1], cache=True, ttl=[("a.com", "fixed", 0, 4, 0), ("b.com", "vari", 2, 1, 1), ("c.com", "nocache", 0, 0, 2)]),
                  q=[("c1", 1, "a.com", 1), ("c1", 2, "b.com", 1), ("c1", 3, "c.com", 1)],
                  sh=[shape([("@", 1, 2, "9.9.9.1")], for_=1)], adv=[1, 3], depth=6, nbeh=40)
prop("D12", SC_TTL, loads=dict(ttl=(150, l_ttl)))


# ---------------------------------------------------------------- D13
def spoil_cache(r):
    def f(path):
        k = r.randrange(4)
        if k == 0:
            os.unlink(path)
        elif k == 3:                            # cut short
            os.truncate(path, int(os.path.getsize(path) * r.choice([0.01, .5, .99])))
        elif k == 1:
            with open(path, "wb") as f:
                f.write(r.randbytes(r.choice([0, 1, 5, 300, 70000, 2000000])))
        else:                                   # another version's
            with open(path, "r+b") as f:
                f.write(struct.pack("<I", r.choice([0, 22, 24, 99])))
    return f


def l_persist(rnd, tier):
    cfg = dict(groups=[U1], cache=True, cachefile=True, cachesize=rnd.choice([1048576, 102400, 204800]), ignorettl=rnd.random() < .1)

    def again(r):
        x = r.random()
        if x < .1:
            return dict(spoil=spoil_cache(r))
        if x < .2:
            return dict(cfg=dict(m.d.cfg, cachesize=r.choice([1048576, 102400, 204800])))
        return {}
    m = Mix(rnd, cfg, CN + ["d.com"], types=(1, 28, 5, 16, 2, 15), ids=(1, 2), clients=2, n=long_(rnd, tier, 60), again=again,
            w=dict(q=50, r=45, adv=12, dup=0, odd=0, batch=0, restart=7), ttls=[2, 5, 20, 60, 300, 86400], advs=(1, 2, 5, 30, 60), edns=.1, flags=0)
    return m.run()


def l_restart(rnd, tier):
    """ended at any moment, with questions in flight and another configuration afterwards"""
    def mk(r):
        return dict(groups=[r.choice([U1, U2, U3])], hosts=r.choice([[], [("1.2.3.4", "a.com")], [("b.com", "www.a.com")]]), cache=True, cachefile=True, cachesize=204800, disabled=r.choice([[], ["c.org"]]))
    return Mix(rnd, mk(rnd), CN + ["d.com"], types=(1, 28, 16), ids=(1, 2), clients=2, n=long_(rnd, tier, 60), again=lambda r: dict(cfg=mk(r)),
               w=dict(q=50, r=40, adv=8, dup=4, odd=0, batch=4, restart=7), ttls=[2, 5, 20, 60, 300], advs=(1, 2, 5, 30), edns=.1, flags=0).run()


SC_PERSIST = Scenario("restart", dict(groups=[U1], cache=True, cachefile=True, cachesize=204800), restart=[0, 3],
                      q=[("c1", 1, "a.com", 1), ("c2", 2, "b.com", 1)],
                      sh=[shape([("@", 1, 4, "9.9.9.1")], for_=1), shape([("@", 5, 3, "b.com"), ("b.com", 1, 6, "9.9.9.3")], for_=1)],
                      adv=[2], depth=6, nbeh=32, gdepth=14)
prop("D13", SC_PERSIST, loads=dict(persist=(90, l_persist), restart=(50, l_restart)))


# ---------------------------------------------------------------- D15
def network(rnd):
    """(as it is written, addresses at its borders)"""
    v6 = rnd.random() < .5
    if v6:
        bits = 128
        base = rnd.choice([0, 0, 0xfd << 120, (0xfd << 120) + rnd.randrange(1, 40), (0xfd00 << 112) + (rnd.randrange(3) << 64), (0x20010db8 << 96) + (rnd.randrange(1 << 16) << 80) + rnd.randrange(1 << 48),
                           (0xffff << 32) + (9 << 24) + rnd.randrange(40), rnd.randrange(1 << 128)])
        l = rnd.choice([0, 1, 3, 8, 16, 31, 32, 33, 64, 95, 96, 97, 120, 127, 128, None, None, None])
    else:
        bits = 32
        base = rnd.choice([(9 << 24) + rnd.randrange(40), (9 << 24) + rnd.randrange(40), 0x08080808, (10 << 24) + (rnd.randrange(4) << 16), 0, rnd.randrange(1 << 32)])
        l = rnd.choice([0, 1, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 28, 30, 31, 32, None, None, None])
    n = bits if l is None else l
    lo = base >> (bits - n) << (bits - n)
    hi = lo + (1 << (bits - n)) - 1
    ad = [str((ipaddress.IPv6Address if v6 else ipaddress.IPv4Address)(x % (1 << bits))) for x in (base, lo, hi, lo - 1, hi + 1)]
    if rnd.random() < .7:
        base = lo
    w = (ipaddress.IPv6Address if v6 else ipaddress.IPv4Address)(base)
    t = str(w)
    if v6:
        t = rnd.choice([t, t, t.upper(), w.exploded])
        if base >> 32 == 0xffff:
            t = rnd.choice([t, "::ffff:%d.%d.%d.%d" % tuple(w.packed[12:])])
    return t + ("" if l is None else "/%d" % l), ad


def l_ipm(rnd, tier):
    rules = []
    pool4 = ["9.0.0.%d" % rnd.randrange(1, 40) for _ in range(4)] + ["8.8.8.8", "10.1.15.255", "10.1.16.0"]
    pool6 = ["fd00::%x" % rnd.randrange(1, 40) for _ in range(4)] + ["fd01::1", "fc00::1"]
    for _ in range(rnd.choice([1, 2, 4, 8])):
        net, ad = network(rnd)
        v6 = ":" in net
        (pool6 if v6 else pool4).extend(ad + ad)
        if rnd.random() < .5:
            rules.append(("block", net))
        else:
            rules.append(("sub", net, rnd.choice(["fd77::7", "::", "FD77:1:2::A:B", "fd77:0:0:7:0:0:0:1", "::ffff:77.7.7.7"]) if v6 else rnd.choice(["77.7.7.7", "0.0.0.0", "255.255.255.255"])))
    cut = [r for r in rules if r[0] != "block"][rnd.randrange(4):] if rnd.random() < .4 else []     # in a file
    cfg = dict(groups=[rnd.choice([U1, T1])], ipm=[r for r in rules if r not in cut], **(dict(ipmfile=cut) if cut else {}), blockneg=rnd.random() < .3, cache=rnd.random() < .4, udp2tcp=True)

    def answer(p, n, t):
        if rnd.random() < .15:
            return dict(rcode=rnd.choice([2, 3, 5]))
        an, own = [], n
        if rnd.random() < .3:
            an.append((own, 5, m.ttl(), "al.org"))
            own = "al.org"
        for _ in range(rnd.choice([1, 1, 2, 3])):
            an.append((own, t, m.ttl(), rnd.choice(pool4 if t == 1 else pool6) if t in (1, 28) else m.data(t)))
        if rnd.random() < .1:
            an.append((own, 1, m.ttl(), rnd.choice(pool4), 3))        # not an address of the Internet
        k = dict(an=an)
        if rnd.random() < .3:
            k["ar"] = [("ns.x.com", 1, 60, rnd.choice(pool4))]
        return k
    m = Mix(rnd, cfg, ["n%d.com" % i for i in range(14)], types=(1, 1, 28, 16), clients=2, n=long_(rnd, tier, 70), answer=answer, w=dict(adv=3, dup=2, odd=1))
    return m.run()


SC_IPM = Scenario("addresses", dict(groups=[U1], ipm=[("block", "9.9.9.1"), ("sub", "8.0.0.0/8", "7.7.7.7"), ("block", "6.0.0.0/7")], cache=True),
                  q=[("c1", 1, "a.com", 1), ("c1", 2, "b.com", 1)],
                  sh=[A1("9.9.9.1"), A1("9.9.9.2"), A1("8.1.2.3"), A1("7.255.1.1"), shape([("@", 1, 30, "9.9.9.2"), ("@", 1, 30, "9.9.9.1")], for_=1)], depth=5, nbeh=32)
prop("D15", SC_IPM, loads=dict(ipm=(150, l_ipm)))


# ---------------------------------------------------------------- D16
def l_reload(rnd, tier):
    def ipm(r, no):
        return dict(noipmfile=no, ipmfile=[] if no else [("sub", "9.0.0.0/%d" % r.choice([16, 20, 28]), "70.0.0.%d" % r.randrange(1, 9))], ipm=[("block", "9.0.0.%d" % k) for k in (3, 7, 12)])

    def mk(r, first=False):
        gs = [dict(proto="udp", servers=r.choice([["u1", "u2"], ["u1"], ["u6"]]), rules=["*"], file=True),
              dict(proto=r.choice(["udp", "udp", "tcp"]), servers=None, rules=r.sample(["a.com", "b.com", "www.a.com", "c.org"], 2), file=True)]
        gs[1]["servers"] = r.choice([["u3"], ["u4", "u5"]]) if gs[1]["proto"] == "udp" else ["v3"]
        for g in gs:
            group_file(r, g)
        x = r.random()
        if x < .08:
            gs[1]["missing"] = True
        elif x < .14:
            gs[1]["rules"] = []
        elif x < .3 and not first:
            r.choice(gs)["broken"] = r.choice(["protocol", "server", "unknown"])
        return stacks(r, dict(keep, groups=gs, dynhosts=[("1.2.3.%d" % r.randrange(255), r.choice(["h1.com", "h2.com", "a.com"])), ("b.com", r.choice(["r1.com", "h2.com"]))],
                    dislist=r.sample(["d1.com", "d2.com", "b.com"], 1), reload=40, udp2tcp=True, cache=base_cache,
                    **(ipm(r, not first and r.random() < .2) if base_ipm else {})))
    base_cache, base_ipm, keep = rnd.random() < .3, rnd.random() < .4, {k: rnd.random() < .85 for k in ("redis", "reipm", "regroup")}
    return Mix(rnd, mk(rnd, True), ["a.com", "b.com", "www.a.com", "c.org", "h1.com", "h2.com", "d1.com", "d2.com", "r1.com"], types=(1, 28, 16), n=long_(rnd, tier, 60), w=dict(reload=8),
               alt=lambda r, m: mk(r)).run()


FG = lambda s, r: dict(proto="udp", servers=s, rules=r, file=True)
SC_RELOAD = Scenario("reload", dict(groups=[FG(["u1"], ["*"]), FG(["u2"], ["b.com"])], dynhosts=[("1.1.1.1", "h.com")], dislist=["d.com"], reload=40),
                     lives=[dict(groups=[FG(["u3"], ["*"])], dynhosts=[("2.2.2.2", "h.com")], dislist=["b.com"], reload=40)],
                     q=[("c1", 1, "a.com", 1), ("c2", 1, "b.com", 1), ("c1", 2, "h.com", 1), ("c2", 3, "d.com", 1)], sh=[A1()], adv=[2], depth=5, nbeh=32, gdepth=14)
prop("D16", SC_RELOAD, loads=dict(reload=(80, l_reload), filter=(16, l_filter_reload), hosts=(16, l_hosts_reload)))


# ---------------------------------------------------------------- D17
def l_tcpcli(rnd, tier):
    """clients that cut, pipeline, stop sending, send nonsense lengths and leave"""
    cfg = dict(groups=[rnd.choice([U2, T1, dict(proto="tcp", servers=["v1", "v2"], rules=["*"])])], udp2tcp=True, tcp2udp=True, tcplocal=True,
               hosts=rnd.choice([[], [("1.2.3.4", "www.a.com"), ("b.com", "c.org")]]), cache=rnd.random() < .3)
    return Mix(rnd, stacks(rnd, cfg), NAMES, types=(1, 28, 16), ids=(1, 2, 3), clients=1, tcp=4, n=long_(rnd, tier, 70), case=.1 if not cfg["cache"] else 0,
               w=dict(q=25, r=30, pieces=30, tclose=3, fin=3, bad=3, churn=1, adv=8, batch=0, dup=2, odd=2), advs=(1, 1, 2, 3, 12, 30, 60)).run()


def l_churn(rnd, tier):
    """more clients than there are file descriptors, one after the other"""
    cfg = dict(groups=[U1], tcp2udp=True, tcplocal=True, hosts=[("1.2.3.4", "www.a.com")])
    m = Mix(rnd, cfg, NAMES, types=(1, 28), ids=(1, 2, 3), clients=1, tcp=3, n=0, edns=.1)
    try:
        for _ in range(8):
            for _ in range(6):
                m.step()
            m.d.t_churn(160, rnd.choice([b"", b"\0", b"\0\x20abc"]))
            m.d.query(rnd.choice(m.tcp), m.qbytes())
            if rnd.random() < .5:
                m.tcp[0] = m.d.t_reset(m.tcp[0])
            if rnd.random() < .2:
                m.d.advance(rnd.choice([1, 20]))
        return m.finish()
    finally:
        m.d.close()


def l_deaf(rnd, tier):
    """a client that asks on and on and reads nothing, while others want answers"""
    an = [("big.com", 16, 3600, (bytes([250]) + bytes([97 + i]) * 250).hex()) for i in range(12)]
    cfg = dict(groups=[U1], tcp2udp=True, tcplocal=True, cache=True)
    m = Mix(rnd, cfg, NAMES, types=(1, 28), ids=(1, 2, 3), clients=2, tcp=2, n=0, edns=.1, w=dict(adv=2))
    d = m.d
    try:
        d.query("c1", dns.build(9, ("big.com", 16)))
        if d.inbox:
            q = d.inbox.pop()
            d.respond(q, dns.build(9, ("big.com", 16), an=an, qr=1, ra=1))
        d.t_open("t9", rcvbuf=4096)
        d.t_deaf("t9")
        one = dns.build(7, ("big.com", 16))
        for _ in range(10):
            d.junk(lambda: d._tsend("t9", 200 * (struct.pack(">H", len(one)) + one)))
            for _ in range(5):
                m.step()
        return m.finish()
    finally:
        m.d.close()


SC_TCPCLI = Scenario("tcpclients", dict(groups=[U1], tcp2udp=True, tcplocal=True), q=[("t1", 1, "a.com", 1), ("t2", 1, "a.com", 1), ("c1", 1, "a.com", 1), ("t1", 2, "b.com", 1)], sh=[A1(), NX()],
                     adv=[2, 12], depth=5, nbeh=24, gdepth=14)
prop("D17", SC_TCPCLI, loads=dict(tcpcli=(110, l_tcpcli), churn=(4, l_churn), deaf=(4, l_deaf)))


# ---------------------------------------------------------------- D18, D24
def l_tcpup(rnd, tier):
    cfg = dict(groups=[dict(proto="tcp", servers=["v1", "v2", "v3"][:rnd.choice([1, 2, 3])], rules=["*"], par=rnd.random() < .3)], udp2tcp=True, tcplocal=True,
               keepalive=rnd.choice([5, 5, 2, 30]))
    return Mix(rnd, stacks(rnd, cfg), ["a.com", "b.com", "www.a.com", "r1.com", "r2.com", "tgt.com"], types=(1, 28, 16), case=.2, n=long_(rnd, tier, 55), tcp=2,
               w=dict(cut=6, down=2, up=4, tclose=2, adv=10), advs=(1, 1, 2, 3, 5, 6, 10, 12)).run()


SC_TCP = Scenario("tcpservers", dict(groups=[dict(proto="tcp", servers=["v1", "v2"], rules=["*"])], udp2tcp=True, tcplocal=True),
                  q=[("c1", 1, "a.com", 1), ("t1", 1, "a.com", 1), ("c1", 2, "b.com", 1)], sh=[A1(), NX()], adv=[2, 6], depth=5, nbeh=32, gdepth=14)
prop("D18", SC_TCP, loads=dict(tcpup=(150, l_tcpup)))


# ---------------------------------------------------------------- D19
def l_socks(rnd, tier):
    """TCP servers behind SOCKS5 proxies"""
    cfg = dict(groups=[dict(proto="tcp", servers=["v1", "v2", "v3"][:rnd.choice([1, 1, 2, 3])], rules=["*"], par=rnd.random() < .3, proxies=["p7", "p8"][:rnd.choice([1, 2])])],
               udp2tcp=True, tcplocal=True, keepalive=rnd.choice([5, 5, 2, 30]))
    m = Mix(rnd, stacks(rnd, cfg), ["a.com", "b.com", "www.a.com", "r1.com", "r2.com", "tgt.com"], types=(1, 28, 16), case=.2, n=long_(rnd, tier, 50), tcp=2,
            w=dict(cut=5, down=4, up=5, tclose=1, adv=8, pdown=2, pup=4, pbad=1), advs=(1, 1, 2, 3, 5, 6, 10, 12))
    s = rnd.choice([0, 0, 1, 2, 3])
    m.d.style = lambda: dict(cut=s, bound=rnd.choice([b"\1\0\0\0\0\0\0", b"\1\x7f\1\2\3\xff\xff", b"\4" + bytes(range(18)), b"\3\x05proxy\4\x38", b"\3\0\0\0",
                                                      b"\3\xff" + b"n" * 255 + b"\1\1", b"\3\x80" + b"m" * 128 + b"\0\x35"]))
    return m.run()


SC_SOCKS = Scenario("proxied", dict(groups=[dict(proto="tcp", servers=["v1", "v2"], rules=["*"], proxies=["p7"])], udp2tcp=True, tcplocal=True),
                    q=[("c1", 1, "a.com", 1), ("t1", 1, "a.com", 1), ("c1", 2, "b.com", 1)], sh=[A1(), NX()], adv=[2, 6], depth=5, nbeh=32, gdepth=14)
prop("D19", SC_SOCKS, loads=dict(socks=(150, l_socks)))


# ---------------------------------------------------------------- D20
def l_hostile(rnd, tier):
    """malformed messages from clients and servers among ordinary ones"""
    cfg = dict(groups=[rnd.choice([U1, U1, T1])], udp2tcp=True, tcp2udp=True, tcplocal=True, cache=rnd.random() < .5,
               hosts=rnd.choice([[], [("1.2.3.4", "www.a.com"), ("b.com", "c.org"), ("1.2.3.5", "*.x.org")]]),
               ipm=rnd.choice([[], [("block", "9.0.0.0/25"), ("sub", "9.0.0.128/25", "7.7.7.7")]]), log=rnd.random() < .3)
    return Mix(rnd, cfg, NAMES, types=(1, 28, 16, 5, 12, 15), ids=(1, 2, 3), clients=2, tcp=2, n=long_(rnd, tier, 90), case=0 if cfg["cache"] else .2,
               w=dict(q=20, r=22, evilq=25, evilr=30, adv=4, dup=2, odd=1, batch=2), advs=(1, 1, 2, 3, 12), ap=.2).run()


SC_EVIL = Scenario("malformed", dict(groups=[U1]), q=[("c1", 7, "a.com", 1), ("c2", 7, "a.com", 1), ("c1", 8, "b.com", 28)],
                   sh=[A1(), shape([], ok=False), shape([], badid=True)], adv=[3], depth=5, dup=2, nbeh=24)
prop("D20", SC_EVIL, loads=dict(hostile=(150, l_hostile)))


# ---------------------------------------------------------------- D23
def l_layout(rnd, tier):
    """the same as other loads do, with configuration and list files written in other ways"""
    drive.LAYOUT = random.Random(rnd.random())
    try:
        return rnd.choice([l_groups, l_groups, l_filter, l_filter_reload, l_hosts, l_hosts_reload, l_ipm, l_ttl, l_reload, l_redirect, l_v6])(rnd, tier)
    finally:
        drive.LAYOUT = None


prop("D23", SC_GROUPS, SC_FILTER, loads=dict(layout=(160, l_layout)))


# ---------------------------------------------------------------- D14
FULLN = ["a.com", "bb.org", "ccc.example.net", "a-rather-long-name.example.com", "x" * 28 + ".org", "b.a.com", "y" * 45 + ".net"]


def l_full(rnd, tier):
    """a small cache that other clients' questions fill up, again and again"""
    cfg = dict(groups=[U1], cache=True, cachesize=rnd.choice([102400, 102400, 102401, 110000]), ignorettl=rnd.random() < .1)
    return Mix(rnd, cfg, FULLN, types=(1, 1, 1, 28, 16), ids=(1, 2, 3), clients=2, n=long_(rnd, tier, 70), edns=.1, flags=.1,
               w=dict(q=50, r=50, adv=9, fill=3, dup=1, odd=1), advs=(1, 5, 10, 40, 60, 100, 200, 250), ttls=[3, 20, 60, 300, 900]).run()


def l_refill(rnd, tier):
    """the room of what filled the cache, used again for as many records as there were of the same size"""
    cfg = dict(groups=[U1], cache=True, cachesize=rnd.choice([102400, 102401, 110000]))
    m = Mix(rnd, cfg, FULLN, types=(1,), ids=(1, 2, 3), clients=2, n=0, w=dict(q=50, r=50, adv=5), advs=(1, 5))
    d = m.d
    try:
        for _ in range(rnd.choice([1, 2, 3, 4, 6])):
            d.fill(rnd, rnd.choice([[20], [5, 30], [1, 2, 60]]), big=rnd.choice([266, 266, 100]), stay=rnd.choice([0, 90000, 90000]))
            d.advance(rnd.choice([60, 200, 200]))
        d.advance(200)
        names = ["z%03d" % i + "y" * (n - 8) + ".com" for n in (12, 30, 40) for i in range(rnd.choice([3, 10, 14]))]
        rnd.shuffle(names)
        for n in names:
            d.query("c1", dns.build(5, (n, 1)))
            for q in d.inbox[:]:
                d.inbox.remove(q)
                d.respond(q, dns.build(dns.parse(q["b"])["id"], (n, 1), an=[(n, 1, 3600, m.addr(1))], qr=1, ra=1))
        for n in rnd.sample(names, min(len(names), 25)):
            d.query("c2", dns.build(6, (n, 1)))
            if d.failed:
                break
        return m.finish()
    finally:
        d.close()


SC_FULL = Scenario("full-cache", dict(groups=[U1], cache=True, cachesize=102400), q=[("c1", 1, "a.com", 1), ("c2", 2, "a.com", 1), ("c1", 3, "ccc.example.net", 1)],
                   sh=[A1()], adv=[5, 250], fill=True, depth=6, nbeh=24, gdepth=14)
prop("D14", SC_FULL, loads=dict(full=(90, l_full), refill=(24, l_refill)))


# ---------------------------------------------------------------- D26
def l_good(rnd, tier):
    """lists of addresses that come and go"""
    ips = ["g%d" % i for i in range(1, rnd.choice([2, 3, 4, 6]))]
    lists = {x: dict(every=rnd.choice([1, 3, 10, 30]), ips=rnd.sample(ips, rnd.randrange(1, len(ips) + 1))) for x in ["l1", "list-two", "L3"][:rnd.choice([1, 1, 2, 3])]}
    if rnd.random() < .2:
        lists["empty"] = dict(every=5, ips=[])
    if rnd.random() < .05:
        lists = {}                                   # (names of lists that do not exist)
    at = lambda: "<%s>" % rnd.choice(sorted(lists) + ["nosuch"] * (not lists or rnd.random() < .2))
    hosts = [(at(), n) for n in rnd.sample(["a.com", "b.com", "*.x.org", "www.c.org"], rnd.choice([1, 2, 3]))]
    more = [(rnd.choice([at(), "1.2.3.4", "fd00::7", "b.com", "z.net"]), n) for n in rnd.sample(["a.com", "b.com", "r.net", "x.x.org"], 2)]
    cfg = dict(groups=[U1], cache=rnd.random() < .3, blockv6=rnd.random() < .2, good=lists, hosts=hosts + (more if rnd.random() < .5 else []))
    if rnd.random() < .3:
        cfg.update(dynhosts=more)
    return Mix(rnd, cfg, ["a.com", "b.com", "q.x.org", "x.x.org", "www.c.org", "r.net", "z.net", "A.com"], types=(1, 1, 1, 28, 16), ids=(1, 2, 3), clients=2,
               n=long_(rnd, tier, 70), w=dict(q=40, r=25, adv=12, gdown=9, gup=8, restart=1 if rnd.random() < .3 else 0), advs=(1, 2, 4, 5, 9, 12, 16, 35, 50)).run()


def l_turns(rnd, tier):
    """looks at lists of which mostly one address, another each time, accepts"""
    ips = ["g%d" % i for i in range(1, rnd.choice([3, 3, 4, 5]))]
    lists = {x: dict(every=rnd.choice([1, 3, 10]), ips=rnd.sample(ips, rnd.randrange(2, len(ips) + 1))) for x in ["l1", "l2"][:rnd.choice([1, 1, 2])]}
    cfg = dict(groups=[U1], good=lists, hosts=[("<%s>" % x, "%s.com" % x) for x in lists])
    m = Mix(rnd, cfg, ["%s.com" % x for x in lists], types=(1, 1, 1, 28), ids=(1, 2, 3), clients=2, n=0, w=dict(q=50, r=25, adv=5), advs=(1, 2, 5))
    d = m.d
    try:
        for _ in range(rnd.choice([6, 10, 14]) * (1 if tier == "quick" else 2)):
            want = set(rnd.sample(ips, 1)) if rnd.random() < .7 else {i for i in ips if rnd.random() < .4}
            for i in rnd.sample(ips, len(ips)):
                if i in d.tcpl and i not in want:
                    d.down(i, rnd.choice(["refused", "refused", "silent"]))
                elif i not in d.tcpl and i in want:
                    d.up(i)
            if rnd.random() < .9:
                d.advance(max(l["every"] for l in lists.values()) + 8)
            for _ in range(rnd.choice([2, 3, 4])):
                m.step()
            if d.failed:
                break
        return m.finish()
    finally:
        d.close()


SC_GOOD = Scenario("good-addresses", dict(groups=[U1], good=dict(l1=dict(every=5, ips=["g1", "g2", "g3"])), hosts=[("<l1>", "a.com")]),
                   q=[("c1", 1, "a.com", 1), ("c2", 2, "a.com", 28)], sh=[A1()], adv=[2, 15], turn=["g1", "g2"], depth=6, nbeh=32, gdepth=16)
prop("D26", SC_GOOD, loads=dict(good=(90, l_good), turns=(40, l_turns)))


# ---------------------------------------------------------------- D24
def l_par(rnd, tier):
    tcp = rnd.random() < .4
    n = rnd.choice([2, 3, 4])
    cfg = dict(groups=[dict(proto="tcp" if tcp else "udp", servers=["%s%d" % ("v" if tcp else "u", i + 1) for i in range(n)], rules=["*"], par=True)], udp2tcp=True,
               cache=rnd.random() < .5, cachepar=rnd.random() < .5)
    return Mix(rnd, stacks(rnd, cfg), CN, types=(1, 28), ids=(1, 2, 3), clients=3, n=long_(rnd, tier, 60), w=dict(q=25, r=50, dup=4, odd=4, adv=6), advs=(1, 2, 3, 11, 30)).run()


SC_PAR = Scenario("parallel", dict(groups=[dict(proto="udp", servers=["u1", "u2", "u3"], rules=["*"], par=True)]),
                  q=[("c1", 1, "a.com", 1), ("c2", 1, "a.com", 1)], sh=[A1(), NX()], adv=[3, 12], depth=5, nbeh=32, gdepth=14)
prop("D24", SC_PAR, loads=dict(par=(130, l_par)))
