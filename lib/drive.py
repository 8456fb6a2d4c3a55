"""Run a real forwarder under a scripted environment and record a trace.

A trace is {"cfg":..., "live":..., "ev":[...]} in the vocabulary of
spec/Forwarder.tla: every input together with everything the program put out
until it was quiescent again.
"""
import errno, glob, os, socket, struct, re
import dns
from sim import Sim, Dead, Hang, StartFailed

SAFE = re.compile(r"[^A-Za-z0-9.\-_*?]")


def clean(n):
    return SAFE.sub(lambda m: "~%02x" % ord(m.group(0)), n)


def is_wild(p):
    return any(c in p for c in "*?[")


def host_kind(v):
    if v.startswith("<"):
        return "G", v[1:-1]
    if v.startswith("@@"):
        return "X", ""
    try:
        socket.inet_aton(v) if v.count(".") == 3 else (_ for _ in ()).throw(OSError())
        return "A", v
    except OSError:
        pass
    try:
        return "AAAA", socket.inet_ntop(socket.AF_INET6, socket.inet_pton(socket.AF_INET6, v))
    except OSError:
        return "C", v


def addr_bytes(a):
    fam = socket.AF_INET6 if ":" in a else socket.AF_INET
    return list(socket.inet_pton(fam, a))


def tla_hosts(hosts):
    out = []
    for v, p in hosts:
        k, d = host_kind(v)
        out.append({"p": p, "k": k, "d": d})
    return out


def tla_ipm(rules):
    out = []
    for r in rules:
        net = r[1]
        a, _, l = net.partition("/")
        b = addr_bytes(a)
        d = ""
        if r[0] == "sub":
            fam = socket.AF_INET6 if ":" in r[2] else socket.AF_INET
            d = socket.inet_ntop(fam, socket.inet_pton(fam, r[2]))
        out.append({"k": r[0], "b": b, "len": int(l) if l else 8 * len(b), "d": d})
    return [x for x in out if x["k"] == "block"] + [x for x in out if x["k"] != "block"]     # the order the options are read in


def expand(groups):
    """the groups as the program has them: a file for both protocols makes two, a missing file or one without names none"""
    out = []
    for g in groups:
        if g.get("missing") or not g["rules"]:
            continue
        if g["proto"] == "*":
            out.append(dict(g, proto="udp"))
            out.append(dict(g, proto="tcp", servers=["v" + x[1:] for x in g["servers"]]))
        else:
            out.append(g)
    return out


def asked(g):
    """the servers of a group that are ever asked: in parallel, those of the same family as the first one"""
    v6 = lambda s: int(s[1:]) in g.get("v6", ())
    return [s for s in g["servers"] if not (g["proto"] == "udp" and g.get("par")) or v6(s) == v6(g["servers"][0])]


def sources(cfg):
    """the files hosts are read from; None: it is not there"""
    return cfg.get("sources", [cfg["dynhosts"]] if "dynhosts" in cfg else [])


def loaded(cfg, web="ok"):
    """the dynamic hosts that a re-reading finds; None: it fails"""
    hs = sources(cfg)
    if "dynhosts" not in cfg or all(x is None for x in hs) or (cfg.get("http") and web != "ok"):
        return None
    return [h for x in hs for h in x or []] + cfg.get("script", [])


def tla_live(cfg, groups=None, web="ok", disk=()):
    """what is in force once the files have been read, possibly from a web server in some state; disk: hosts read some other time"""
    hs = loaded(cfg, web)
    if hs is None:
        hs = list(disk) if "dynhosts" in cfg else []
    rules = []
    grp = expand(cfg["groups"] if groups is None else groups)
    for gi, g in enumerate(grp):
        for p in g["rules"]:
            rules.append({"p": p[1:] if p.startswith(".") else p, "g": gi + 1})
    return {"dis": [{"p": p} for p in cfg.get("disabled", []) + cfg.get("dislist", [])],
            "hosts": tla_hosts(hs),
            "grp": [{"proto": g["proto"], "servers": asked(g), "par": bool(g.get("par"))} for g in grp],
            "rules": rules,
            "ipm": tla_ipm(cfg.get("ipm", []) + cfg.get("ipmfile", []))}


def tla_ttl(cfg):
    out = []
    for (p, k, x, y, inf) in cfg.get("ttl", []):
        out.append({"p": p, "k": k, "x": x, "y": y, "inf": inf})
    if cfg.get("overridettl", -1) > -1:
        out.append({"p": "*", "k": "fixed", "x": 0, "y": cfg["overridettl"], "inf": 1})
    elif cfg.get("multiplettl", 1) > 1:
        out.append({"p": "*", "k": "vari", "x": cfg["multiplettl"], "y": 0, "inf": 1})
    return out


def tla_cfg(cfg):
    b = lambda k: bool(cfg.get(k, False))
    return {"distypes": cfg.get("distypes", []), "hosts": tla_hosts(cfg.get("hosts", [])),
            "blockv6": b("blockv6"), "ignorettl": b("ignorettl"), "cache": b("cache"),
            "cachepar": b("cachepar"), "ttl": tla_ttl(cfg), "tcp2udp": b("tcp2udp"),
            "udp2tcp": b("udp2tcp"), "ap": b("ap"), "blockneg": b("blockneg"), "keepalive": cfg.get("keepalive", 5),
            "good": {k: {"every": v["every"], "ips": list(v["ips"])} for k, v in cfg.get("good", {}).items()}}


def unmapped(a):
    """an IPv4-mapped IPv6 address as the IPv4 address it stands for"""
    try:
        b = socket.inet_pton(socket.AF_INET6, a)
        return socket.inet_ntoa(b[12:]) if b[:12] == bytes(10) + b"\xff\xff" else a
    except OSError:
        return a


def chop(b, n):
    """b in pieces: the first ones of n bytes (0: all in one)"""
    if not n:
        return [b]
    k = min(len(b), 9)
    return [b[i:min(i + n, k)] for i in range(0, k, n)] + [x for x in (b[k:-2], b[max(k, len(b) - 2):]) if x]


LAYOUT = None       # a random.Random: files are written in some other way that means the same


def cased(name):
    """a name, as it may also be written"""
    r = LAYOUT
    if r is None or r.random() < .7:
        return name
    return r.choice([str.upper, str.title, lambda x: "".join(r.choice([c, c.upper()]) for c in x)])(name)


def layout(text, kind):
    """the same configuration ("config") or list, written differently"""
    r = LAYOUT
    if r is None:
        return text
    out = []
    for line in text.rstrip("\n").split("\n"):
        while r.random() < .25:
            common = ["", "# note", "; note", "; 6.6.6.6 * # note", "# note; note", "   ", "\t", "#" + "x" * r.choice([100, 126, 127, 128, 2046, 2047, 2048, 2300]), "  # UDPGroup 9.9.9.9 * off", "#"]
            config = ["NoSuchOption 5", "Word", "NoSuch=1", "noSuch a,b,c # d", "NoSuch " + "UseCache " * r.randrange(225, 230), "x" * r.randrange(2043, 2050)]
            # too long for a list: ignored as a whole, however it ends
            lists = [r.choice(["x", "6.6.6.6", "*", "?"]) + r.choice([" ", "\t", "*", "x"]) * r.choice([800, 1000, 1500])
                     + {"hosts": "6.6.6.6 *", "pairs": "9.0.0.0/8 77.7.7.7"}.get(kind, r.choice(["*", "com", "a.com"])),
                     "x" * (r.choice([128, 256, 320, 384, 512, 639, 768]) + r.randrange(-4, 5)) + r.choice(["", " ", "\t#", " ; "])]
            out.append(r.choice(common if r.random() < .65 else config if kind == "config" else lists))
        if kind == "config":
            k, v = line.split(" ", 1)
            if v in ("true", "false"):
                v = r.choice({"true": ["true", "1", "yes", "TRUE", "Yes"], "false": ["false", "0", "no", "False", "NO"]}[v])
            line = k + r.choice([" ", " ", "\t", "   ", " \t ", "=", "= "]) + v
        elif " " in line:
            a, b = line.split(" ", 1)
            if kind == "hosts":
                b = cased(b)
            elif kind == "group":
                a, b = cased(a), (cased(b) if a in ("PROTOCOL", "PARALLEL") else b)
            line = a + r.choice([" ", " ", "\t", "   ", " \t "]) + b
        else:
            line = cased(line) + (r.choice([".", ".."]) if kind in ("group", "lists") and r.random() < .1 else "")
        out.append(r.choice(["", "", " ", "\t  "]) + line + r.choice(["", "", "", " ", "\t", " # a note", "\t;x", " ; a note, see #5", " # one; two", ";#", " #" + "y" * r.choice([10, 127, 128, 400, 2100])]))
    end = r.choice(["\n", "\n", "\r\n"])
    return end.join(out) + r.choice([end, end, "", end * 3])


def listed(names, sep=","):
    """a list of names as a value: possibly with so many more names (that nobody asks for) that the line is very long"""
    r = LAYOUT
    if r is None:
        return ",".join(names)
    names = list(names)
    if r.random() < .3:
        k = r.randrange(len(names) + 1)
        total = r.choice([2040, 2048, 2060, 4090, 4100, 6200]) - sum(len(x) + 1 for x in names) + r.randrange(-70, 70)
        more = []
        while sum(len(x) + 1 for x in more) < total:
            more.append("f%d.filler%s.invalid" % (len(more), "x" * r.choice([0, 1, 2, 3, 30])))
        names[k:k] = more
    names = [cased(x) for x in names]
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        names.insert(r.randrange(len(names) + 1), r.choice(["", " "]) if " " in sep else "")
    return sep.join(names)


def together(key, items):
    """lines for an option that may be given a list or several times"""
    out = []
    for x in items:
        if LAYOUT and out and LAYOUT.random() < .3:
            out[-1] += LAYOUT.choice([",", ", ", " , ", ",,"] if key != "IPSubstituting" else [",", ", ", " , "]) + x
        else:
            out.append(key + " " + x)
    return out


def comma(items, spaces=False):
    """a list of addresses as a value"""
    r = LAYOUT
    if r is None:
        return ",".join(items)
    out = r.choice(["", "", "", ","])
    for x in items:
        out += ("" if out.strip(",") == "" else r.choice([",", ",", ",,"] + [", ", " , ", " "] * spaces)) + x
    return out + r.choice(["", "", "", ","])


class Driver:
    def __init__(self, cfg, asan=True, name="", hang_s=20.0, extra="", files=None):
        self.cfg = cfg
        self.name = name
        self.extra = extra
        self.raws = {}
        self.names = {}          # addresses that stand for themselves
        self.ev = []
        self.gen = 0
        self.inbox = []          # requests upstream servers hold: dicts
        self.tcpl = {}           # server name -> listening socket
        self.tsrv = {}           # server conn id -> dict(sock, buf, srv, mod)
        self.tcli = {}           # client conn name -> dict(sock, buf, closed)
        self.mute = {}           # addresses that do not react at all -> sockets
        self.closed = []
        self.connlog = []
        self.ports = {}          # source port -> module that asks UDP servers
        self.umods = {}          # (generation, group) -> the module and its ports, where servers are of both families
        self.alike = {}          # (module, id, name) -> questions sent to TCP servers
        self.odd = []            # what no server or client should ever see
        self.asked = {}          # (module, question) -> how often it was sent to TCP servers
        self.failed = None
        self.cfg0 = cfg
        self.fresh = True
        self.sim = Sim(self._config, files=files, asan=asan, hang_s=hang_s)
        self.web = cfg.get("web", "ok")     # how the server of hosts behaves
        self.webcon = []
        self.disk = cfg.get("old") or []      # in the file that hosts are kept in
        self.due = None                     # when files are read again
        self.live0 = self.live1 = tla_live(cfg, None, self.web, self.disk)
        self.nconn = 0
        self.on_conn = None
        self.behind = {}         # servers behind proxies -> why they cannot be reached (None: they can)
        self.style = None        # how proxies answer: function () -> (pieces of the greeting's answer, of the other's)
        self.raw_servers = {}    # server name -> handler(driver, conn) overriding framing

    # ---- configuration
    def srv_ip(self, s):
        return self.sim.ip((70 if s[0] == "g" else 10) + int(s[1:]))

    def srv_addr(self, g, s, port=""):
        """a server as the configuration has it"""
        return self.text6(self.srv_ip(s), port) if int(s[1:]) in g.get("v6", ()) else self.srv_ip(s) + port

    def text6(self, ip, port=""):
        b = socket.inet_aton(ip)
        x = "%x:%x" % struct.unpack(">HH", b)
        forms = ["::ffff:" + x, "::FFFF:" + x.upper(), "0:0:0:0:0:ffff:" + x, "0000:0000:0000:0000:0000:FFFF:%04x:%04x" % struct.unpack(">HH", b), "::ffff:" + ip, "0:0:0:0:0:ffff:" + ip]
        return "[%s]%s" % ((LAYOUT.choice(forms) if LAYOUT else forms[b[3] % len(forms)]), port)

    def locals(self):
        """the addresses the program listens on: numbers, those below 0 written as IPv6 addresses"""
        return self.cfg0.get("locals", [1])

    def local(self, client):
        """where this client asks"""
        return (self.sim.ip(abs(self.locals()[int(client[1:].split("r")[0]) % len(self.locals())])), 53)

    def _group_line(self, g):
        servers = comma(self.srv_addr(g, s, ":53" if g.get("port") else "") for s in g["servers"])
        if g["proto"] == "udp":
            return "UDPGroup %s %s %s" % (servers, listed(g["rules"]), "on" if g.get("par") else "off")
        return "TCPGroup %s %s %s %s" % (servers, listed(g["rules"]), "on" if g.get("par") else "off",
                                         comma(self.srv_addr(g, x, ":1080") for x in g["proxies"]) if g.get("proxies") else "no")

    def group_file(self, g, i):
        out = ["PROTOCOL %s" % g["proto"].upper(), "SERVER " + comma((self.srv_addr(g, s) for s in g["servers"]), True),
               "PARALLEL %s" % ("ON" if g.get("par") else "OFF")]
        bad = g.get("broken")           # unusable in some way
        if bad == "protocol":
            del out[0]
        elif bad == "server":
            del out[1]
        elif bad == "unknown":
            out[0] = "PROTOCOL SCTP"
        if g["proto"] == "tcp" and g.get("proxies"):
            out.append("PROXY " + comma((self.srv_addr(g, x, ":1080") for x in g["proxies"]), True))
        k = g.get("list", 0)            # so many of the names are in a file of their own
        rules = list(g["rules"])
        if k:
            out.append("LIST " + self.sim.path("Names%d.lst" % i))
            self.sim.write_file("Names%d.lst" % i, layout("\n".join(rules[len(rules) - k:]) + "\n", "lists"))
            rules = rules[:len(rules) - k]
        return layout("\n".join(out + rules) + "\n", "group")

    def write_reloadables(self, cfg):
        """Files a reload reads."""
        sim = self.sim
        def gone(name):
            if os.path.exists(sim.path(name)):
                os.unlink(sim.path(name))
        for i, hs in enumerate(sources(cfg)):
            if hs is None:
                gone("Dyn%d.hosts" % i)
            else:
                sim.write_file("Dyn%d.hosts" % i, layout("".join("%s %s\n" % h for h in hs), "hosts"))
        if "script" in cfg:
            sim.write_file("script.sh", "#!/bin/sh\n" + "".join("echo '%s %s' >>%s\n" % (h + (sim.path("hosts.cache"),)) for h in cfg["script"]) + "exit %d\n" % cfg.get("exit", 0))
            os.chmod(sim.path("script.sh"), 0o755)
        if "dislist" in cfg and cfg.get("nodislist"):
            gone("disabled.lst")
        elif "dislist" in cfg:
            sim.write_file("disabled.lst", layout("".join(p + "\n" for p in cfg["dislist"]), "names"))
        if "ipmfile" in cfg and cfg.get("noipmfile"):
            gone("ipsub.lst")
        elif "ipmfile" in cfg:
            sim.write_file("ipsub.lst", layout("".join("%s %s\n" % (r[1], r[2]) for r in cfg["ipmfile"]), "pairs"))
        for i, g in enumerate(cfg["groups"]):
            if g.get("missing"):
                if os.path.exists(sim.path("group%d.txt" % i)):
                    os.unlink(sim.path("group%d.txt" % i))
            elif g.get("file"):
                sim.write_file("group%d.txt" % i, self.group_file(g, i))

    def _config(self, sim):
        self.sim = sim
        c = self.cfg
        at = lambda: [(sim.ip(n) + p) if n > 0 else self.text6(sim.ip(-n), p) for n in self.locals() for p in [LAYOUT.choice([":53", ""]) if LAYOUT else ":53"]]
        L = []
        for key in ["UDPLocal"] + ["TCPLocal"] * bool(c.get("tcplocal")):
            k = LAYOUT.randrange(len(self.locals())) if LAYOUT else 0
            L += [key + " " + comma(x) for x in (at()[:k], at()[k:]) if x]
        self.write_reloadables(c)
        for i, g in enumerate(c["groups"]):
            L.append(("GroupFile " + sim.path("group%d.txt" % i)) if g.get("file") else self._group_line(g))
        yn = lambda k: "true" if c.get(k) else "false"
        L += ["UseCache " + yn("cache"), "CacheParallel " + yn("cachepar"), "IgnoreTTL " + yn("ignorettl"),
              "EnableUDPtoTCP " + yn("udp2tcp"), "EnableTCPtoUDP " + yn("tcp2udp"), "AP " + yn("ap"),
              "BlockNegativeResponse " + yn("blockneg"), "BlockIpv6WhenIpv4Exists " + yn("blockv6"),
              "LogOn " + yn("log")]
        if c.get("log"):
            L.append("LogFileFolder " + sim.path("log"))
            os.makedirs(sim.path("log"), exist_ok=True)
        if c.get("cachesize"):
            L.append("CacheSize %d" % c["cachesize"])
        if c.get("cachefile"):
            L += ["MemoryCache false", "CacheFile " + sim.path("cache.bin"), "ReloadCache true",
                  "OverwriteCache " + ("true" if c.get("overwrite", True) else "false")]
        if "overridettl" in c:
            L.append("OverrideTTL %d" % c["overridettl"])
        if "multiplettl" in c:
            L.append("MultipleTTL %d" % c["multiplettl"])
        for (p, k, x, y, inf) in c.get("ttl", []):
            arg = {"orig": "", "nocache": "", "fixed": " %d" % y, "vari": " %dx+%d" % (x, y)}[k]
            L.append("CacheControl %s %s%s%s" % (cased(p), "$" * inf, k, arg))
        if LAYOUT and c.get("disabled") and LAYOUT.random() < .6:
            k = LAYOUT.randrange(len(c["disabled"]) + 1)
            L += ["DisabledDomain " + listed(x, LAYOUT.choice([",", ", ", " , "])) for x in (c["disabled"][:k], c["disabled"][k:]) if x]
        else:
            for p in c.get("disabled", []):
                L.append("DisabledDomain " + cased(p))
        if c.get("distypes"):
            k = LAYOUT.randrange(len(c["distypes"]) + 1) if LAYOUT else 0
            L += ["DisabledType " + ",".join(str(t) for t in x) for x in (c["distypes"][:k], c["distypes"][k:]) if x]
        if "dislist" in c:
            L.append("DisabledList " + sim.path("disabled.lst"))
        L += together("AppendHosts", ["%s %s" % (v, cased(p)) for v, p in c.get("hosts", [])])
        for k, v in c.get("good", {}).items():
            L.append("GoodIPList %s %d" % (k, 1000 * v["every"]))
            L += ["GoodIPListAddIP %s %s:%d" % (k, self.srv_ip(x), self.port(x)) for x in v["ips"]]
        if "dynhosts" in c:
            q = LAYOUT.choice(["", '"']) if LAYOUT else ""
            L += ["Hosts " + q + ("http://%s:8080/" % sim.ip(160) if c.get("http") else "file://" + sim.path("")) + "Dyn%d.hosts" % i + q for i in range(len(sources(c)))]
            if c.get("old") is not None and self.fresh:
                sim.write_file("hosts.cache", layout("".join("%s %s\n" % h for h in c["old"]), "hosts"))
            if "script" in c:
                L.append("HostsScript " + sim.path("script.sh"))
            L += ["HostsDownloadPath " + sim.path("hosts.cache"),
                  "ModulesUpdateInterval %d" % c.get("reload", 60), "HostsRetryInterval 5",
                  "ReloadGroupFile " + ("true" if c.get("regroup", True) else "false")]
            L += [o + " false" for k, o in (("redis", "ReloadDisabledList"), ("reipm", "ReloadIPSubstituting")) if not c.get(k, True)]
        L += together("BlockIP", [r[1] for r in c.get("ipm", []) if r[0] == "block"])
        L += together("IPSubstituting", ["%s %s" % (r[1], r[2]) for r in c.get("ipm", []) if r[0] != "block"])
        if "ipmfile" in c:
            L.append("IPSubstitutingFile " + sim.path("ipsub.lst"))
        if c.get("keepalive") is not None:
            L.append("TCPKeepAlive %d" % c["keepalive"])
        if self.extra:
            L.append(self.extra(self) if callable(self.extra) else self.extra)
        return layout("\n".join(L) + "\n", "config")

    # ---- lifecycle
    def start(self, clients=3):
        self.groups = expand(self.cfg["groups"])     # in force
        for g in self.groups:
            for s in g["servers"]:
                if g.get("proxies"):
                    self.behind[s] = None
                else:
                    self.add_server(s, g["proto"])
            for s in g.get("proxies") or []:
                self.raw_servers[s] = Driver._socks
                self.add_server(s, "tcp")
        for s in sorted({x for v in self.cfg.get("good", {}).values() for x in v["ips"]}):
            self.names[self.srv_ip(s)] = s
            self.listen(s)
        for i in range(1, clients + 1):
            self.sim.udp("c%d" % i, 100 + i)
        self.fresh = False
        if self.cfg.get("http"):
            self.web_is(self.web)
        try:
            self.sim.start()
            self._settle()
            self._loading()
        except (Dead, Hang) as e:
            self._fail(e)
        return self

    def add_server(self, s, proto):
        if proto == "udp":
            if s not in self.sim.socks:
                self.sim.udp(s, 10 + int(s[1:]), 53)
        elif s not in self.tcpl:
            self.listen(s)

    def port(self, s):
        return {"p": 1080, "g": 8000}.get(s[0], 53)

    def listen(self, s, port=None):
        k = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        k.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        k.bind((self.srv_ip(s), port or self.port(s)))
        k.listen(64)
        k.setblocking(False)
        self.tcpl[s] = k

    def ignore(self, s):
        """connections to s neither succeed nor fail: nobody accepts them and no more are queued"""
        self.mute[s] = [socket.socket(socket.AF_INET, socket.SOCK_STREAM) for _ in range(4)]
        k = self.mute[s][0]
        k.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        k.bind((self.srv_ip(s), self.port(s)))
        k.listen(0)
        for c in self.mute[s][1:]:
            c.setblocking(False)
            c.connect_ex((self.srv_ip(s), self.port(s)))

    def unlisten(self, s):
        self.tcpl.pop(s).close()

    def close(self):
        for k in list(self.tcpl.values()) + sum(self.mute.values(), []):
            k.close()
        for c in list(self.tsrv.values()) + list(self.tcli.values()) + self.webcon:
            c["sock"].close()
        if hasattr(self, "webl"):
            self.webl.close()
        self.sim.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ---- messages
    def raw(self, b):
        return self.raws.setdefault(bytes(b), len(self.raws) + 1)

    def msg(self, b):
        m = {"raw": self.raw(b), "ok": False, "id": 0, "qr": 0, "aa": 0, "tc": 0, "rd": 0, "ra": 0, "rcode": 0,
             "nq": 0, "qn": "", "qt": 0, "qc": 0, "an": [], "ns": [], "ar": [], "edns": 0}
        try:
            if len(b) > 4096:       # not received as a whole
                raise dns.Bad("big")
            p = dns.parse(b)
        except (dns.Bad, struct.error, ValueError, OSError):
            if len(b) >= 2:
                m["id"] = struct.unpack(">H", b[:2])[0]
            return m
        m["ok"] = True
        for k in ("id", "qr", "aa", "tc", "rd", "ra", "rcode", "edns"):
            m[k] = p[k]
        m["nq"] = len(p["q"])
        if p["q"]:
            m["qn"], m["qt"], m["qc"] = clean(p["q"][0][0]), p["q"][0][1], p["q"][0][2]
        for k in ("an", "ns", "ar"):
            for (n, t, c, ttl, d) in p[k]:
                d = self.names.get(d, d)
                bs = []
                if t in (dns.A, dns.AAAA):
                    try:
                        bs = addr_bytes(d)
                    except OSError:
                        pass
                ln = len(d)
                m[k].append({"n": clean(n), "t": t, "c": c, "ttl": min(ttl, 2 ** 31 - 1),
                             "d": d if t not in dns.NAMEY and t != dns.MX else (clean(d) if t != dns.MX or " " not in d else d.split(" ")[0] + " " + clean(d.split(" ", 1)[1])),
                             "b": bs, "len": ln if t in dns.NAMEY or t == dns.MX else (4 if t == 1 else 16 if t == 28 else ln // 2)})
        return m

    # ---- observation
    def _recv_tcp(self, c):
        """read what is there; returns False once the peer closed."""
        while True:
            try:
                d = c["sock"].recv(65536)
            except (BlockingIOError, InterruptedError):
                return True
            except OSError:
                return False
            if not d:
                return False
            c["buf"] += d

    def in_use(self, port, v6):
        """whether the program still has a UDP socket of this port (None: unknown)"""
        with socket.socket(socket.AF_INET6 if v6 else socket.AF_INET, socket.SOCK_DGRAM) as k:
            try:
                if v6:
                    k.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 1)
                k.bind(("", port))
                return False
            except OSError as e:
                if e.errno != errno.EADDRINUSE:
                    return None
        mine = set()
        for fd in glob.glob("/proc/%d/task/*/fd/*" % self.sim.proc.pid):        # (its first thread has ended)
            try:
                mine.add(os.readlink(fd))
            except OSError:
                pass
        with open("/proc/net/udp6" if v6 else "/proc/net/udp") as lines:        # (may leave some out)
            for x in [x.split() for x in lines][1:]:
                if int(x[1].rsplit(":", 1)[1], 16) == port and "socket:[%s]" % x[9] in mine:
                    return True
        return None

    def _umod(self, s, port):
        """the module that asked UDP server s from this port: it has a socket for each family"""
        if port in self.ports:
            return self.ports[port]
        g = next((i for i, x in enumerate(self.groups) if x["proto"] == "udp" and s in x["servers"] and x.get("v6")), None)
        m = {"mod": "U:%d" % port}
        if g is not None:
            family = int(s[1:]) in self.groups[g]["v6"]
            if family not in self.umods.get((self.gen, g), {family: 0}) and self.in_use(self.umods[(self.gen, g)][not family], not family) is not False:
                m = self.umods[(self.gen, g)]
            m[family] = port
            self.umods[(self.gen, g)] = m
        self.ports[port] = m["mod"]
        return m["mod"]

    def _drain(self):
        outs = []
        progress = False
        for (n, a, d) in self.sim.drain_udp():
            progress = True
            if n[0] == "c":
                if a != self.local(n):
                    self.odd.append("an answer from another address")
                outs.append({"k": "re", "to": n, "tr": "udp", "mod": "", "m": self.msg(d), "src": a})
            else:
                mod = self._umod(n, a[1])
                self.inbox.append({"srv": n, "addr": a, "b": d, "mod": mod, "conn": None})
                outs.append({"k": "up", "to": n, "tr": "udp", "mod": mod, "m": self.msg(d)})
        progress = self._web() or progress
        for s, k in list(self.tcpl.items()):
            while True:
                try:
                    cs, a = k.accept()
                except (BlockingIOError, InterruptedError):
                    break
                progress = True
                cs.setblocking(False)
                cs.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                self.nconn += 1
                cid = "k%d" % self.nconn
                g = next((i + 1 for i, x in enumerate(self.groups) if s in x["servers"] or s in (x.get("proxies") or [])), 0)
                self.tsrv[cid] = {"id": cid, "sock": cs, "buf": bytearray(), "srv": s, "mod": "T%d.%d" % (self.gen, g), "n": 0, "state": {}}
                self.connlog.append(("open", cid, s))
        for cid, c in list(self.tsrv.items()):
            before = len(c["buf"])
            alive = self._recv_tcp(c)
            if len(c["buf"]) != before:
                progress = True
            h = self.raw_servers.get(c["srv"])
            if h:
                if h(self, c):
                    progress = True
                if cid not in self.tsrv:
                    continue
            if not (h and not c["state"].get("framed")):
                name = c["state"].get("as", c["srv"])
                while len(c["buf"]) >= 2:
                    l = struct.unpack(">H", c["buf"][:2])[0]
                    if len(c["buf"]) < 2 + l:
                        break
                    d = bytes(c["buf"][2:2 + l])
                    del c["buf"][:2 + l]
                    c["n"] += 1
                    c["busy"] = True
                    c["wait"] = [d]
                    a = self.alike.setdefault(self.akey(c["mod"], d), [])
                    if d not in a:
                        a.append(d)
                    self.asked[(c["mod"], self.qkey(d))] = self.asked.get((c["mod"], self.qkey(d)), 0) + 1
                    self.inbox.append({"srv": name, "addr": None, "b": d, "mod": c["mod"], "conn": cid})
                    outs.append({"k": "up", "to": name, "tr": "tcp", "mod": c["mod"], "m": self.msg(d), "conn": cid})
            if not alive:
                progress = True
                self.connlog.append(("close", cid, c["srv"]))
                c["sock"].close()
                del self.tsrv[cid]
        while self.odd:
            outs.append({"k": "junk", "to": "", "tr": "", "mod": "", "what": self.odd.pop(0)})
        for n, c in list(self.tcli.items()):
            if c["closed"] or c.get("deaf"):
                continue
            before = len(c["buf"])
            alive = self._recv_tcp(c)
            if len(c["buf"]) != before:
                progress = True
            while len(c["buf"]) >= 2:
                l = struct.unpack(">H", c["buf"][:2])[0]
                if len(c["buf"]) < 2 + l:
                    break
                outs.append({"k": "re", "to": n, "tr": "tcp", "mod": "", "m": self.msg(bytes(c["buf"][2:2 + l]))})
                del c["buf"][:2 + l]
            if not alive:
                progress = True
                c["closed"] = True
                if c["buf"]:
                    outs.append({"k": "junk", "to": n, "tr": "tcp", "mod": "", "m": self.msg(bytes(c["buf"]))})
                outs.append({"k": "bye", "to": n})
                self.closed.append(n)
        return outs, progress

    def _settle(self):
        outs = []
        for _ in range(400):
            self.sim.quiesce()
            o, progress = self._drain()
            outs += o
            if not progress:
                break
        return outs

    def _fail(self, e):
        self.failed = "%s: %s" % (type(e).__name__, e)
        self.ev.append({"op": "dead", "outs": [], "why": self.failed[:200]})

    def _event(self, ev, act):
        """perform act(), settle, record."""
        if self.failed:
            return []
        outs = []
        try:
            r = act()
            if r:
                outs += r
            outs += self._settle()
        except (Dead, Hang) as e:
            ev["outs"] = outs
            self._fail(e)
            return outs
        for o in outs:
            o.pop("src", None)
        ev["outs"] = outs
        self.ev.append(ev)
        return outs

    # ---- inputs
    def _q(self, client, b):
        ev = {"op": "q", "c": client, "tr": "tcp" if client[0] == "t" else "udp", "m": self.msg(b)}
        if client[0] == "t":
            return ev, lambda: self._tsend(client, struct.pack(">H", len(b)) + b)
        return ev, lambda: self._usend(client, b)

    def _usend(self, client, b):
        try:
            self.sim.socks[client].sendto(b, self.local(client))
        except OSError:
            pass

    def _tsend(self, client, b):
        try:
            self.tcli[client]["sock"].sendall(b)
        except OSError:
            pass

    def query(self, client, b):
        ev, act = self._q(client, b)
        return self._event(ev, act)

    def t_feed(self, client, piece, msgs):
        """the next piece of what the client sends; it completes the messages msgs"""
        evs = [self._q(client, m)[0] for m in msgs]
        ev = {"op": "nop"} if not evs else evs[0] if len(evs) == 1 else {"op": "batch", "evs": evs}
        return self._event(ev, lambda: self._tsend(client, piece))

    def junk(self, act):
        """something no answer is due for"""
        return self._event({"op": "nop"}, act)

    def fill(self, rnd, ttls, big=266, stay=0):
        """other clients' traffic, not recorded, that fills the cache: small items of the sizes A records of names have, then big ones (which stay)"""
        cls = {}

        def ask(name, t, an):
            b = dns.build(7, (name, t))
            self._usend("c1", b)
            self._settle()
            mine = [r for r in self.inbox if dns.parse(r["b"])["q"][0][0] == name]
            for r in mine:
                self.inbox.remove(r)
                self._r(r, dns.build(7, (name, t), an=an, qr=1, ra=1))[1]()
            self._settle()

        def act():
            ttl = lambda: rnd.choice(ttls)
            k = 0
            parts = [n for n in (12, 30, 40) for _ in range(4)]
            if rnd.random() < .7:
                rnd.shuffle(parts)
            for n in parts:
                an = [("x%04d" % (k + j) + "y" * (n - 9) + ".com", dns.A, ttl(), "8.0.0.%d" % j) for j in range(10)]
                k += 10
                ask(an[0][0], dns.A, an)
            for i in range(0, big, 7):
                ask("w%05d.com" % i, dns.TXT, [("w%05d.com" % (i + j), dns.TXT, stay or ttl(), (bytes([199]) + b"z" * 199).hex() * 2) for j in range(7)])
        return self._event({"op": "fill", "n": max(ttls) + 130, "cls": [2, 3, 4]}, act)

    def restart(self, n=0, sig=9, cfg=None, spoil=None):
        """the program is ended and started again n seconds later; its files are still there (spoil: but for its cache file)"""
        keep = bool(self.cfg.get("cachefile")) and not spoil
        if cfg:
            keep = keep and cfg.get("cachesize") == self.cfg.get("cachesize")
            self.cfg = cfg
            for g in expand(cfg["groups"]):
                for x in g["servers"]:
                    self.add_server(x, g["proto"])
        for c in list(self.tsrv.values()):
            c["sock"].close()
        self.tsrv.clear()
        self.inbox.clear()

        def act():
            self.sim.stop(sig)
            if spoil:
                spoil(self.sim.path("cache.bin"))
            for c in self.tcli.values():
                c["sock"].close()
            self.tcli.clear()
            for s in list(self.tcpl):
                self._drop_backlog(s)
            self.sim.drain_udp()
            self.sim.set_now_ms(self.sim.now_ms() + 1000 * n)
            self.sim.write_file("config", self._config(self.sim))
            for k in self.webcon:
                k["sock"].close()
            self.webcon.clear()
            self.sim.start()
            self._loading()
        self.gen += 1
        self.groups = expand(self.cfg["groups"])
        self.live1 = tla_live(self.cfg, self.groups, self.web, self.disk)
        return self._event({"op": "restart", "n": n, "keep": keep, "cfg": tla_cfg(self.cfg), "live": self.live1}, act)

    def _drop_backlog(self, s):
        while True:
            try:
                self.tcpl[s].accept()[0].close()
            except OSError:
                return

    def _r(self, req, b, batch=False):
        ev = {"op": "r", "srv": req["srv"], "mod": req["mod"], "m": self.msg(b)}
        c = self.tsrv.get(req["conn"])
        if req["conn"] is not None:
            # one question at a time: a connection on which nothing is waiting is not listened to
            ev["conn"] = req["conn"]
            if c is None or not c.get("busy"):
                ev["op"] = "nop"
            else:
                c["busy"] = False
        else:
            # whether the socket that asked is still there to hear it
            there = self.in_use(req["addr"][1], len(req["addr"]) > 2)
            ev["heard"] = "maybe" if there is None else "no" if not there else "maybe" if batch else "yes"

        def act():
            try:
                if req["conn"] is None:
                    self.sim.socks[req["srv"]].sendto(b, req["addr"])
                elif req["conn"] in self.tsrv:
                    c = self.tsrv[req["conn"]]
                    c["wait"] = []
                    self.tsrv[req["conn"]]["sock"].sendall(struct.pack(">H", len(b)) + b)
            except OSError:
                pass
        return ev, act

    def respond(self, req, b):
        ev, act = self._r(req, b)
        return self._event(ev, act)

    def batch(self, items):
        """items: list of ("q", client, bytes) / ("r", req, bytes), sent without waiting."""
        evs, acts = [], []
        for it in items:
            e, a = self._q(it[1], it[2]) if it[0] == "q" else self._r(it[1], it[2], True)
            if e["op"] == "nop":
                continue                # the connection may be taken into use, and heard again, by a question of this batch
            evs.append(e)
            acts.append(a)
        qs = [(e["m"].get("id"), e["m"].get("qt")) for e in evs if e["op"] == "q"]
        for e in evs:
            # an answer may come between a question's having been looked up and its having been noted down
            if e["op"] == "r" and e.get("heard") != "no" and (e["m"].get("id"), e["m"].get("qt")) in qs:
                e["heard"] = "crossing"
        return self._event({"op": "batch", "evs": evs} if evs else {"op": "nop"}, lambda: [a() for a in acts] and None)

    def _pass(self, n, step=1.0):
        o = []
        left = n
        while left > 0:
            d = min(step, left)
            self.sim.set_now_ms(self.sim.now_ms() + int(d * 1000))
            left -= d
            o += self._settle()
        return o

    def _loading(self):
        """the program reads hosts and the other files now"""
        now, hs, R = self.sim.now(), loaded(self.cfg, self.web), self.cfg.get("reload", 60)
        self.due = None
        if "dynhosts" not in self.cfg:
            return
        if hs is not None:
            self.disk = hs
        if self.cfg.get("http") and hs is None:
            self.due = now + 5              # again and again
        elif R > 0:
            self.due = now + R

    def next_reload(self):
        """seconds until the program tries to read its files again (None: never)"""
        return None if self.due is None else self.due - self.sim.now()

    # ---- a web server with hosts
    def web_is(self, how):
        """from now on it is "ok", "refused" (not there), or answers with an error ("error") or part of what it should send ("part")"""
        self.web = how
        if how == "refused" and hasattr(self, "webl"):
            self.webl.close()
            del self.webl
        elif how != "refused" and not hasattr(self, "webl"):
            self.webl = k = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            k.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            k.bind((self.sim.ip(160), 8080))
            k.listen(16)
            k.setblocking(False)

    def web_turn(self, how):
        return self._event({"op": "nop"}, lambda: self.web_is(how))

    def _web(self):
        """serve; True if something happened"""
        some = False
        while True:
            try:
                c, _ = self.webl.accept()
            except (BlockingIOError, AttributeError):
                break
            c.setblocking(False)
            self.webcon.append({"sock": c, "buf": bytearray()})
            some = True
        for c in list(self.webcon):
            n = len(c["buf"])
            alive = self._recv_tcp(c)
            some = some or len(c["buf"]) != n
            if b"\r\n\r\n" in c["buf"]:
                c["sock"].setblocking(True)
                try:
                    self._page(c["sock"], bytes(c["buf"]).split(b" ")[1].decode()[1:])
                except OSError:
                    pass
                alive = False
            if not alive:
                c["sock"].close()
                self.webcon.remove(c)
                some = True
        return some

    def _page(self, sock, name):
        if self.web == "error":
            b = b"1.2.3.4 a.com\n6.6.6.6 *.com\n"
            sock.sendall(b"HTTP/1.1 %s\r\nContent-Type: text/plain\r\nConnection: close\r\nContent-Length: %d\r\n\r\n" % ((b"404 Not Found", b"503 Service Unavailable", b"403 Forbidden")[self.sim.now() % 3], len(b)) + b)
            return
        if name.startswith("to/"):
            name = name[3:]
        elif self.sim.now() % 4 == 0:
            sock.sendall(b"HTTP/1.1 302 Found\r\nLocation: http://%s:8080/to/%s\r\nConnection: close\r\nContent-Length: 0\r\n\r\n" % (self.sim.ip(160).encode(), name.encode()))
            return
        try:
            b = open(self.sim.path(name), "rb").read()
        except OSError:
            b = b""
        if self.sim.now() % 3 == 0:
            k = len(b) // 2
            body = b"".join(b"%x\r\n%s\r\n" % (len(x), x) for x in (b[:k], b[k:]) if x) + b"0\r\n\r\n"
            head = b"Transfer-Encoding: chunked"
        else:
            head, body = b"Content-Length: %d" % len(b), b
        out = b"HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nConnection: close\r\n" + head + b"\r\n\r\n" + body
        if self.web == "part":
            out = out[:len(out) - 1 - len(body) // 2] if body else b""
        for i in range(0, len(out), 900):
            sock.sendall(out[i:i + 900])

    def advance(self, n, step=1.0):
        """let n seconds pass; where the program re-reads its files on the way, that is an event of its own"""
        outs = []
        n = int(n)
        while n > 0 and not self.failed:
            k = self.next_reload()
            if k is None or k > n:
                outs += self._event({"op": "adv", "n": n}, lambda: self._pass(n, step))
                break
            if loaded(self.cfg, self.web) is None:
                outs += self._event({"op": "adv", "n": k}, lambda: self._pass(k, step))
                self._loading()
                n -= k
                continue
            # files that cannot be used leave the servers as they are
            re = bool(self.cfg.get("regroup", True)) and not any(g.get("broken") for g in self.cfg["groups"])
            if re:
                self.gen += 1
                self.groups = expand(self.cfg["groups"])
            live = tla_live(self.cfg, self.groups)
            for o, part in (("redis", "dis"), ("reipm", "ipm")):
                if not self.cfg.get(o, True):
                    live[part] = self.live1[part]       # as at the start
            outs += self._event({"op": "reload", "n": k, "live": live, "groups": re},
                                lambda: self._pass(k, step))
            self._loading()
            n -= k
        return outs

    def prepare(self, cfg):
        """put cfg's reloadable parts in place; the program takes them over when it next re-reads its files"""
        for g in expand(cfg["groups"]):
            for s in g["servers"]:
                self.add_server(s, g["proto"])
        self.cfg = cfg
        self.write_reloadables(cfg)

    def reload(self, cfg, early=0):
        """install cfg and let time pass until (early seconds before) the program takes it over"""
        self.prepare(cfg)
        k = self.next_reload()
        if k is None:
            k = cfg.get("reload", 60)
        return self.advance(k - early if k > early else k)

    # ---- proxies
    def _socks(self, c):
        """SOCKS5 on one connection (RFC 1928, no authentication); True if something happened"""
        st, b = c["state"], c["buf"]
        if st.get("say"):                       # still answering, piece by piece
            piece = st["say"].pop(0)
            if piece is None:
                self._cut(c["id"], False)
                return True
            try:
                c["sock"].sendall(piece)
            except OSError:
                pass
            st["framed"] = "as" in st and not st["say"]
            return True
        if st.get("framed") or st.get("dead"):
            return False
        pieces = self.style() if self.style else {}
        if "hello" not in st:
            if len(b) < 2 or len(b) < 2 + b[1]:
                return False
            if b[0] != 5 or 0 not in b[2:2 + b[1]]:
                st["dead"] = "greeting"
                self.odd.append("proxy: greeting %s" % bytes(b[:2 + b[1]]).hex())
                return True
            del b[:2 + b[1]]
            st["hello"] = True
            if all(w in ("hello", "mute") for w in self.behind.values()):
                st["dead"] = "hello"
                st["say"] = [b"\5\xff"] if "hello" in self.behind.values() else [None]
                return True
            st["say"] = chop(b"\5\0", pieces.get("cut", 0))
            return True
        if len(b) < 5 or b[3] not in (1, 3, 4):
            return False
        n = {1: 4, 3: 1 + b[4], 4: 16}[b[3]]
        if len(b) < 4 + n + 2:
            return False
        host = bytes(b[5:4 + n]).decode("latin1") if b[3] == 3 else socket.inet_ntop(socket.AF_INET if b[3] == 1 else socket.AF_INET6, bytes(b[4:4 + n]))
        port = struct.unpack(">H", b[4 + n:6 + n])[0]
        to = next((s for s in self.behind if self.srv_ip(s) == unmapped(host) and port == 53), None)
        if to is None or bytes(b[:3]) != b"\5\1\0":
            st["dead"] = "request"
            self.odd.append("proxy: request %s" % bytes(b[:6 + n]).hex())
            return True
        del b[:6 + n]
        bound = pieces.get("bound", b"\1\0\0\0\0\0\0")
        why = self.behind[to]
        if why is None:
            st["as"] = to
            st["say"] = chop(b"\5\0\0" + bound, pieces.get("cut", 0))
        else:
            st["dead"] = why
            st["say"] = {"hello": [b"\5\2\0" + bound], "mute": [b"\5\3\0" + bound], "refused": [b"\5\5\0" + bound], "failed": [b"\5\1\0", bound], "shut": [None], "half": [b"\5\0", None],
                         "bound": [b"\5\0\0\1\0\0", None], "kind": [b"\5\0\0\2\0\0\0\0\0\0"]}[why]
        return True

    # ---- upstream faults
    def down(self, s, why="refused"):
        """server s stops: no more connections, existing ones are cut"""
        mine = [cid for cid, c in self.tsrv.items() if c["state"].get("as", c["srv"]) == s]

        def act():
            if s in self.behind:
                self.behind[s] = why
            else:
                self.unlisten(s)
                if why == "silent":
                    self.ignore(s)
            for cid in mine:
                self._cut(cid, False)
        return self._event({"op": "down", "srv": s, "lost": [x for cid in mine for x in self._waiting(self.tsrv[cid])]}, act)

    def up(self, s):
        def act():
            if s in self.behind:
                self.behind[s] = None
            else:
                for k in self.mute.pop(s, []):
                    k.close()
                self.listen(s)
        return self._event({"op": "up", "srv": s}, act)

    def proxy_down(self, p):
        """a proxy ends while others remain: connections through it end one after the other"""
        self._event({"op": "nop"}, lambda: self.unlisten(p))
        for cid in [i for i, c in self.tsrv.items() if c["srv"] == p]:
            if cid in self.tsrv:
                self.cut(cid)

    def proxy_up(self, p):
        self._event({"op": "nop"}, lambda: self.listen(p))

    def _waiting(self, c):
        """what is still unanswered on a server connection"""
        return [{"mod": c["mod"], "again": c["n"] > 1, "dup": self.asked.get((c["mod"], self.qkey(b)), 0) > 1, "m": self.msg(b),
                 # where the question was given up, another one may be in its place
                 "alts": [self.msg(x) for x in self.alike.get(self.akey(c["mod"], b), []) if x != b]} for b in c.get("wait", [])]

    def akey(self, mod, b):
        m = self.msg(b)
        return (mod, m["id"], m["qn"].lower())

    def qkey(self, b):
        m = self.msg(b)
        return (m["id"], m["qn"].lower(), m["qt"])

    def _cut(self, cid, rst):
        c = self.tsrv.pop(cid)
        if rst:
            c["sock"].setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        c["sock"].close()
        self.connlog.append(("cut", cid, c["srv"]))

    def cut(self, cid, rst=False):
        """the server closes one connection"""
        c = self.tsrv[cid]
        return self._event({"op": "cut", "srv": c["state"].get("as", c["srv"]), "lost": self._waiting(c)}, lambda: self._cut(cid, rst))

    def t_open(self, name, rcvbuf=None):
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(5)
        self.tcli[name] = {"sock": s, "buf": bytearray(), "closed": False}
        try:
            s.bind((self.sim.ip(150), 0))
            s.connect(self.local(name))
        except OSError as e:
            self.tcli[name]["closed"] = True
            if not self.failed:
                p = self.sim.proc.poll()
                self._fail(Dead("no connection: %s%s" % (e, "" if p is None else ", exit %s" % p)))
        s.setblocking(False)

    def t_reset(self, name):
        """the client gives up its connection and opens another under a new name -> the new name"""
        def act():
            self.tcli.pop(name)["sock"].close()
        self._event({"op": "gone", "c": name}, act)
        return self.t_new(name)

    def t_new(self, name):
        """a new connection in place of the named one -> its name"""
        self.nreset = getattr(self, "nreset", 0) + 1
        new = "%sr%d" % (name.split("r")[0], self.nreset)
        self.t_open(new)
        return new

    def t_fin(self, name):
        """the client sends nothing more on its connection, but still listens"""
        def act():
            try:
                self.tcli[name]["sock"].shutdown(socket.SHUT_WR)
            except OSError:
                pass
        return self._event({"op": "fin", "c": name}, act)

    def t_bad(self, name, length):
        """the client announces a message of impossible length"""
        return self._event({"op": "bad", "c": name}, lambda: self._tsend(name, struct.pack(">H", length) + b"x"))

    def t_deaf(self, name):
        """the client does not read any more"""
        def act():
            self.tcli[name]["deaf"] = True
        return self._event({"op": "gone", "c": name}, act)

    def t_churn(self, n, what):
        """n clients come, send what (part of a message) and leave"""
        def act():
            for _ in range(n):
                s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                s.settimeout(10)
                try:
                    s.bind((self.sim.ip(151), 0))
                    s.connect(self.local("t0"))
                    if what:
                        s.sendall(what)
                except OSError:
                    break           # not served: what is asked next will tell
                finally:
                    s.close()
        return self._event({"op": "nop"}, act)

    def trace(self):
        return {"name": self.name, "cfg": tla_cfg(self.cfg0), "live": self.live0, "ev": self.ev}
