"""Scenarios shared by the bounded model and the driver: TLC explores the
model exhaustively, and in simulation mode prints behaviours which are
replayed into the real program."""
import random
import json, os, random, re, tempfile, shutil
import dns, drive, tlc


def shape(an=(), rcode=0, edns=0, ns=(), ar=(), for_=0, ok=True, badid=False, othername="", othertype=0):
    """an: (name or '@', type, ttl, data)"""
    def rrs(l):
        out = []
        for (n, t, ttl, d) in l:
            out.append({"n": n, "t": t, "c": 1, "ttl": ttl, "d": d,
                        "b": drive.addr_bytes(d) if t in (1, 28) else [], "len": 4 if t == 1 else 16 if t == 28 else len(d)})
        return out
    return {"an": rrs(an), "ns": rrs(ns), "ar": rrs(ar), "rcode": rcode, "edns": edns, "for": for_, "ok": ok, "badid": badid,
            "othername": othername, "othertype": othertype, "_an": list(an), "_ns": list(ns), "_ar": list(ar)}


class Scenario:
    def __init__(self, name, cfg, q, sh, adv=(), lives=(), depth=5, dup=1, gdepth=None, tdepth=None, nbeh=24, restart=(), turn=(), fill=False):
        """q: (client, id, name, type[, edns]); lives: further cfgs a reload may install."""
        self.name, self.cfg, self.depth, self.dup, self.adv = name, cfg, depth, dup, list(adv)
        self.restart = list(restart)
        self.turn = list(turn)
        self.fill = fill
        self.gdepth = gdepth or 4 * depth
        self.tdepth = tdepth or depth + 1
        self.nbeh = nbeh
        self.q = [x if len(x) > 4 else x + (0,) for x in q]
        self.sh = sh
        self.cfgs = [cfg] + list(lives)

    def qbytes(self, i):
        c, id, n, t, e = self.q[i]
        return dns.build(id, (n, t), edns=e or None)

    def json(self, depth):
        mk = drive.Driver.msg
        class D:      # message abstraction without a process
            raws = {}
            names = {}
            def raw(self, b): return self.raws.setdefault(bytes(b), len(self.raws) + 1)
        d = D()
        q = [{"c": x[0], "tr": "tcp" if x[0][0] == "t" else "udp", "m": mk(d, self.qbytes(i))} for i, x in enumerate(self.q)]
        return {"cfg": drive.tla_cfg(self.cfg), "live": [drive.tla_live(c) for c in self.cfgs], "q": q,
                "sh": [{k: v for k, v in s.items() if k[0] != "_"} for s in self.sh], "adv": self.adv, "depth": depth, "dup": self.dup,
                "restart": self.restart, "turn": self.turn, "fill": self.fill, "keep": bool(self.cfg.get("cachefile"))}

    def _tlc(self, module, cfg, depth, **kw):
        d = tempfile.mkdtemp(prefix="vscen-")
        try:
            p = os.path.join(d, "sc.json")
            with open(p, "w") as f:
                json.dump(self.json(depth), f)
            return tlc.run(module, cfg, env={"SCENARIO": p}, **kw)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def check(self, depth=None, timeout=600, workers=8):
        """exhaustive within the bounds; -> TLC result; raises TLCError unless every step property holds."""
        r = self._tlc("Props", "Props.cfg", depth or self.depth, timeout=timeout, workers=workers)
        if "No error has been found" not in r["out"]:
            raise tlc.TLCError("model %s: %s" % (self.name, r["out"][-6000:]))
        return r

    def behaviours(self, num, seed, depth=None, timeout=300):
        depth = depth or self.gdepth
        r = self._tlc("Model", "Gen.cfg", depth, workers=1, timeout=timeout,
                      args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed)])
        out = [json.loads(json.loads(x) if x.startswith('"') else x) for x in re.findall(r'^"?@@(.*?)"?$', r["out"].replace('\\"', '"'), re.M)]
        if not out:
            raise tlc.TLCError("no behaviours from %s: %s" % (self.name, r["out"][-3000:]))
        # the last step is printed once per successor: keep one of each
        one = {}
        for b in out:
            one.setdefault(json.dumps(b[:-1]), []).append(b)
        r = random.Random(seed)
        return [r.choice(v) for v in one.values()][:num]

    def replay(self, beh, asan=True, clients=None):
        """run one behaviour of the model in the real program -> trace"""
        n = max([int(x[0][1:]) for x in self.q if x[0][0] == "c"] + [1])
        d = drive.Driver(self.cfg, asan=asan, name=self.name)
        try:
            d.start(n)
            for x in sorted({x[0] for x in self.q if x[0][0] == "t"}):
                d.t_open(x)
            seen = {}
            for s in beh:
                if d.failed:
                    break
                if s["op"] == "q":
                    d.query(self.q[s["i"] - 1][0], self.qbytes(s["i"] - 1))
                elif s["op"] == "adv":
                    d.advance(s["n"])
                elif s["op"] == "reload":
                    d.reload(self.cfgs[s["i"] - 1])
                elif s["op"] == "restart":
                    d.restart(s["n"])
                    seen.clear()
                    for x in sorted({x[0] for x in self.q if x[0][0] == "t"}):
                        d.t_open(x)
                elif s["op"] == "fill":
                    d.fill(random.Random(1), [s["n"] - 130])
                elif s["op"] == "down":
                    d.down(s["srv"])
                elif s["op"] == "up":
                    d.up(s["srv"])
                elif s["op"] == "r":
                    req = seen.get((s["srv"], s["n"]))
                    if req is not None:
                        d.respond(req, self.answer(req, self.sh[s["i"] - 1]))
                for r in d.inbox:
                    k = sum(1 for x in seen if x[0] == r["srv"]) + 1
                    seen[(r["srv"], k)] = r
                d.inbox.clear()
            t = d.trace()
            t["log"] = d.sim.tail() if d.failed else ""
            return t
        finally:
            d.close()

    def answer(self, req, s):
        p = dns.parse(req["b"])
        n, t, _ = p["q"][0]
        f = lambda l: [(n if x[0] == "@" else x[0],) + tuple(x[1:]) for x in l]
        id = (p["id"] + 1) & 0xffff if s["badid"] else p["id"]
        b = dns.build(id, (s["othername"] or n, s["othertype"] or t), an=f(s["_an"]), ns=f(s["_ns"]), ar=f(s["_ar"]), qr=1, ra=1,
                      rcode=s["rcode"], edns=s["edns"] or None)
        if not s["ok"]:
            b = b[:-3]
        return b
