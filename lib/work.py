"""Seeded random environments for one real forwarder process."""
import random, re, struct
import dns, drive

# names of equal value under the hash the program uses for its tables, and so with whatever labels are put in front
TWINS = [("apjbaji.com", "jickhnf.com"), ("lbcmhhb.com", "cijdade.com"), ("ejpbajh.com", "ncikhne.com"), ("nibpnee.com", "epiggah.com")]


def twins(rnd, names):
    """a renaming of some names to names with equal hash values: function on any structure"""
    some = [n for n in names if "." in n and n == n.lower() and len(n) > 3]
    rnd.shuffle(some)
    some = [n for n in some if not any(n != m and n.endswith(m) for m in some)]
    pairs = dict(zip(some, (x for t in TWINS for x in t)))
    if not pairs:
        return lambda x: x
    pat = re.compile(r"(?<![a-z0-9._-])(%s)(?![a-z0-9._-])|(?<=\.)(%s)(?![a-z0-9._-])" % (("|".join(re.escape(n) for n in pairs),) * 2), re.I)

    def word(m):
        n = pairs[m.group().lower()]
        return n if m.group() == m.group().lower() else mixcase(rnd, n)

    def f(x):
        if isinstance(x, str):
            return pat.sub(word, x)
        if isinstance(x, dict):
            return {k: f(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(f(v) for v in x)
        return x
    return f


def mixcase(rnd, n):
    return "".join(c.upper() if rnd.random() < .5 else c for c in n)


class Mix:
    """Random clients, servers and clock.

    names/types/ids: pools the queries are drawn from
    w: weights of the operations
    """
    W = dict(q=50, r=38, adv=8, batch=4, dup=3, odd=3, tclose=0, reload=0, cut=0, down=0, up=0, restart=0, pieces=0, fin=0, bad=0, churn=0, evilq=0, evilr=0, gdown=0, gup=0, fill=0, web=0)

    def __init__(self, rnd, cfg, names, types=(1, 28), ids=(1, 2, 3, 0xffff, 0), clients=3, tcp=0, n=60, w=None,
                 case=0.0, edns=0.2, advs=(1, 1, 2, 3, 5, 10, 12), answer=None, asan=True, flags=0.2, extra="",
                 recent=0.7, ttls=None, odd=None, alt=None, files=None, start=True, answers=None, name="mix", lag=0, batchmax=4, again=None, twin=.12, ap=0):
        if ap and rnd.random() < ap:
            cfg = dict(cfg, ap=True)
        if rnd.random() < twin:
            f = twins(rnd, names)
            cfg, names, files = f(cfg), f(list(names)), f(files)
            a, b = alt, again
            alt = (lambda r, m: f(a(r, m))) if a else None
            again = (lambda r: f(b(r))) if b else None
        self.rnd, self.cfg, self.names, self.types, self.ids = rnd, cfg, list(names), list(types), list(ids)
        self.n, self.case, self.edns, self.advs, self.flags, self.recent = n, case, edns, list(advs), flags, recent
        self.w = dict(self.W)
        self.w.update(w or {})
        self.ttls = ttls or [1, 2, 5, 10, 30, 60, 300, 86400]
        self.answer = answer or self.std_answer
        self.serial = rnd.randrange(1, 200)
        self.clients = ["c%d" % i for i in range(1, clients + 1)]
        self.tcp = ["t%d" % i for i in range(1, tcp + 1)]
        self.alt = alt
        self.again = again       # r -> arguments of a restart
        self.lag = lag
        self.batchmax = batchmax
        self.odd_kinds = odd or ["badid", "badname", "badtype", "othersrv"]
        self.d = drive.Driver(cfg, asan=asan, name=name, extra=extra, files=files)
        self.done = []
        self.streams = {}        # TCP client -> what it still has to send of a stream
        try:
            self.d.start(clients)
            for t in self.tcp:
                self.d.t_open(t)
        except Exception:
            self.d.close()
            raise

    # -- data
    def addr(self, t):
        self.serial += 1
        s = self.serial
        return "9.%d.%d.%d" % (s >> 16 & 255, s >> 8 & 255, s & 255) if t == 1 else "fd00::%x:%x" % (s >> 16 & 0xffff, s & 0xffff)

    def data(self, t):
        r = self.rnd
        self.serial += 1
        if t in (1, 28):
            return self.addr(t)
        if t in dns.NAMEY:
            return "t%d.example.net" % self.serial
        if t == dns.MX:
            return "%d mx%d.example.net" % (r.randrange(100), self.serial)
        if t == dns.TXT:
            b = ("txt%d" % self.serial).encode() * r.choice([1, 1, 1, 10])
            return (bytes([len(b)]) + b).hex()
        return ("%08x" % self.serial) * r.choice([1, 2, 5])

    def ttl(self):
        return self.rnd.choice(self.ttls)

    def std_answer(self, p, n, t):
        """-> kwargs for dns.build"""
        r = self.rnd
        x = r.random()
        if x < .1:
            return dict(rcode=r.choice([2, 3, 5]))
        if x < .2:
            return dict(ns=[("example.net", dns.SOA, self.ttl(), "00")])
        an = []
        own = n
        if t != dns.CNAME:
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                self.serial += 1
                nxt = "alias%d.example.org" % self.serial
                an.append((own, dns.CNAME, self.ttl(), nxt))
                own = nxt
        if t not in (dns.ANY, dns.SOA, dns.SRV):
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                an.append((own, t, self.ttl(), self.data(t)))
        if t in (1, 28) and r.random() < .03:
            an.append((own, t, self.ttl(), self.data(t), 3))          # of another class
        k = dict(an=an)
        if r.random() < .2:
            k["ns"] = [("example.net", dns.NS, self.ttl(), "ns.example.net")]
        if r.random() < .2:
            k["ar"] = [("ns.example.net", 1, self.ttl(), self.addr(1))]
        if r.random() < .3:
            k["edns"] = 1232
        if r.random() < .3:
            k["aa"] = 1
        if r.random() < .3:
            k["compress"] = False
        return k

    # -- messages
    def qbytes(self):
        r = self.rnd
        n = r.choice(self.names)
        if r.random() < self.case:
            n = mixcase(r, n)
        b = dns.build(r.choice(self.ids), (n, r.choice(self.types)), edns=1232 if r.random() < self.edns else None,
                      rd=0 if r.random() < .1 else 1)
        if r.random() < self.flags:
            b = b[:3] + bytes([b[3] | r.choice([0x20, 0x10])]) + b[4:]       # AD, CD
        return b

    def rbytes(self, req):
        p = dns.parse(req["b"])
        n, t, _ = p["q"][0]
        k = dict(qr=1, ra=1, rd=p["rd"])
        k.update(self.answer(p, n, t))
        return dns.build(p["id"], (n, t), **k)

    def pick_req(self):
        box = self.d.inbox
        if not box:
            return None
        i = len(box) - 1 - int(self.rnd.random() ** 2 * len(box)) if self.rnd.random() < self.recent else self.rnd.randrange(len(box))
        i = max(0, min(i, len(box) - 1))
        req = box.pop(i)
        self.done.append(req)
        del self.done[:-12]
        if len(box) > 60:
            del box[0]
        return req

    def odd_bytes(self, req):
        r = self.rnd
        b = self.rbytes(req)
        k = r.choice(self.odd_kinds)
        if k == "badid":
            return req, struct.pack(">H", (struct.unpack(">H", b[:2])[0] + r.choice([1, 256, 7])) & 0xffff) + b[2:]
        p = dns.parse(req["b"])
        n, t, _ = p["q"][0]
        if k == "badname":
            return req, dns.build(p["id"], (r.choice(self.names + [n + "x", "x" + n]), t), an=[("zz.com", 1, 60, self.addr(1))], qr=1)
        if k == "badtype":
            return req, dns.build(p["id"], (n, r.choice([1, 28, 16, 255, 2])), an=[(n, 1, 60, self.addr(1))], qr=1)
        return req, b

    # -- malformed messages
    def big(self, b, n):
        """b's header and question with a record of n bytes, as the last of several"""
        r = self.rnd
        try:
            _, e = dns.dec_name(b, 12)
        except (dns.Bad, IndexError):
            return b[:9]
        k = r.choice([1, 1, 3])
        recs = b"".join(b"\xc0\x0c" + struct.pack(">HHIH", 1, 1, 60, 4) + r.randbytes(4) for _ in range(k - 1))
        recs += b"\xc0\x0c" + struct.pack(">HHIH", r.choice([16, 65280]), 1, 60, n) + (b"\xff" + b"x" * 255) * (n // 256 + 1)
        at = r.choice([6, 8, 10])
        h = bytearray(b[:12])
        h[6:12] = bytes(6)
        h[at:at + 2] = struct.pack(">H", k)
        return bytes(h) + b[12:e + 4] + recs[:-((n // 256 + 1) * 256) + n]

    def mutate1(self, b, tcp):
        r = self.rnd
        m = bytearray(b)
        k = r.choice(["cut", "cut", "tail", "flip", "flip", "count", "count", "point", "point", "label", "len", "random", "big", "empty", "bits"])
        if k == "cut":
            del m[r.randrange(len(m)):]
        elif k == "tail":
            m += r.randbytes(r.choice([1, 2, 12, 300]))
        elif k == "flip":
            for _ in range(r.choice([1, 1, 2, 5])):
                m[r.randrange(len(m))] = r.choice([0, 0xff, 0xc0, 0x3f, 0x40, 0x80, r.randrange(256)])
        elif k == "count":
            i = r.choice([4, 6, 8, 10])
            m[i:i + 2] = struct.pack(">H", r.choice([0, 1, 2, 3, 5, 255, 256, 32768, 65535]))
        elif k == "point":                  # a compression pointer to anywhere, mostly at a name
            names = [12] + [i for i in range(12, len(m) - 1) if m[i] & 0xc0 == 0xc0]
            i = r.choice(names) if r.random() < .7 else r.randrange(12, max(13, len(m) - 1))
            m[i:i + 2] = struct.pack(">H", 0xc000 | r.choice([i, i, i + 2, i - 2, 0, 4, 12, 13, len(m) - 1, len(m), len(m) + 1, 0x3fff, r.randrange(len(m) + 9)]) & 0x3fff)
        elif k == "label":                  # a name of extreme length
            n = r.choice([[63] * 3 + [61], [63] * 3 + [62], [63] * 4, [1] * 127, [1] * 128, [64, 10], [191], [63] * 40, [200, 200]])
            nm = b"".join(bytes([x]) + r.choice([b"a", b"z", b"%"]) * x for x in n) + r.choice([b"\0", b"\0", b"", b"\xc0\x0c"])
            e = m.find(b"\0", 12)
            m[12:e + 1] = nm
        elif k == "len":                    # a record length
            at = [i for i in range(12, len(m) - 10) if m[i:i + 2] == b"\xc0\x0c"] or [len(m) - 12]
            i = max(12, r.choice(at) + 10)
            m[i:i + 2] = struct.pack(">H", r.choice([0, 1, 3, 5, 15, 17, 255, 1000, 65535, r.randrange(65536)]))
        elif k == "random":
            m = bytearray(r.randbytes(r.choice([1, 2, 11, 12, 13, 40, 512, 3000])))
        elif k == "big":
            m = bytearray(self.big(b, r.choice([4080, 4096, 5000, 20000, 60000])))
        elif k == "empty":
            m = bytearray()
        elif k == "bits":
            m[2] ^= r.choice([0x80, 0x78, 0x40, 0x08, 0x02])
        return bytes(m)

    def tame(self, b):
        """whether the specification can speak about this message: its names are made of ordinary characters, its numbers no larger than TLC's"""
        try:
            p = dns.parse(b)
        except (dns.Bad, struct.error, ValueError, OSError):
            return True
        return not any(drive.SAFE.search(x) or ".." in x or x[:1] == "." for x in self.names_of(p)) and not self.entangled(b, p) \
            and all(rr[3] < 2 ** 31 for k in ("an", "ns", "ar") for rr in p[k] if rr[1] != 41)

    def entangled(self, b, p):
        """whether a name is read from within an address, which may be substituted"""
        for fill in (b"\0", b"\1"):
            m, pos = bytearray(b), 12
            for _ in p["q"]:
                pos = dns.dec_name(b, pos)[1] + 4
            for _ in range(sum(struct.unpack(">HHH", b[6:12]))):
                pos = dns.dec_name(b, pos)[1]
                t, c, _, n = struct.unpack(">HHIH", b[pos:pos + 10])
                pos += 10 + n
                if t in (1, 28) and c == 1:
                    m[pos - n:pos] = fill * n
            try:
                if [x for x in self.names_of(dns.parse(bytes(m)))] != [x for x in self.names_of(p)]:
                    return True
            except (dns.Bad, struct.error, ValueError, OSError):
                return True
        return False

    def cuttable(self, b):
        """whether b is still a message when it is cut to what the program has room for"""
        for n in {3500, 3900} if len(b) > 3500 else ():
            try:
                dns.parse(b[:n])
                return True
            except (dns.Bad, struct.error, ValueError, OSError):
                pass
        return False

    def names_of(self, p):
        for (n, _, _) in p["q"]:
            yield n
        for k in ("an", "ns", "ar"):
            for (n, t, c, _, d) in p[k]:
                yield n
                if t in dns.NAMEY:
                    yield d
                if t == dns.MX and " " in d:
                    yield d.split(" ", 1)[1]

    def mutate(self, b, tcp=False):
        for _ in range(20):
            m = b
            for _ in range(self.rnd.choice([1, 1, 1, 2, 3])):
                m = self.mutate1(m, tcp) if len(m) > 14 else m
            if self.tame(m) and not self.cuttable(m) and not (tcp and not 0 < len(m) <= 3500):
                return m
        return b[:5]

    def answer_like(self, b):
        """a message that can be read is an answer (the specification has no opinion on questions sent by servers)"""
        try:
            dns.parse(b)
        except (dns.Bad, struct.error, ValueError, OSError):
            return b
        return b[:2] + bytes([b[2] | 0x80]) + b[3:]

    def noproxy(self):
        return sorted({s for g in self.d.cfg["groups"] for s in g.get("proxies") or []} - set(self.d.tcpl))

    def fallen(self):
        if self.d.behind:
            return sorted(s for s, why in self.d.behind.items() if why)
        return sorted({s for g in self.d.cfg["groups"] if g["proto"] == "tcp" for s in g["servers"]} - set(self.d.tcpl))

    # -- run
    def client(self):
        return self.rnd.choice(self.clients + [t for t in self.tcp if t not in self.streams])

    def feed(self, t):
        """client t sends another piece of its stream of questions"""
        d, r = self.d, self.rnd
        if t not in self.streams:
            msgs = [self.qbytes() for _ in range(r.choice([1, 1, 2, 3, 4]))]
            ends, data = [], b""
            for m in msgs:
                data += struct.pack(">H", len(m)) + m
                ends.append(len(data))
            self.streams[t] = (data, 0, list(zip(ends, msgs)))
        data, at, msgs = self.streams[t]
        to = min(len(data), at + r.choice([1, 1, 2, 3, 13, 20, 40, 100, 1000]))
        if to == len(data):
            del self.streams[t]
        else:
            self.streams[t] = (data, to, msgs)
        d.t_feed(t, data[at:to], [m for e, m in msgs if at < e <= to])

    def step(self):
        d, r = self.d, self.rnd
        ops = list(self.w)
        op = r.choices(ops, [self.w[o] for o in ops])[0]
        if op == "r" and (self.lag and len(d.inbox) < self.lag):
            op = "q"
        if op == "q":
            d.query(self.client(), self.qbytes())
        elif op == "r":
            q = self.pick_req()
            if q:
                d.respond(q, self.rbytes(q))
        elif op == "adv":
            d.advance(r.choice(self.advs))
        elif op == "dup":
            if self.done:
                q = r.choice(self.done)
                d.respond(q, self.rbytes(q))
        elif op == "odd":
            q = self.pick_req()
            if q:
                d.inbox.append(q)
                q, b = self.odd_bytes(q)
                d.respond(q, b)
        elif op == "evilq":
            c = self.client()
            d.query(c, self.mutate(self.qbytes(), c[0] == "t"))
        elif op == "evilr":
            q = self.pick_req()
            if q:
                if q["conn"] is None and r.random() < .8:
                    d.inbox.append(q)
                d.respond(q, self.answer_like(self.mutate(self.rbytes(q))))
        elif op == "batch":
            items = []
            for _ in range(r.randint(2, self.batchmax)):
                q = self.pick_req() if r.random() < .4 else None
                items.append(("r", q, self.rbytes(q)) if q else ("q", r.choice(self.clients), self.qbytes()))
            d.batch(items)
        elif op == "tclose" and self.tcp:
            i = r.randrange(len(self.tcp))
            self.streams.pop(self.tcp[i], None)
            self.tcp[i] = d.t_reset(self.tcp[i])
        elif op == "pieces" and self.tcp:
            self.feed(r.choice(self.tcp))
        elif op in ("fin", "bad") and [t for t in self.tcp if t not in self.streams]:
            i = self.tcp.index(r.choice([t for t in self.tcp if t not in self.streams]))
            if op == "fin":
                d.t_fin(self.tcp[i])
            else:
                d.t_bad(self.tcp[i], r.choice([0, 0, 4090, 4096, 5000, 65535]))
            if not d.failed:
                self.tcp[i] = d.t_new(self.tcp[i])
        elif op == "churn":
            d.t_churn(r.choice([5, 20, 60]), r.choice([b"", b"\0", b"\0\x20", b"\0\x20abc"]))
        elif op == "cut" and d.tsrv:
            # mostly a connection something is waiting on
            w = [c for c in d.tsrv if d.tsrv[c].get("wait")]
            d.cut(r.choice(w if w and r.random() < .7 else sorted(d.tsrv)), rst=r.random() < .3)
        elif op == "fill":
            d.fill(r, r.choice([[20], [5, 30], [60], [1, 2, 100]]), big=r.choice([266, 266, 0, 100]))
        elif op == "gdown":
            s = [x for x in sorted(d.tcpl) if x[0] == "g"]
            if s:
                d.down(r.choice(s), r.choice(["refused", "silent"]))
        elif op == "web":
            d.web_turn(r.choice(["ok", "ok", "refused", "error", "part"]))
        elif op == "gup":
            s = [x for x in sorted(d.names.values()) if x not in d.tcpl]
            if s:
                d.up(r.choice(s))
        elif op == "down" and d.behind:
            d.down(r.choice(sorted(d.behind)), r.choice(["refused", "failed", "shut", "half", "bound", "kind"]))
        elif op == "down" and d.tcpl:
            d.down(r.choice(sorted(d.tcpl)))
        elif op == "pbad":
            why = r.choice(["hello", "mute"])
            for s in sorted(d.behind):
                d.down(s, why)
        elif op == "pdown" and len(d.tcpl) > 1:
            d.proxy_down(r.choice(sorted(d.tcpl)))
        elif op == "pup" and self.noproxy():
            d.proxy_up(r.choice(self.noproxy()))
        elif op == "up" and self.fallen():
            d.up(r.choice(self.fallen()))
        elif op == "restart":
            self.streams.clear()
            d.restart(r.choice([0, 1, 3, 10, 70]), sig=r.choice([9, 9, 15, 2]), **(self.again(r) if self.again else {}))
            for t in self.tcp:
                d.t_open(t)
        elif op == "reload" and self.alt:
            d.reload(self.alt(r, self), early=1)
            for _ in range(r.randrange(0, 6)):
                d.query(self.client(), self.qbytes())
            d.advance(1)
            for _ in range(r.randrange(0, 6)):
                q = self.pick_req()
                if q:
                    d.respond(q, self.rbytes(q))

    def run(self):
        try:
            for _ in range(self.n):
                if self.d.failed:
                    break
                self.step()
            return self.finish()
        finally:
            self.d.close()

    def finish(self):
        t = self.d.trace()
        if self.d.failed:
            t["log"] = self.d.sim.tail()
        return t


class Wire(Mix):
    """Messages of every shape the wire format allows, to be passed on as they are."""

    def rr(self, own):
        """raw bytes of one arbitrary record"""
        r = self.rnd
        t = r.choice([1, 28, 16, 2, 12, 15, 33, 46, 48, 50, 52, 64, 65, 99, 257, 30000])
        if t in (1, 28):
            d = bytes(r.randrange(256) for _ in range(4 if t == 1 else 16))
        elif t == 16:
            s = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 20, 255])))
            d = bytes([len(s)]) + s
        elif t in (2, 12):
            d = dns.enc_name("ns%d.example.net" % r.randrange(99))
        elif t == 15:
            d = struct.pack(">H", r.randrange(65536)) + dns.enc_name("mx%d.example.net" % r.randrange(99))
        else:
            d = bytes(r.randrange(256) for _ in range(r.choice([1, 4, 30, 120])))
        name = r.choice([b"\xc0\x0c", dns.enc_name(own), dns.enc_name("o%d.org" % r.randrange(50))])
        return name + struct.pack(">HHIH", t, 1, r.randrange(2 ** 31), len(d)) + d

    def opt(self, big=()):
        r = self.rnd
        o = b""
        for _ in range(r.choice([0, 0, 1, 2])):
            v = r.randbytes(r.choice((0, 8, 16) + big))
            o += struct.pack(">HH", r.choice([3, 8, 10, 12, 65001]), len(v)) + v
        return b"\0" + struct.pack(">HHBBHH", 41, r.choice([512, 1232, 4096]), 0, 0, r.choice([0, 0x8000]), len(o)) + o

    def qbytes(self):
        r = self.rnd
        n = r.choice(self.names)
        if r.random() < self.case:
            n = mixcase(r, n)
        fl = r.choice([0x0100, 0x0100, 0x0000, 0x0120, 0x0110, 0x0130])
        op = r.random() < .4
        return struct.pack(">HHHHHH", r.choice(self.ids), fl, 1, 0, 0, 1 if op else 0) + dns.enc_name(n) + struct.pack(">HH", r.choice(self.types), 1) \
            + (self.opt((100, 400, 1100)) if op else b"")

    def rbytes(self, req):
        r = self.rnd
        p = dns.parse(req["b"])
        n, t, _ = p["q"][0]
        recs, cnt = b"", [0, 0, 0]
        limit = r.choice([0, 100, 480, 1200, 2000, 3000, 3380])
        for s in range(3):
            while len(recs) < limit and r.random() < (.8 if s == 0 else .5):
                x = self.rr(n)
                if len(recs) + len(x) > limit:
                    break
                recs += x
                cnt[s] += 1
        if r.random() < .4:
            recs += self.opt()
            cnt[2] += 1
        fl = 0x8000 | r.choice([0, 0x0400]) | r.choice([0, 0, 0x0200]) | r.choice([0, 0x0100]) | r.choice([0, 0x80]) | r.choice([0, 0x20, 0x10, 0x30]) | r.choice([0, 0, 0, 1, 2, 3, 5, 9])
        q = dns.enc_name(n if r.random() < .8 else mixcase(r, n)) + struct.pack(">HH", t, 1)
        return struct.pack(">HHHHHH", p["id"], fl, 1, *cnt) + q + recs
