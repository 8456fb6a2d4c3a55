"""Minimal DNS wire codec, independent of the code under test."""
import struct, socket

A, NS, CNAME, SOA, PTR, MX, TXT, AAAA, SRV, OPT, HTTPS, ANY = 1, 2, 5, 6, 12, 15, 16, 28, 33, 41, 65, 255
NAMEY = {NS, CNAME, PTR}


class Bad(Exception):
    pass


def enc_name(name, table=None, pos=0):
    out = b""
    labels = name.split(".") if name else []
    while labels:
        key = ".".join(labels).lower() if table is not None else None
        key = ".".join(labels)
        if table is not None and key in table:
            return out + struct.pack(">H", 0xC000 | table[key])
        if table is not None and pos + len(out) < 0x3FFF:
            table[key] = pos + len(out)
        l = labels[0].encode("latin-1")
        out += bytes([len(l)]) + l
        labels = labels[1:]
    return out + b"\0"


def enc_rdata(t, d, table, pos):
    if t == A:
        return socket.inet_aton(d)
    if t == AAAA:
        return socket.inet_pton(socket.AF_INET6, d)
    if t in NAMEY:
        return enc_name(d, table, pos)
    if t == SOA:
        out = enc_name("ns.example.net", table, pos)
        out += enc_name("admin.example.net", table, pos + len(out))
        return out + struct.pack(">IIIII", 1, 2, 3, 4, 5)
    if t == MX:
        pref, n = d.split(" ", 1)
        return struct.pack(">H", int(pref)) + enc_name(n, table, pos + 2)
    return bytes.fromhex(d)


def build(id, q=None, an=(), ns=(), ar=(), qr=0, rcode=0, rd=1, ra=0, aa=0, tc=0, op=0,
          compress=True, edns=None, qclass=1, counts=None):
    """q: (name,type); rr: (name, type, ttl, data[, class])"""
    flags = (qr << 15) | (op << 11) | (aa << 10) | (tc << 9) | (rd << 8) | (ra << 7) | rcode
    table = {} if compress else None
    qs = [] if q is None else (q if isinstance(q, list) else [q])
    nar = len(ar) + (1 if edns is not None else 0)
    c = counts or (len(qs), len(an), len(ns), nar)
    m = struct.pack(">HHHHHH", id, flags, *c)
    for (n, t) in qs:
        m += enc_name(n, table, len(m)) + struct.pack(">HH", t, qclass)
    for sec in (an, ns, ar):
        for rr in sec:
            n, t, ttl, d = rr[:4]
            cl = rr[4] if len(rr) > 4 else 1
            m += enc_name(n, table, len(m)) + struct.pack(">HHI", t, cl, ttl)
            rd_ = enc_rdata(t, d, table, len(m) + 2)
            m += struct.pack(">H", len(rd_)) + rd_
    if edns is not None:
        m += b"\0" + struct.pack(">HHIH", OPT, edns, 0, 0)
    return m


def dec_name(m, p, limit=None):
    """-> (name, position after it); compression pointers have to point backwards"""
    limit = len(m) if limit is None else limit
    labels, end, start, wire = [], None, p, 1
    while True:
        if p >= limit:
            raise Bad("name")
        c = m[p]
        if c & 0xC0 == 0xC0:
            if p + 2 > limit:
                raise Bad("ptr")
            t = ((c & 0x3F) << 8) | m[p + 1]
            if t >= start:
                raise Bad("ptr")
            if end is None:
                end = p + 2
            start = p = t
        elif c & 0xC0:
            raise Bad("label")
        elif c == 0:
            return ".".join(labels), (p + 1 if end is None else end)
        else:
            wire += c + 1
            if wire > 255:
                raise Bad("long")
            labels.append(m[p + 1:p + 1 + c].decode("latin-1"))
            p += 1 + c


def dec_rdata(m, p, n, t, cl):
    d = m[p:p + n]
    if len(d) != n:
        raise Bad("rdata")
    if cl != 1:
        return d.hex()
    end = p + n
    if t in (A, AAAA):
        if n != (4 if t == A else 16):
            raise Bad("addr")
        return socket.inet_ntop(socket.AF_INET if t == A else socket.AF_INET6, d)
    if t in NAMEY or t == MX:
        s, e = dec_name(m, p + (2 if t == MX else 0), end)
        if e != end:
            raise Bad("rdlen")
        return s if t != MX else "%d %s" % (struct.unpack(">H", d[:2])[0], s)
    if t == SOA:
        _, e = dec_name(m, p, end)
        _, e = dec_name(m, e, end)
        if e + 20 != end:
            raise Bad("soa")
        return d.hex()
    if t == TXT:
        i = 0
        while i < n:
            i += 1 + d[i]
        if i != n:
            raise Bad("txt")
    return d.hex()


def parse(m):
    if len(m) < 12:
        raise Bad("short")
    id, fl, qd, an, ns, ar = struct.unpack(">HHHHHH", m[:12])
    r = dict(id=id, qr=fl >> 15, op=(fl >> 11) & 15, aa=(fl >> 10) & 1, tc=(fl >> 9) & 1,
             rd=(fl >> 8) & 1, ra=(fl >> 7) & 1, rcode=fl & 15, q=[], an=[], ns=[], ar=[], edns=0)
    p = 12
    for _ in range(qd):
        n, p = dec_name(m, p)
        if p + 4 > len(m):
            raise Bad("q")
        t, c = struct.unpack(">HH", m[p:p + 4])
        p += 4
        r["q"].append((n, t, c))
    for key, cnt in (("an", an), ("ns", ns), ("ar", ar)):
        for _ in range(cnt):
            n, p = dec_name(m, p)
            if p + 10 > len(m):
                raise Bad("rr")
            t, c, ttl, l = struct.unpack(">HHIH", m[p:p + 10])
            p += 10
            d = dec_rdata(m, p, l, t, c)
            p += l
            if t == OPT:
                r["edns"] = c
            else:
                r[key].append((n, t, c, ttl, d))
    if p != len(m):
        r["trail"] = len(m) - p
    return r
