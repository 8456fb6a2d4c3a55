"""Drive one real dnsforwarder process in virtual time on loopback."""
import ctypes, errno, mmap, os, random, select, shutil, signal, socket, struct, subprocess, tempfile, time
import build

HDR = 8 + 4 + 4 + 48
SLOT = struct.Struct("<iiQQq")
NSLOTS = 256
SHM_SIZE = HDR + NSLOTS * SLOT.size
_asan_env = "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:symbolize=%d"


class Hang(Exception):
    """The process did not become quiescent in real time (livelock, deadlock)."""


class Dead(Exception):
    """The process is gone."""


class StartFailed(Exception):
    pass


class Sim:
    def __init__(self, config, files=None, asan=True, hang_s=20.0, args=(), seed=None, reuse=None, env=None):
        """config: callable(sim)->text or text; files: {name: text|callable}."""
        self.rnd = random.Random(seed)
        self.hang_s = hang_s
        self.asan = asan
        self.args = list(args)
        self.exe = build.forwarder(asan)
        self.proc = None
        self.socks = {}          # name -> socket we poll
        self.tconn = {}          # name -> (sock, bytearray)
        self.reserve = None
        self.extra_env = env or {}
        if reuse is None:
            self.dir = tempfile.mkdtemp(prefix="vdnsf-")
            self._pick_net()
        else:
            self.dir, self.a, self.b, self.reserve = reuse
        self.shm_path = os.path.join(self.dir, "shm")
        if reuse is None:
            with open(self.shm_path, "wb") as f:
                f.write(b"\0" * SHM_SIZE)
        self.f = open(self.shm_path, "r+b")
        self.mm = mmap.mmap(self.f.fileno(), SHM_SIZE)
        struct.pack_into("<ii", self.mm, 8, 500, 30)
        self.files = files or {}
        for n, t in self.files.items():
            self.write_file(n, t)
        self.config_text = config(self) if callable(config) else config
        self.config_path = os.path.join(self.dir, "config")
        with open(self.config_path, "w") as fp:
            fp.write(self.config_text)

    # -- addressing
    def _pick_net(self):
        r = random.Random()
        for _ in range(2000):
            a, b = r.randrange(1, 255), r.randrange(1, 255)
            if a == 0 and b == 0:
                continue
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            try:
                s.bind(("127.%d.%d.254" % (a, b), 1))
            except OSError:
                s.close()
                continue
            self.a, self.b, self.reserve = a, b, s
            return
        raise StartFailed("no loopback network")

    def ip(self, host):
        return "127.%d.%d.%d" % (self.a, self.b, host)

    def path(self, name):
        return os.path.join(self.dir, name)

    def write_file(self, name, t):
        if callable(t):
            t = t(self)
        tmp = os.path.join(self.dir, name + ".tmp~")
        with open(tmp, "w") as fp:
            fp.write(t)
        os.replace(tmp, os.path.join(self.dir, name))

    # -- process
    def start(self, expect_ok=True):
        for i in range(NSLOTS):
            SLOT.pack_into(self.mm, HDR + i * SLOT.size, 0, 0, 0, 0, 0)
        env = {"PATH": "/usr/bin:/bin", "HOME": self.dir, "VSHIM_SHM": self.shm_path,
               "ASAN_OPTIONS": _asan_env % 1, "TMPDIR": self.dir}
        env.update(self.extra_env)
        self.log = open(os.path.join(self.dir, "out.log"), "ab")
        self.proc = subprocess.Popen([self.exe, "-f", self.config_path] + self.args, cwd=self.dir,
                                     env=env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log,
                                     close_fds=True, start_new_session=True)
        t0 = time.monotonic()
        while not any(self._slot(i)[0] for i in range(4)):
            if self.proc.poll() is not None:
                raise Dead("exit %s at start" % self.proc.returncode)
            if time.monotonic() - t0 > self.hang_s:
                raise Hang("start")
            time.sleep(0.001)
        self.quiesce()
        return self

    def _slot(self, i):
        return SLOT.unpack_from(self.mm, HDR + i * SLOT.size)

    def _slots(self):
        out = []
        for i in range(NSLOTS):
            s = self._slot(i)
            if s[0]:
                out.append((i,) + s)
            elif i > 64 and not out:
                break
        return out

    def quiesce(self, need=2):
        t0 = time.monotonic()
        raw = lambda: self.mm[HDR:HDR + 64 * SLOT.size]
        it = lambda: [(k,) + s for k, s in enumerate(SLOT.iter_unpack(raw())) if s[0]]
        while True:
            if self.proc.poll() is not None:
                raise Dead("exit %s" % self.proc.returncode)
            snap = it()
            if snap and all(s[2] for s in snap):
                ref = {s[0]: (s[3], s[4]) for s in snap}
                while True:
                    cur = it()
                    if len(cur) != len(snap) or any(s[0] not in ref or not s[2] or s[4] != ref[s[0]][1] for s in cur):
                        break
                    if all(s[3] >= ref[s[0]][0] + need for s in cur):
                        return
                    if time.monotonic() - t0 > self.hang_s:
                        raise Hang("idle threads do not poll")
                    time.sleep(0.0004)
            if time.monotonic() - t0 > self.hang_s:
                raise Hang("not quiescent after %.0f s" % self.hang_s)
            time.sleep(0.0004)

    def threads(self):
        return [s for s in SLOT.iter_unpack(self.mm[HDR:HDR + 64 * SLOT.size]) if s[0]]

    def now_ms(self):
        return struct.unpack_from("<q", self.mm, 0)[0]

    def now(self):
        return self.now_ms() // 1000

    def set_now_ms(self, v):
        struct.pack_into("<q", self.mm, 0, v)

    def advance(self, seconds, step=1.0):
        """Move virtual time, in steps, quiescing after each step."""
        left = int(round(seconds * 1000))
        st = int(step * 1000)
        while left > 0:
            d = min(st, left)
            self.set_now_ms(self.now_ms() + d)
            left -= d
            self.quiesce()

    # -- endpoints
    def udp(self, name, host, port=0):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 21)
        s.bind((self.ip(host), port))
        s.setblocking(False)
        self.socks[name] = s
        return s

    def drain_udp(self):
        """[(endpoint, (ip,port), bytes)] in per-endpoint order."""
        out = []
        for n, s in self.socks.items():
            while True:
                try:
                    d, a = s.recvfrom(65536)
                except (BlockingIOError, InterruptedError):
                    break
                except ConnectionRefusedError:
                    continue
                out.append((n, a, d))
        return out

    # -- teardown
    def stop(self, sig=signal.SIGKILL):
        """end the process; it can be started again in the same directory"""
        if self.proc.poll() is None:
            self.proc.send_signal(sig)
            try:
                self.proc.wait(5)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
        self.log.close()

    def kill(self):
        if self.proc is not None and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                self.proc.kill()
            self.proc.wait()
        if self.proc is not None:
            self.log.close()

    def tail(self, n=8000):
        try:
            with open(os.path.join(self.dir, "out.log"), "rb") as f:
                return f.read()[-n:].decode("latin-1")
        except OSError:
            return ""

    def close(self):
        self.kill()
        for s in self.socks.values():
            s.close()
        if self.reserve:
            self.reserve.close()
        self.mm.close()
        self.f.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
