"""Chooses the calls of a WASI session."""
from . import wasi
from .wasi import MEM, got

NAMES = [b"a", b"b", b"c", b"d", b"e"]
LONG = b"n" * 255
TOOLONG = b"n" * 256
P = "1/2/3/4/5/6/7/p"
Q = "1/2/3/4/5/6/7/q"

FDOPS = {"fd_read": 8, "fd_write": 10, "fd_pread": 5, "fd_pwrite": 5, "fd_seek": 6, "fd_tell": 2,
         "fd_filestat_get": 3, "fd_filestat_set_size": 3, "fd_filestat_set_times": 2,
         "fd_allocate": 2, "fd_sync": 1, "fd_datasync": 1, "fd_advise": 1, "fd_close": 3,
         "fd_renumber": 3, "fd_fdstat_get": 2, "fd_fdstat_set_flags": 2, "fd_fdstat_set_rights": 1,
         "fd_readdir": 5, "fd_prestat_get": 1, "fd_prestat_dir_name": 1, "path_open": 8}
PATHOPS = {"path_open": 10, "path_create_directory": 6, "path_remove_directory": 4,
           "path_unlink_file": 5, "path_rename": 7, "path_link": 5, "path_symlink": 5,
           "path_readlink": 4, "path_filestat_get": 6, "path_filestat_set_times": 3,
           "fd_readdir": 4, "fd_close": 3, "fd_write": 2, "fd_read": 1, "fd_filestat_get": 1,
           "fd_fdstat_get": 1}
PROCOPS = {"args_get": 2, "args_sizes_get": 2, "environ_get": 2, "environ_sizes_get": 2,
           "clock_time_get": 4, "clock_res_get": 2, "random_get": 3, "sched_yield": 1,
           "poll_oneoff": 10, "sock_recv": 6, "sock_send": 6, "sock_shutdown": 2,
           "sock_accept": 4, "fd_read": 4, "fd_write": 4, "fd_close": 1, "fd_fdstat_get": 1,
           "fd_fdstat_set_flags": 3, "fd_prestat_get": 2, "fd_prestat_dir_name": 2, "fd_renumber": 1,
           "fd_filestat_get": 1, "fd_seek": 1, "fd_pread": 1, "fd_sync": 1, "path_open": 1}
RIGHT_R, RIGHT_W = 1 << 1, 1 << 6


class Gen:
    def __init__(self, s, r, ops, bad=0.04, kinds=()):
        self.s, self.r, self.bad = s, r, bad
        self.ops = list(ops)
        self.w = [ops[o] for o in self.ops]
        self.fds = {}          # number -> {"k", "i", "nb"}
        self.streams = {}      # id -> {"q", "eof", "brk", "o"}
        self.cookies = {}
        self.kinds = kinds
        self.nstream = 20
        self.known = []

    # ---- the world
    def setup(self):
        s, r = self.s, self.r
        d = ""
        for x in "1/2/3/4/5/6/7".split("/"):
            d = d + "/" + x if d else x
            s.mk(d, "d")
        s.mk(P, "d")
        s.mk(Q, "d")
        if r.random() < 0.8:
            s.mk(P + "/a", "f", bytes(r.randrange(256) for _ in range(r.randrange(40))))
            s.mk(P + "/d", "d")
            s.mk(P + "/d/b", "f", b"deep")
            self.known += [b"a", b"d", b"d/b", b"l"]
            s.mk(P + "/l", "l", r.choice([b"a", b"d", b"d/b", b"nowhere", b"l", b"../q", b"d/../a", b"/nonexistent/x",
                                           b"a/", b"d/", b"./d/."]))
            if r.random() < 0.5:
                s.mk(Q + "/m", "l", r.choice([b"../p/l", b"../p", b"x/y", b"../p/d/"]))
        if any(k in ("ro", "rw", "ap") for k in self.kinds):
            s.mk(Q + "/h", "f", b"0123456789" * r.randrange(5))
        s.start()

        def text():
            return bytes(r.choice(b"abcXYZ019=./ \xc3\xa9") for _ in range(r.choice([0, 1, 3, 10, 40])))
        s.strings([text() for _ in range(r.choice([0, 1, 2, 5]))],
                  [b"K%d=" % i + text() for i in range(r.choice([0, 1, 3]))])
        for i, k in enumerate(self.kinds):
            n = i if i < 3 else 10 + i
            s.hostfd(n, k, Q + "/h" if k in ("ro", "rw", "ap") else None)
            kk = s.fd[-1]["k"]
            self.fds[n] = {"k": kk, "i": n, "nb": False}
            if kk in ("pipe", "sock", "lst"):
                self.streams[n] = {"q": 0, "eof": False, "brk": False, "o": 0, "dir": k, "conn": True}
        for h, g in ((P, r.choice(["/", ".", "/p", "p"])), (Q, r.choice(["/q", "sub/dir", "q" * 30]))):
            n = s.preopen(h, g)
            self.fds[n] = {"k": "pre", "i": 0, "nb": False}
        s.inst()

    # ---- pieces
    def data(self, n):
        return bytes(self.r.randrange(256) for _ in range(n))

    def begin(self):
        self.segs = []
        self.at = self.r.choice([0, 8, 64, 1024, 4096])
        self.at0 = self.at

    def alloc(self, n, al=1):
        """room in the guest memory"""
        a = (self.at + al - 1) // al * al
        if self.r.random() < 0.3:
            a += al * self.r.randrange(1, 5)
        self.at = a + n + self.r.randrange(4)
        return a

    def ptr(self, n, al):
        """an output pointer, sometimes at the edge, sometimes wrong"""
        r = self.r
        x = r.random()
        if x < self.bad:
            return r.choice([MEM - n + al if al > 1 else MEM - n + 1, MEM - n - 1 if al > 1 else MEM - n + 1,
                             self.alloc(n + 8, al) + (r.randrange(1, al) if al > 1 else 0),
                             MEM, MEM + 8, 0xffffffff, 0xfffffff8, 0x80000000])
        if x < self.bad + 0.03 and not getattr(self, "edge", False):
            self.edge = True
            return (MEM - n) // al * al
        return self.alloc(n, al)

    def put(self, b, al=1):
        a = self.alloc(len(b), al)
        self.segs.append((a, b))
        return a

    def badlen(self, p, n):
        """sometimes a buffer that does not fit"""
        if self.r.random() < self.bad * 0.6:
            return self.r.choice([(p, 0xffffffff), (MEM - n + 1, n), (p, MEM), (0xffffff00, n), (MEM, n or 1)])
        return p, n

    def path(self, b=None):
        """(pointer, length) of a path"""
        if b is None:
            b = self.path_bytes()
        if not b:
            return self.alloc(1), 0
        return self.badlen(self.put(b), len(b))

    def path_bytes(self):
        r = self.r
        x = r.random()
        if x < 0.015:
            return r.choice([b"", b"/", b"/a", b"a\0b", b"\0", b"a\0", TOOLONG, (b"n" * 200 + b"/") * 20,
                             (b"n" * 200 + b"/") * 21, b"a/" + TOOLONG, b"//a"])
        if x < 0.5 and self.known:
            b = r.choice(self.known)
            y = r.random()
            if y < 0.1:
                b += b"/" + r.choice(NAMES)
            elif y < 0.14:
                b += b"/"
            elif y < 0.17:
                b += b"/."
            elif y < 0.2:
                b = b.rsplit(b"/", 1)[0]
            elif y < 0.23 and b.count(b"..") < 2:
                b += b"/../" + r.choice(NAMES)
            return b
        n = r.choice([1, 1, 1, 1, 2, 2, 3])
        up = 0
        comps = []
        for k in range(n):
            y = r.random()
            if y < 0.06:
                comps.append(b".")
            elif y < 0.12 and up < 2:
                comps.append(b"..")
                up += 1
            elif y < 0.14:
                comps.append(b"../" + r.choice([b"p", b"q"]) if up < 2 else b"a")
                up += 1
            elif y < 0.17:
                comps.append(r.choice([b"l", b"m", b"h"]))
            elif y < 0.18:
                comps.append(r.choice([LONG, b"\xc3\xa9", b"...", b"a b"]))
            else:
                comps.append(r.choice(NAMES))
        b = (b"//" if r.random() < 0.04 else b"/").join(comps)
        if r.random() < 0.07:
            b += b"/" if r.random() < 0.8 else b"//"
        return b

    def anyfd(self, *kinds):
        r = self.r
        x = r.random()
        if x < 0.05 or not self.fds:
            return r.choice([99, 0xffffffff, 1 << 20, 63, 6, 7, 4095])
        if kinds and x < 0.93:
            c = [n for n, d in self.fds.items() if d["k"] in kinds]
            if c:
                return r.choice(c)
        return r.choice(list(self.fds))

    def dirfd(self):
        return self.anyfd("pre", "pre", "dir")

    def iovs(self, total=None, write=True):
        """(pointer, count) of a vector; its buffers"""
        r = self.r
        n = r.choice([1, 1, 1, 2, 3, 4, 8]) if r.random() > 0.02 else r.choice([0, 1025, 1024])
        bufs = b""
        tot = 0
        for _ in range(n):
            l = 0 if n > 100 else r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60])
            if r.random() < self.bad * 0.3:
                p, l = r.choice([(MEM - 1, 2), (MEM, 1), (0xffffffff, 1), (10, 0xffffffff), (MEM - 4, 0x80000000),
                                 (MEM + 1, 0)])
            elif l and r.random() < 0.03:
                p, l = MEM - 7, 7          # ends with the memory
            elif write and l:
                p = self.put(self.data(l))
            else:
                p = self.alloc(l)
            bufs += p.to_bytes(4, "little") + l.to_bytes(4, "little")
            tot += l
        p = self.put(bufs, 4) if bufs else self.alloc(8, 4)
        x = r.random()
        if x < self.bad * 0.4:
            p, n = r.choice([(p + 1, n), (MEM - 4, 1), (MEM, 1), (0xfffffffc, 1), (p, 0x10000000), (p, 0x20000001),
                             (p, 0xffffffff), (p + 2, n)])
        return p, n, tot

    def off(self):
        r = self.r
        x = r.random()
        if x < 0.04:
            return r.choice([1 << 63, (1 << 64) - 1, (1 << 63) - 1, 1 << 40, 1 << 62])
        if x < 0.08:
            return r.choice([600, 1000])
        return r.randrange(0, 80)

    def time(self):
        return self.r.choice([0, 1000, 10 ** 9, 1000000007 * 10 ** 9, 1234567890123456000, 999999000, 10 ** 18 + 1000])

    def blocks(self, fd):
        """reading this descriptor would wait"""
        d = self.fds.get(fd)
        if not d or d["k"] not in ("pipe", "sock", "lst", "odd"):
            return False
        if d["k"] == "odd":
            return True
        s = self.streams[d["i"]]
        if d["k"] == "lst":
            return s["q"] == 0 and not d["nb"]
        return not d["nb"] and s["q"] == 0 and not s["eof"] and s["dir"] not in ("pw", "pq")

    def wait(self, fd):
        """something happens at the other end while the next call waits for it; False if nothing can"""
        r = self.r
        d = self.fds.get(fd)
        if not d or d["k"] not in ("pipe", "sock", "lst"):
            return False
        st = self.streams[d["i"]]
        intr = r.choice([0, 0, 1, 3])
        if d["k"] == "lst":
            if self.nstream >= 60:
                return False
            self.s.later(d["i"], "n", self.nstream, intr=intr)
            self.streams[self.nstream] = {"q": 0, "eof": False, "brk": False, "o": 0, "dir": "ss", "conn": True}
            st["q"] += 1
            st.setdefault("wait", []).append(self.nstream)
            self.nstream += 1
            return True
        if not st["conn"] or "unk" in st:
            return False
        x = r.random()
        if x < 0.9:
            b = self.data(r.choice([1, 2, 5, 10, 40, 200]))
            self.s.later(d["i"], "w", 0, b, intr=intr)
            st["q"] += len(b)
        elif x < 0.95 or d["k"] != "sock":
            self.s.later(d["i"], "c", intr=intr)
            st["conn"] = False
            st["eof"] = st["brk"] = True
        else:
            self.s.later(d["i"], "s", 1, intr=intr)
            st["eof"] = True
        return True

    MAKES = {"path_create_directory": 1, "path_open": 2, "path_symlink": 3, "path_rename": 4, "path_link": 5}

    # ---- calls
    def call(self, name, args, un=None):
        if un is None:
            un = int(self.r.random() < 0.12 and name != "sock_accept")
        e = self.s.call(name, args, self.segs, un)
        if name in self.MAKES and e["r"] == 0 and e["t"] == -1:
            p, n = args[self.MAKES[name]:][:2]
            b = bytes(got(dict(e, g=[]), p, n))
            if len(b) < 30 and b.count(b"..") < 2:
                self.known = (self.known + [b])[-8:]
        return e

    def step(self):
        self.begin()
        self.edge = False
        o = self.r.choices(self.ops, self.w)[0]
        getattr(self, o, lambda: self.simple(o))()

    def simple(self, o):
        fd = self.anyfd()
        self.call(o, [fd])

    def sched_yield(self):
        self.call("sched_yield", [])

    def _rw(self, name, write, pos):
        fd = self.anyfd("file", "file", "dir", "nul") if self.r.random() < 0.7 or write else self.anyfd()
        if not self.kinds_only_files() and self.r.random() < 0.6:
            fd = self.anyfd("pipe", "sock")
        if self.small(fd):
            return self.fill(fd)
        if not write and not pos and self.blocks(fd) and not self.wait(fd):
            return
        p, n, tot = self.iovs(write=write)
        args = [fd, p, n] + ([self.off()] if pos else []) + [self.ptr(4, 4)]
        e = self.call(name, args)
        self.account(fd, e, args[-1], write, pos)

    def account(self, fd, e, retp, write, pos):
        d = self.fds.get(fd)
        if d and d["k"] in ("pipe", "sock") and not pos:
            st = self.streams[d["i"]]
            if e["t"] != -1:
                # whether it was done is not known
                if write:
                    st["o"] = 1 if st["dir"] != "pq" else st["o"]
                else:
                    st["q"] = 0
                    st["unk"] = True
            elif e["r"] == 0:
                n = int.from_bytes(bytes(got(e, retp, 4)), "little")
                if write:
                    st["o"] += n
                else:
                    st["q"] = max(0, st["q"] - n)

    def small(self, fd):
        """the pipe with little room"""
        d = self.fds.get(fd)
        return d and d["k"] == "pipe" and self.streams[d["i"]]["dir"] == "pq"

    def fill(self, fd):
        """write to it; read from it when that has to wait"""
        r = self.r
        d = self.fds[fd]
        st = self.streams[d["i"]]
        n = r.choice([1, 100, 900, 1500, 2000])
        b = self.data(n)
        c = r.choice([0, 0, n, r.randrange(n + 1)])
        p = self.put(b)
        v = self.put(p.to_bytes(4, "little") + c.to_bytes(4, "little") + (p + c).to_bytes(4, "little") +
                     (n - c).to_bytes(4, "little"), 4)
        if st["conn"] and not d["nb"] and not st["brk"] and st["o"] and st["o"] + n > 4096:
            self.s.later(d["i"], "r", 5000, intr=r.choice([0, 0, 1, 3]))
            st["o"] = 0
        elif st["conn"] and r.random() < 0.15:
            self.s.peer(d["i"], "r", 5000)
            st["o"] = 0
        retp = self.alloc(4, 4)
        e = self.call("fd_write", [fd, v, 2, retp])
        self.account(fd, e, retp, True, False)

    def kinds_only_files(self):
        return not any(d["k"] in ("pipe", "sock") for d in self.fds.values())

    def fd_read(self):
        self._rw("fd_read", False, False)

    def fd_write(self):
        self._rw("fd_write", True, False)

    def fd_pread(self):
        self._rw("fd_pread", False, True)

    def fd_pwrite(self):
        self._rw("fd_pwrite", True, True)

    def fd_seek(self):
        r = self.r
        un = int(r.random() < 0.2)
        o = r.choice([0, 0, 1, 5, 20, 100, -1, -3, -20, -200, 300])
        if r.random() < 0.03:
            o = r.choice([-1 << 63, -1 << 40])
        w = r.choice([0, 1, 2]) if r.random() < 0.96 else r.choice([3, 255, 7])
        self.call("fd_seek", [self.anyfd("file", "file", "dir"), o & (1 << 64) - 1, w, self.ptr(8, 8)], un)

    def fd_tell(self):
        self.call("fd_tell", [self.anyfd("file", "file", "dir"), self.ptr(8, 8)])

    def fd_filestat_get(self):
        un = int(self.r.random() < 0.2)
        self.call("fd_filestat_get", [self.anyfd("file", "dir"), self.ptr(56 if un else 64, 8)], un)

    def fd_filestat_set_size(self):
        n = self.off()
        self.call("fd_filestat_set_size", [self.anyfd("file"), n])

    def fst(self):
        return self.r.choice([5, 5, 10, 10, 0, 1, 4, 6, 9, 3, 12, 15, 16])

    def fd_filestat_set_times(self):
        self.call("fd_filestat_set_times", [self.anyfd("file", "dir"), self.time(), self.time(), self.fst()])

    def fd_allocate(self):
        self.call("fd_allocate", [self.anyfd("file"), self.off(), self.off()])

    def fd_advise(self):
        self.call("fd_advise", [self.anyfd("file"), self.off(), self.off(), self.r.randrange(8)])

    def fd_close(self):
        r = self.r
        fd = self.anyfd()
        if self.fds.get(fd, {}).get("k") == "pre" and r.random() < 0.95:
            return
        e = self.call("fd_close", [fd])
        if e["r"] == 0:
            self.fds.pop(fd, None)

    def fd_renumber(self):
        a, b = self.anyfd("file", "dir", "pipe", "sock"), self.anyfd("file", "dir", "pipe", "sock")
        if "pre" in (self.fds.get(a, {}).get("k"), self.fds.get(b, {}).get("k")) and self.r.random() < 0.7:
            return
        e = self.call("fd_renumber", [a, b])
        if e["r"] == 0 and a != b and a in self.fds:
            self.fds[b] = self.fds.pop(a)
            self.cookies[b] = self.cookies.pop(a, [])

    def fd_fdstat_get(self):
        self.call("fd_fdstat_get", [self.anyfd(), self.ptr(24, 8)])

    def fd_fdstat_set_flags(self):
        fd = self.anyfd()
        f = self.r.choice([0, 4, 4]) if self.r.random() < 0.9 else self.r.choice([1, 5, 2, 8, 16, 31, 64])
        e = self.call("fd_fdstat_set_flags", [fd, f])
        if e["r"] == 0 and fd in self.fds:
            self.fds[fd]["nb"] = bool(f & 4)

    def fd_fdstat_set_rights(self):
        self.call("fd_fdstat_set_rights", [self.anyfd(), (1 << 30) - 1, (1 << 30) - 1])

    def fd_prestat_get(self):
        self.call("fd_prestat_get", [self.anyfd("pre"), self.ptr(8, 4)])

    def fd_prestat_dir_name(self):
        fd = self.anyfd("pre")
        l = len(next((f["nm"] for f in self.s.fd if f["n"] == fd), b"abc"))
        n = self.r.choice([l, l, l, l + 1, max(0, l - 1), 0, 100])
        p, n = self.badlen(self.alloc(n), n)
        self.call("fd_prestat_dir_name", [fd, p, n])

    def fd_readdir(self):
        r = self.r
        fd = self.anyfd("dir")
        n = r.choice([4096, 1000, 300, 200, 100, 60, 25, 24, 10, 0])
        ck = 0
        if self.cookies.get(fd) and r.random() < 0.6:
            ck = r.choice(self.cookies[fd])
        elif r.random() < 0.02:
            ck = r.choice([1 << 63, (1 << 64) - 1])
        p, n = self.badlen(self.alloc(n), n)
        retp = self.ptr(4, 4)
        e = self.call("fd_readdir", [fd, p, n, ck, retp])
        if e["r"] == 0:
            self.dirents(fd, e, p, int.from_bytes(bytes(got(e, retp, 4)), "little"))

    def dirents(self, fd, e, p, n):
        b = bytes(got(e, p, min(n, 4096)))
        while len(b) >= 24:
            nl = int.from_bytes(b[16:20], "little")
            if 24 + nl > len(b):
                break
            c = int.from_bytes(b[:8], "little")
            if c < 1 << 63:
                self.cookies.setdefault(fd, []).append(c)
            b = b[24 + nl:]

    # ---- paths
    def path_open(self):
        r = self.r
        fd = self.dirfd()
        p, n = self.path()
        of = r.choice([0, 0, 1, 1, 1, 2, 2, 8, 9, 5, 4, 3, 10, 15, 12, 13, 6])
        rights = r.choice([RIGHT_R, RIGHT_R | RIGHT_W, RIGHT_R | RIGHT_W, RIGHT_W, 0, (1 << 29) - 1])
        if of & 2 and r.random() < 0.8:
            rights &= ~RIGHT_W
        ff = r.choice([0, 0, 0, 0, 1, 4, 5])
        retp = self.ptr(4, 4)
        e = self.call("path_open", [fd, r.choice([1, 1, 0]), p, n, of, rights, rights, ff, retp])
        if e["r"] == 0 and e["t"] == -1:
            new = int.from_bytes(bytes(got(e, retp, 4)), "little")
            self.fds[new] = {"k": "dir" if of & 2 or not rights & RIGHT_W and not of & 1 and r.random() < 0.3 else "file",
                             "i": 0, "nb": False}
            self.cookies[new] = []

    def path_create_directory(self):
        self.call("path_create_directory", [self.dirfd(), *self.path()])

    def path_remove_directory(self):
        self.call("path_remove_directory", [self.dirfd(), *self.path()])

    def path_unlink_file(self):
        self.call("path_unlink_file", [self.dirfd(), *self.path()])

    def path_rename(self):
        self.call("path_rename", [self.dirfd(), *self.path(), self.dirfd(), *self.path()])

    def path_link(self):
        self.call("path_link", [self.dirfd(), self.r.choice([1, 1, 1, 0]), *self.path(), self.dirfd(), *self.path()])

    def path_symlink(self):
        r = self.r
        b = self.path_bytes()
        while b.startswith(b"/"):
            b = b[1:] or b"a"
        if r.random() < 0.04:
            b = r.choice([b"/nonexistent/a", b"", b"a\0b", b"x" * 4095, b"x" * 4096])
        tp, tn = self.path(b)
        self.call("path_symlink", [tp, tn, self.dirfd(), *self.path()])

    def path_readlink(self):
        n = self.r.choice([100, 100, 10, 3, 2, 1, 0])
        if self.r.random() < 0.5:
            p = self.path(self.r.choice([b"l", b"../q/m", b"a", b"b"]))
        else:
            p = self.path()
        bp, n = self.badlen(self.alloc(n), n)
        self.call("path_readlink", [self.dirfd(), *p, bp, n, self.ptr(4, 4)])

    def path_filestat_get(self):
        un = int(self.r.random() < 0.2)
        self.call("path_filestat_get", [self.dirfd(), self.r.choice([1, 0]), *self.path(),
                                        self.ptr(56 if un else 64, 8)], un)

    def path_filestat_set_times(self):
        self.call("path_filestat_set_times", [self.dirfd(), self.r.choice([1, 0]), *self.path(),
                                              self.time(), self.time(), self.fst()])

    # ---- process
    def args_sizes_get(self, o="args_sizes_get"):
        self.call(o, [self.ptr(4, 4), self.ptr(4, 4)])

    def environ_sizes_get(self):
        self.args_sizes_get("environ_sizes_get")

    def args_get(self, o="args_get", ss=None):
        ss = self.s.args if ss is None else ss
        self.call(o, [self.ptr(4 * len(ss), 4), self.ptr(sum(len(x) + 1 for x in ss), 1)])

    def environ_get(self):
        self.args_get("environ_get", self.s.envs)

    def clock_time_get(self):
        self.call("clock_time_get", [self.r.choice([0, 1, 2, 3]) if self.r.random() < 0.9 else
                                     self.r.choice([4, 0xffffffff, 100]), self.r.choice([0, 1, 10 ** 9]), self.ptr(8, 8)])

    def clock_res_get(self):
        self.call("clock_res_get", [self.r.choice([0, 1, 2, 3]) if self.r.random() < 0.9 else
                                    self.r.choice([4, 0xffffffff, 100]), self.ptr(8, 8)])

    def random_get(self):
        n = self.r.choice([0, 1, 11, 12, 13, 64, 255, 256, 257, 600])
        p, n = self.badlen(self.ptr(n, 1), n)
        self.call("random_get", [p, n])

    def proc_exit(self):
        self.call("proc_exit", [self.r.choice([0, 1, 2, 77, 125, 126, 255, 256, 0x7fffffff, 0xffffffff, 1 << 29])])

    def poll_oneoff(self):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4])
        subs = b""
        clock = False
        sure = False
        idle = []       # could be waited for
        noclock = r.random() < 0.3
        for k in range(n):
            ty = r.choice([0, 1, 1, 2]) if not noclock else r.choice([1, 1, 1, 2])
            if ty == 0 and clock and r.random() < 0.9:
                ty = 1
            ud = (r.randrange(1 << 56) << 8 | k).to_bytes(8, "little")
            if r.random() < 0.01:
                ty = r.choice([3, 255])
                sure = True
            if ty == 0:
                cid = r.choice([0, 1, 1])
                ab = r.random() < 0.3
                to = r.choice([0, 0, 1, 1000, 999999, 1000000, 1000001, 3500000, 12345678])
                if ab:
                    now = self.now(cid)
                    to = r.choice([0, max(0, now - 10 ** 9), now, now + 2000000, now + 7654321])
                fl = int(ab)
                subs += ud + bytes([0]) + b"\xcc" * 7 + cid.to_bytes(4, "little") + b"\xcc" * 4 + \
                    to.to_bytes(8, "little") + bytes(8) + fl.to_bytes(2, "little") + b"\xcc" * 6
                clock = True
            else:
                fd = self.anyfd("pipe", "sock", "lst", "file", "nul") if r.random() < 0.9 else self.anyfd()
                d = self.fds.get(fd)
                if self.small(fd):
                    fd, d = 99, None
                if d is None or d["k"] not in ("pipe", "sock", "lst", "odd"):
                    sure = True
                elif ty == 1 and d["k"] not in ("lst", "odd") and not self.blocks(fd) and (self.streams[d["i"]]["q"] or
                                                                              self.streams[d["i"]]["eof"]):
                    sure = True
                elif ty == 1 and d["k"] != "odd":
                    st = self.streams[d["i"]]
                    if st["q"] == 0 and not st["eof"] and st["conn"] and "unk" not in st and st["dir"] not in ("pw", "pq"):
                        idle.append(fd)
                subs += ud + bytes([ty]) + b"\xcc" * 7 + fd.to_bytes(4, "little") + b"\xcc" * 28
        ask = not clock and not sure and len(idle) == n and r.random() < 0.8
        if not clock and not sure and not ask:
            clock = True
            ud = (r.randrange(1 << 56) << 8 | 77).to_bytes(8, "little")
            subs += ud + bytes([0]) + b"\xcc" * 7 + (1).to_bytes(4, "little") + b"\xcc" * 4 + \
                (2000000).to_bytes(8, "little") + bytes(8) + bytes(2) + b"\xcc" * 6
            n += 1
        ip = self.put(subs, 8)
        if ask:
            self.wait(r.choice(idle))
        elif clock and r.random() < 0.15:
            self.s.interrupts(r.choice([1, 2, 5]))
        elif r.random() < 0.02:
            n = 0
        if not ask and r.random() < self.bad * 0.5:
            ip, n = r.choice([(ip + 4, n), (MEM - 40, 1), (0xfffffff8, 1), (ip, 0x10000000), (ip, 0xffffffff),
                              (ip, 0x05555556)])
        op = self.ptr(32 * min(n, 8), 8)
        self.call("poll_oneoff", [ip, op, n, self.ptr(4, 4)])

    def now(self, cid):
        import time
        return time.clock_gettime_ns(time.CLOCK_REALTIME if cid == 0 else time.CLOCK_MONOTONIC)

    def sock_recv(self):
        r = self.r
        fd = self.anyfd("sock")
        if self.blocks(fd) and (self.fds[fd]["k"] != "sock" or not self.wait(fd)):
            return
        p, n, tot = self.iovs(write=False)
        fl = r.choice([0, 0, 0, 1, 1]) if r.random() < 0.95 else r.choice([2, 3, 4, 0xffff])
        a = [fd, p, n, fl, self.ptr(4, 4), self.ptr(2, 2)]
        e = self.call("sock_recv", a)
        if not fl & 1:
            self.account(fd, e, a[4], False, False)

    def sock_send(self):
        fd = self.anyfd("sock")
        p, n, tot = self.iovs(write=True)
        a = [fd, p, n, 0 if self.r.random() < 0.97 else self.r.choice([1, 0xffff]), self.ptr(4, 4)]
        e = self.call("sock_send", a)
        self.account(fd, e, a[4], True, False)

    def sock_shutdown(self):
        r = self.r
        if r.random() < 0.5:
            return
        fd = self.anyfd("sock")
        how = r.choice([1, 2, 3]) if r.random() < 0.8 else r.choice([0, 4, 255, 7])
        e = self.call("sock_shutdown", [fd, how])
        d = self.fds.get(fd)
        if e["r"] == 0 and d and d["k"] == "lst":
            d["k"] = "odd"      # takes no more connections
        if e["r"] == 0 and d and d["k"] == "sock":
            s = self.streams[d["i"]]
            s["eof"] |= bool(how & 1)
            s["brk"] |= bool(how & 2)

    def sock_accept(self):
        r = self.r
        fd = self.anyfd("lst")
        if self.blocks(fd) and (self.fds[fd]["k"] != "lst" or not self.wait(fd)):
            return
        fl = r.choice([0, 0, 4]) if r.random() < 0.95 else r.choice([1, 2, 8])
        retp = self.ptr(4, 4)
        e = self.call("sock_accept", [fd, fl, retp], 0)
        if e["r"] == 0 and e["t"] == -1 and fd in self.fds and self.fds[fd]["k"] == "lst":
            new = int.from_bytes(bytes(got(e, retp, 4)), "little")
            ls = self.streams[self.fds[fd]["i"]]
            ls["q"] -= 1
            i = ls["wait"].pop(0)
            self.fds[new] = {"k": "sock", "i": i, "nb": bool(fl & 4)}
        elif e["t"] != -1 and fd in self.fds and self.fds[fd]["k"] == "lst":
            # the connection may be gone or not: leave the socket alone
            self.fds[fd]["k"] = "odd"

    # ---- the other side
    def peer(self):
        r = self.r
        if not self.streams:
            return
        i = r.choice(list(self.streams))
        st = self.streams[i]
        if st["dir"] == "sl":
            if st["q"] < 4 and self.nstream < 60 and any(d["i"] == i and d["k"] == "lst" for d in self.fds.values()):
                self.s.peer(i, "n", self.nstream)
                self.streams[self.nstream] = {"q": 0, "eof": False, "brk": False, "o": 0, "dir": "ss", "conn": True}
                st["q"] += 1
                st.setdefault("wait", []).append(self.nstream)
                self.nstream += 1
            return
        if not st["conn"]:
            return
        held = any(d["i"] == i and d["k"] in ("pipe", "sock") for d in self.fds.values()) or \
            any(i in x.get("wait", ()) for x in self.streams.values())
        x = r.random()
        if st["dir"] in ("pr", "ss") and x < 0.45:
            if held and not st["eof"] and st["q"] < 500:
                b = self.data(r.choice([1, 2, 5, 10, 40]))
                e = self.s.peer(i, "w", 0, b)
                if e["e"] == 0:
                    st["q"] += len(b)
        elif st["dir"] in ("pw", "ss") and x < 0.9:
            if held:
                self.s.peer(i, "r", r.choice([1, 4, 100, 2000]))
        elif x > 0.97:
            self.s.peer(i, "c")
            st["conn"] = False
            st["eof"] = st["brk"] = True
        elif x > 0.94 and st["dir"] == "ss":
            how = r.choice([0, 1])
            self.s.peer(i, "s", how)
            if how == 1:
                st["eof"] = True
            else:
                st["brk"] = True


def session(rng, ops, n, kinds=(), bad=0.04, exit=False, trees=3):
    """a function that drives one session of about n calls"""
    def go(s):
        g = Gen(s, rng, ops, bad, kinds)
        g.setup()
        for k in range(n):
            g.step()
            if g.streams and rng.random() < 0.5:
                g.peer()
            if trees and k % max(1, n // trees) == 0:
                s.tree()
        if exit:
            g.begin()
            g.proc_exit()
        s.tree()
        s.end()
    return go
