"""A small WebAssembly binary writer."""

I32, I64, F32, F64, V128 = 0x7f, 0x7e, 0x7d, 0x7c, 0x7b
FUNCREF, EXTERNREF, EXNREF = 0x70, 0x6f, 0x69
EMPTY = 0x40
SIGCH = {I32: "i", I64: "I", F32: "f", F64: "F", V128: "v", FUNCREF: "c",
         EXTERNREF: "e", EXNREF: "x"}


def u(n, pad=0):
    """unsigned LEB128, optionally with `pad` redundant bytes"""
    o = []
    while True:
        b = n & 0x7f
        n >>= 7
        if n or pad:
            o.append(b | 0x80)
            if not n:
                for _ in range(pad - 1):
                    o.append(0x80)
                o.append(0)
                break
        else:
            o.append(b)
            break
    return bytes(o)


def s(n):
    """signed LEB128"""
    o = []
    while True:
        b = n & 0x7f
        n >>= 7
        if (n == 0 and not b & 0x40) or (n == -1 and b & 0x40):
            o.append(b)
            return bytes(o)
        o.append(b | 0x80)


def s32(n):
    n &= 0xffffffff
    return s(n - (1 << 32) if n >> 31 else n)


def s64(n):
    n &= (1 << 64) - 1
    return s(n - (1 << 64) if n >> 63 else n)


def vec(items):
    items = list(items)
    return u(len(items)) + b"".join(items)


def name(x):
    if isinstance(x, str):
        x = x.encode()
    return u(len(x)) + x


def const(t, v):
    """v: raw bytes (little endian) or an int"""
    n = {I32: 4, I64: 8, F32: 4, F64: 8, V128: 16}[t]
    if isinstance(v, int):
        v = (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")
    if t == I32:
        return b"\x41" + s32(int.from_bytes(v, "little"))
    if t == I64:
        return b"\x42" + s64(int.from_bytes(v, "little"))
    if t == F32:
        return b"\x43" + v
    if t == F64:
        return b"\x44" + v
    return b"\xfd\x0c" + v


def limits(mn, mx=None, shared=False, ps=None):
    f = (1 if mx is not None else 0) | (2 if shared else 0) | (8 if ps is not None else 0)
    return bytes([f]) + u(mn) + (u(mx) if mx is not None else b"") + \
        (u(ps) if ps is not None else b"")


def functype(p, r):
    return b"\x60" + vec(bytes([t]) for t in p) + vec(bytes([t]) for t in r)


class Module:
    """Sections as lists of already encoded entries plus bookkeeping."""

    def __init__(self):
        self.types = []       # (params, results)
        self.imports = []     # (module, name, desc bytes)
        self.funcs = []       # typeidx
        self.tables = []      # encoded
        self.mems = []
        self.tags = []
        self.globals = []
        self.exports = []     # (name, kind, idx)
        self.start = None
        self.elems = []
        self.datacount = None
        self.codes = []       # (locals list, body bytes incl. end)
        self.datas = []
        self.customs = []     # (position section id or None, bytes)
        self.nimpfuncs = 0
        self.nimptables = 0
        self.nimpmems = 0
        self.nimpglobals = 0
        self.nimptags = 0

    def type(self, p, r):
        k = (tuple(p), tuple(r))
        if k in self.types:
            return self.types.index(k)
        self.types.append(k)
        return len(self.types) - 1

    def imp_func(self, m, n, p, r):
        self.imports.append((m, n, b"\x00" + u(self.type(p, r))))
        self.nimpfuncs += 1
        return self.nimpfuncs - 1

    def imp_table(self, m, n, et, lim):
        self.imports.append((m, n, b"\x01" + bytes([et]) + lim))
        self.nimptables += 1
        return self.nimptables - 1

    def imp_mem(self, m, n, lim):
        self.imports.append((m, n, b"\x02" + lim))
        self.nimpmems += 1
        return self.nimpmems - 1

    def imp_global(self, m, n, t, mut):
        self.imports.append((m, n, b"\x03" + bytes([t, mut])))
        self.nimpglobals += 1
        return self.nimpglobals - 1

    def imp_tag(self, m, n, p):
        self.imports.append((m, n, b"\x04\x00" + u(self.type(p, ()))))
        self.nimptags += 1
        return self.nimptags - 1

    def func(self, p, r, locs=(), body=b"", export=None):
        self.funcs.append(self.type(p, r))
        self.codes.append((locs if isinstance(locs, bytes) else list(locs), body))
        i = self.nimpfuncs + len(self.funcs) - 1
        if export is not None:
            self.export(export, 0, i)
        return i

    def table(self, et, mn, mx=None):
        self.tables.append(bytes([et]) + limits(mn, mx))
        return self.nimptables + len(self.tables) - 1

    def mem(self, mn, mx=None, shared=False, ps=None):
        self.mems.append(limits(mn, mx, shared, ps))
        return self.nimpmems + len(self.mems) - 1

    def tag(self, p):
        self.tags.append(b"\x00" + u(self.type(p, ())))
        return self.nimptags + len(self.tags) - 1

    def glob(self, t, mut, init):
        self.globals.append(bytes([t, mut]) + init + b"\x0b")
        return self.nimpglobals + len(self.globals) - 1

    def export(self, n, kind, idx):
        self.exports.append((n, kind, idx))

    @staticmethod
    def enc_locals(locs):
        ch = []
        for t in locs:
            if ch and ch[-1][1] == t:
                ch[-1][0] += 1
            else:
                ch.append([1, t])
        return vec(u(n) + bytes([t]) for n, t in ch)

    def sections(self):
        """[(id, payload)] in order"""
        o = []

        def add(i, items):
            if items:
                o.append((i, vec(items)))
        add(1, [functype(p, r) for p, r in self.types])
        add(2, [name(m) + name(n) + d for m, n, d in self.imports])
        add(3, [u(t) for t in self.funcs])
        add(4, self.tables)
        add(5, self.mems)
        add(13, self.tags)
        add(6, self.globals)
        add(7, [name(n) + bytes([k]) + u(i) for n, k, i in self.exports])
        if self.start is not None:
            o.append((8, u(self.start)))
        add(9, self.elems)
        if self.datacount is not None:
            o.append((12, u(self.datacount)))
        cs = []
        for locs, body in self.codes:
            b = (locs if isinstance(locs, bytes) else self.enc_locals(locs)) + body
            if not body.endswith(b"\x0b"):
                raise ValueError("body without end")
            cs.append(u(len(b)) + b)
        add(10, cs)
        add(11, self.datas)
        return o

    def encode(self):
        return b"\0asm\x01\0\0\0" + b"".join(
            bytes([i]) + u(len(p)) + p for i, p in self.sections())


# active / passive segments
def elem_active(off, funcs, table=0):
    if table == 0:
        return b"\x00" + off + b"\x0b" + vec(u(f) for f in funcs)
    return b"\x02" + u(table) + off + b"\x0b" + b"\x00" + vec(u(f) for f in funcs)


def elem_passive(funcs):
    return b"\x01\x00" + vec(u(f) for f in funcs)


def elem_decl(funcs):
    return b"\x03\x00" + vec(u(f) for f in funcs)


def elem_active_expr(off, exprs, table=None, et=FUNCREF):
    v = vec(e + b"\x0b" for e in exprs)
    if table is None:
        return b"\x04" + off + b"\x0b" + v
    return b"\x06" + u(table) + off + b"\x0b" + bytes([et]) + v


def elem_passive_expr(exprs, et=FUNCREF):
    return b"\x05" + bytes([et]) + vec(e + b"\x0b" for e in exprs)


def elem_decl_expr(exprs, et=FUNCREF):
    return b"\x07" + bytes([et]) + vec(e + b"\x0b" for e in exprs)


def data_active(off, b, mem=0):
    if mem == 0:
        return b"\x00" + off + b"\x0b" + u(len(b)) + b
    return b"\x02" + u(mem) + off + b"\x0b" + u(len(b)) + b


def data_passive(b):
    return b"\x01" + u(len(b)) + b


def val(t, v):
    """argument text for the driver"""
    n = {I32: 4, I64: 8, F32: 4, F64: 8, V128: 16}[t]
    if isinstance(v, int):
        v = (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")
    return "%02x:%s" % (t, v.hex())
