"""Scenarios per property: what is carried out on the implementation.  What must come out is up to the specification."""
import itertools

import gen
from gen import (BOOL, DOUBLE, FLOAT, FUNS, INT32, INT64, NUMERIC, OP, REL, STRING, TYPES, cast, const, fun, hexs, i32, i64,
                 null_const, op, show, show_row, string, var, varint)


class Scenarios:
    def __init__(self, r):
        self.r = r
        self.all = []
        self.n = 0

    def add(self, cmds, tag='s', end=False):
        self.n += 1
        self.all.append(('%s%d' % (tag, self.n), list(cmds) + (['end'] if end else [])))

    def pack(self, evs, tag='e', per=20):
        for i in range(0, len(evs), per):
            self.add(evs[i:i + per], tag)


def ev(code, row=None):
    return 'ev %s %s' % (hexs(code), '*' if row is None else show_row(row))


def case_ev(c):
    """A case enumerated by Gen_Ops."""
    return 'ev %s %s' % (hexs(c['code']), ','.join('%d:%s' % (t, bytes(b).hex()) for t, b in c['row']) or '*')


def sample(r, xs, n):
    return list(xs) if n is None or n >= len(xs) else r.sample(xs, n)


def grid(s, cases, groups, n=None, want=lambda c: True):
    xs = [c for c in cases if c['g'] in groups and want(c)]
    s.pack([case_ev(c) for c in sample(s.r, xs, n)], 'grid')


def programs(s, n, depth=(1, 4), types=TYPES, rows=3, several=True, null=0.15, cnull=0.05, long=False, cols=None):
    r = s.r
    for _ in range(n):
        cs = cols(r) if cols else gen.rand_cols(r)
        c = gen.Ctx(r, cs, null=cnull, long=long)
        m = r.choice([1, 1, 2, 3, 5]) if several else 1
        code = b''.join(gen.expr(c, r.choice(types), r.randrange(*depth)) for _ in range(m))
        s.add([ev(code, gen.rand_row(r, cs, null, long)) for _ in range(rows)], 'prog')


def binary(s, n, names, types, value, null=0.0):
    """One operator on two values, from constants or variables."""
    r = s.r
    evs = []
    for _ in range(n):
        t = r.choice(types)
        name = r.choice(names)
        if t in (4, 5) and name == 'mod':
            name = 'div'
        if t in (3, 7) and name not in REL + ['min', 'max']:
            name = 'eq'
        a, b = value(r, t)
        if null and r.random() < null:
            a = gen.NULL
        if null and r.random() < null:
            b = gen.NULL
        k = r.randrange(4)
        row = [a, b]
        code = (var(t, 0) if k & 1 else const(a, r)) + (var(t, 1) if k & 2 else const(b, r)) + op(name, t)
        if r.random() < 0.15:
            code = var(t, 1) + var(t, 0) + op(name, t)
        evs.append(ev(code, row))
    s.pack(evs, 'bin')


def unary(s, n, make, value):
    """make(r) -> (code after the operand, type of the operand)"""
    r = s.r
    evs = []
    for _ in range(n):
        code, t = make(r)
        v = value(r, t)
        evs.append(ev((var(t, 0) if r.random() < 0.5 else const(v, r)) + code, [v]))
    s.pack(evs, 'un')


# ---- values close to what matters

def int_pair(r, t):
    w = 32 if t == 1 else 64
    mk = i32 if t == 1 else i64
    k = r.random()
    if k < 0.3:
        return gen.rand_value(r, t, 0), gen.rand_value(r, t, 0)
    if k < 0.6:
        # products and sums around the width
        p = r.choice([r.randrange(1, w), r.randrange(1, w), w // 2, w // 2 + 1])
        m = r.choice([r.randrange(1, w), w - p, max(1, w - p - 1), min(w - 1, w - p + 1), p, p])
        a = (r.getrandbits(p) | r.randrange(2) << (p - 1)) * r.choice([1, -1])
        b = ((r.getrandbits(m) | r.randrange(2) << (m - 1)) + r.randrange(2)) * r.choice([1, -1])
        return mk(a), mk(b)
    if k < 0.8:
        b = r.choice([-1, 1, 2, -2, 3, 10, -10, 0, 1 << (w - 1), (1 << (w - 1)) - 1, 1 << (w // 2)])
        return mk(r.getrandbits(w)), mk(b)
    return mk(r.choice([1 << (w - 1), (1 << (w - 1)) - 1, -1, 0, 1, (1 << (w - 1)) + 1])), mk(r.getrandbits(w) >> r.randrange(w))


def float_pair(r, t):
    eb, mb = (8, 23) if t == 4 else (11, 52)
    mk = gen.f32bits if t == 4 else gen.f64bits

    def num(e):
        k = r.random()
        m = r.getrandbits(mb) if k < 0.4 else (r.getrandbits(mb) >> r.randrange(mb) << r.randrange(mb)) & ((1 << mb) - 1) if k < 0.7 else \
            r.choice([0, 1, (1 << mb) - 1, 1 << (mb - 1), (1 << (mb - 1)) + 1, (1 << mb) - 2])
        e = max(0, min((1 << eb) - 2, e))
        return mk(r.getrandbits(1) << (eb + mb) | e << mb | m)

    bias = (1 << (eb - 1)) - 1
    k = r.random()
    if k < 0.35:
        e = r.randrange(1, (1 << eb) - 1)
        return num(e), num(e + r.randrange(-mb - 3, mb + 4))
    if k < 0.5:
        # products and quotients that end up subnormal or overflow
        e = r.randrange(0, 1 << eb)
        target = r.choice([0, 1, -1, -mb, -mb // 2, (1 << eb) - 2, (1 << eb) - 1, (1 << eb) - 3])
        return num(e), num(target - e + bias + r.randrange(-2, 3))
    if k < 0.6:
        e = r.randrange(0, 1 << eb)
        return num(e), num(e - r.choice([0, 1, -mb, -mb // 2, (1 << eb) - 2]) + bias)
    if k < 0.75:
        return num(bias + r.randrange(-3, 4)), num(bias + r.randrange(-3, 4))
    if k < 0.85:
        return num(r.choice([0, 0, 1, 2])), num(r.choice([0, 0, 1, 2, bias]))
    return gen.rand_value(r, t, 0), gen.rand_value(r, t, 0)


def order_pair(r, t):
    if t == STRING:
        k = r.random()
        p = gen.rand_bytes(r, r.choice([0, 1, 2, 5, 16, 40]), b'a\0\xff\x80' if k < 0.5 else None)
        q, q2 = gen.rand_bytes(r, r.randrange(0, 3), b'\0\x01a\x7f\x80\xff'), gen.rand_bytes(r, r.randrange(0, 3), b'\0\x01a\x7f\x80\xff')
        return string(p + q), string(p + q2)
    a = gen.rand_value(r, t, 0)
    k = r.random()
    if k < 0.25:
        return a, a
    if k < 0.5 and t != BOOL:
        n = int.from_bytes(a[1], 'little')
        w = len(a[1])
        b = (n + r.choice([1, -1, 2, 1 << (8 * w - 1), 1 << 31, 1 << 32])) % (1 << (8 * w))
        return a, (t, b.to_bytes(w, 'little'))
    if t in (1, 2) and k < 0.75:
        return int_pair(r, t)
    if t in (4, 5) and k < 0.75:
        return float_pair(r, t)
    return a, gen.rand_value(r, t, 0)


def cast_value(r, t):
    """Values at the borders of conversions."""
    k = r.random()
    if t in (4, 5) and k < 0.6:
        mk = gen.f32 if t == 4 else gen.f64
        base = r.choice([0, 1, 2, 3, 10, 100, 2**23, 2**24, 2**31, 2**32, 2**52, 2**53, 2**62, 2**63, r.randrange(2**20), r.randrange(2**40), r.randrange(2**63)])
        x = float(base) + r.choice([0, 0, 0.5, -0.5, 0.25, 0.75, 0.49999, -1, 1, 1.5])
        x *= r.choice([1, -1])
        v = mk(x)
        if r.random() < 0.3:
            n = int.from_bytes(v[1], 'little') + r.choice([1, -1])
            v = (t, (n % (1 << (8 * len(v[1])))).to_bytes(len(v[1]), 'little'))
        return v
    if t in (4, 5) and k < 0.85:
        # decimal fractions
        mk = gen.f32 if t == 4 else gen.f64
        return mk(r.choice([1, -1]) * r.randrange(10**r.randrange(1, 9)) / 10.0**r.randrange(0, 19) if r.random() < 0.7
                  else r.randrange(1, 4000) / 2.0**r.randrange(1, 60))
    if t == 2 and k < 0.5:
        return i64(r.choice([1, -1]) * (2**r.choice([24, 25, 31, 32, 33, 40, 52, 53, 54, 55, 62]) + r.choice([0, 1, -1, 2, -2, 3, 128, 129, 127, 511, 512, 513, 1023, 1024, 1025])))
    if t == 1 and k < 0.4:
        return i32(r.choice([1, -1]) * (2**r.choice([23, 24, 25, 26, 30]) + r.randrange(-5, 6)))
    if t == STRING:
        if k < 0.3:
            n = r.choice([2**31, 2**63, 2**15, 2**24, 10**r.randrange(20)]) + r.randrange(-3, 4)
            b = str(n * r.choice([1, -1])).encode()
        elif k < 0.55:
            b = ('%s%d.%0*d' % (r.choice(['', '-', '+']), r.randrange(10**r.randrange(1, 17)), r.randrange(1, 18), r.randrange(10**r.randrange(1, 17)))).encode()
        elif k < 0.8:
            b = ('%s%d%s%s%d' % (r.choice(['', '-']), r.randrange(10**r.randrange(1, 10)), r.choice(['', '.5', '.125', '.']), r.choice('eE'), r.randrange(-45, 45))).encode()
        else:
            return gen.rand_value(r, STRING, 0)
        if r.random() < 0.3:
            b = gen.rand_bytes(r, r.randrange(1, 3), b' \t\n\v\f\r') + b
        if r.random() < 0.3:
            b = b + r.choice([b'x', b' 1', b'\0005', b'.', b'e', b'e+', b'..', b'-'])
        return string(b)
    return gen.rand_value(r, t, 0)


CASTS = [(d, s) for d in TYPES for s in TYPES if d != s and not (d == BOOL and s == STRING)]


def text_value(r, t=STRING):
    k = r.random()
    if k < 0.3:
        return string(gen.rand_bytes(r, r.randrange(0, 9), b' \t\n\v\f\raZ\0'))
    if k < 0.5:
        return string(gen.rand_bytes(r, r.randrange(0, 12)))
    if k < 0.6:
        return string(b' ' * r.randrange(4) + gen.rand_bytes(r, r.choice([15, 16, 17, 31, 32, 100, 255, 256, 300])) + b'\t' * r.randrange(3))
    return gen.rand_value(r, STRING, 0)


def text_call(r, sv, src=None):
    """(code, row): a string function applied to sv."""
    n = len(sv[1])

    def num():
        return i32(r.choice([0, 1, 2, 3, n, n - 1, n + 1, -n, -n - 1, -n + 1, -1, n // 2, -(n // 2), 2**31 - 1, -2**31, 2**30, r.randrange(-4, n + 4)]))

    f = r.choice([33, 34, 35, 36, 36, 37, 37, 38, 40, 42, 44, 44, 44, 45, 46, 46, 46, 47])
    row = [sv]
    args = (var(STRING, 0) if r.random() < 0.5 else const(sv, r))
    if f == 33:
        row.append(text_value(r))
        args += var(STRING, 1) if r.random() < 0.5 else const(row[1], r)
    else:
        for _ in range({36: 1, 37: 1, 45: 1, 47: 1, 44: 2, 46: 2}.get(f, 0)):
            row.append(num())
            args += var(INT32, len(row) - 1) if r.random() < 0.5 else const(row[-1], r)
    return args + fun(f), row


# ---- systematic programs

SIZES = [1, 2, 3, 7, 8, 9, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300]
SMALL_ARG = [0, 1, 2, 3, -1, -2, 5, 100]
STR_ARGS = set(gen.STRINT + gen.STRINT2)


def value_for(r, o, i, null=0.0):
    """An operand for position i of operator o."""
    if r.random() < null:
        return gen.NULL
    code, types, _ = o
    t = types[i]
    if t == INT32 and i > 0 and code[0] == 0xF1:
        return i32(r.choice(SMALL_ARG))
    if code[0] in (0xF0, 0xFC) and r.random() < 0.5:
        return cast_value(r, t)
    if t == STRING and code[0] == 0xF1:
        return string(gen.rand_bytes(r, r.randrange(0, 9), b' aZ\t9'))
    if t == DOUBLE and code[0] == 0xF1:
        return gen.f64(r.choice([r.uniform(-1, 1), r.uniform(-9, 9), 0.5, 1.0, 2.5]))
    return gen.rand_value(r, t, 0)


def compose(r, a, b, pos, null=0.0, mix=0.3):
    """b applied to operands of which the one at pos is the result of a.  Returns (code, row)."""
    row = []

    def operand(o, i):
        v = value_for(r, o, i, null)
        row.append(v)
        return const(v, r) if v[0] and r.random() < mix else var(o[1][i], len(row) - 1)

    code = b''
    for i in range(len(b[1])):
        if i == pos:
            code += b''.join(operand(a, j) for j in range(len(a[1]))) + a[0]
        else:
            code += operand(b, i)
    return code + b[0], row


def pairs():
    return [(a, b, i) for a in gen.OPERATORS for b in gen.OPERATORS for i, t in enumerate(b[1]) if t == a[2]]


def all_pairs(s, n=None, null=0.0, want=lambda a, b: True):
    """Every operator on the result of every other one."""
    r = s.r
    s.pack([ev(*compose(r, a, b, i, null)) for a, b, i in sample(r, [p for p in pairs() if want(p[0], p[1])], n)], 'pair')


def same_twice(s, names, types, values):
    """A binary operator on one variable, twice; and on a variable and an equal constant."""
    evs = []
    for t in types:
        for n in names:
            if n == 'mod' and t not in (1, 2):
                continue
            for v in values(t):
                evs.append(ev(var(t, 0) + var(t, 0) + op(n, t), [v]))
                evs.append(ev(var(t, 0) + const(v) + op(n, t) + const(v) + var(t, 0) + op(n, t), [v]))
    s.pack(evs, 'self')


def special_constants(s, names, types, consts, values):
    """Operators on constants that invite short cuts."""
    r = s.r
    evs = []
    for t in types:
        cs, vs = consts(t), values(t)
        for n in names:
            if n == 'mod' and t not in (1, 2):
                continue
            for c in cs:
                v = r.choice(vs)
                evs.append(ev(var(t, 0) + const(c) + op(n, t) + const(c) + var(t, 0) + op(n, t), [v]))
    s.pack(evs, 'short')


def round_constants(s, names, types, n):
    """Operators on numbers that people write."""
    r = s.r
    nums = sorted({*range(1, 26), 28, 30, 31, 32, 36, 40, 48, 50, 52, 60, 64, 80, 90, 99, 100, 101, 120, 128, 144, 180, 200, 250, 255, 256, 300, 360, 365, 366, 400, 500, 512, 600, 640, 720, 750, 800, 900, 999, 1000, 1001, 1024,
                   1440, 2000, 2048, 2500, 3600, 4096, 5000, 7200, 8192, 9999, 10000, 16384, 32768, 43200, 50000, 65535, 65536, 86400, 99999, 100000, 604800, 10**6, 31536000, 10**7, 10**8, 10**9, 2**31 - 1})
    big = [10**10, 10**12, 10**15, 10**18, 86400000, 3600000, 10**9 + 7, 86400 * 10**6, 2**53]
    evs = []
    for t in types:
        for c in nums + (big if t != 1 else []):
            for _ in range(n * 3 if c in (3, 5, 7, 10, 60, 100, 255, 1000, 3600, 10000, 86400, 10**6) else n):
                k = r.choice([1, 1, -1])
                if t in (1, 2):
                    mk = {1: i32, 2: i64}[t]
                    w = 31 if t == 1 else 63
                    m = (2**w - 1) // c
                    v = mk(max(-2**w, min(2**w - 1, r.choice([1, -1]) * r.choice([r.randrange(m + 1) * c + r.choice([-1, 0, 1, c - 1]), r.randrange(2**w), 2**w - 1 - r.randrange(3), m * c + r.choice([-1, 0, 1]), r.randrange(4 * c + 1)]))))
                    cv = mk(k * c)
                else:
                    mk = {4: gen.f32, 5: gen.f64}[t]
                    x = r.choice([float(r.randrange(1, 1000)), r.random() * 10**r.randrange(-3, 6), r.random(), float(r.randrange(1, 10**6)) / 100])
                    v = mk(r.choice([1, -1]) * x)
                    k = r.choice([1, 1, 1, -1])
                    cv = mk(k * (float(c) if r.random() < 0.85 else 1.0 / c))
                names2 = [x for x in names if x != 'mod' or t in (1, 2)]
                for o in r.sample(names2, 2) + ['div'] if t in (1, 2) else ['div', r.choice(names2)]:
                    code = var(t, 0) + const(cv) + op(o, t)
                    evs.append(ev(code + (const(cv) + var(t, 0) + op(o, t) if r.random() < 0.3 else b''), [v]))
    s.pack(evs, 'round')


# columns of a wide tuple at which a narrower number of a column would be another column
FAR = [0, 1, 2, 127, 128, 255, 256, 257, 383, 16383, 16384, 16385, 32767, 32768, 32769, 33000, 65535, 65536, 65537, 65663, 65792]
WIDTH = 65800


def far_row(r, t, n=WIDTH, values=None):
    """A very wide tuple with values of their own at the places that matter."""
    mk = {INT32: i32, INT64: i64, STRING: lambda x: string(b'at %d' % x), DOUBLE: lambda x: gen.f64(x / 2.0)}[t]
    row = [gen.NULL] * n
    for k, i in enumerate(FAR):
        if i < n:
            row[i] = mk(values[k] if values else 7 * k + r.randrange(7))
    return row


EDGE = {1: [i32(x) for x in gen.I32_EDGE], 2: [i64(x) for x in gen.I64_EDGE], 3: [gen.boolean(False), gen.boolean(True)], 4: [gen.f32bits(x) for x in gen.F32_EDGE],
        5: [gen.f64bits(x) for x in gen.F64_EDGE], 7: [string(x) for x in gen.TEXTS]}


def powers(t):
    """Constants around the powers of two."""
    if t in (1, 2):
        w, mk = (32, i32) if t == 1 else (64, i64)
        return [mk(g * (1 << k) + d) for k in range(w) for g in (1, -1) for d in ((0,) if k > 3 else (0, 1))]
    mb, bias, mk = (23, 127, gen.f32bits) if t == 4 else (52, 1023, gen.f64bits)
    top = 255 if t == 4 else 2047
    es = sorted({0, 1, 2, mb, bias - mb - 1, bias - mb, bias - 2, bias - 1, bias, bias + 1, bias + 2, bias + mb, bias + mb + 1, top - 1, top})
    return [mk((g << (31 if t == 4 else 63)) | e << mb) for e in es for g in (0, 1)]


def deep_stack(s, sizes):
    """Many operands at the same time, variables and constants mixed, folded from the right."""
    r = s.r
    for n in sizes:
        for t in (INT32, INT64, DOUBLE, STRING):
            row = [gen.rand_value(r, t, 0) if t != STRING else string(b'%d' % i) for i in range(min(n, 40))]
            code = b''
            for i in range(n):
                j = r.randrange(len(row))
                code += var(t, j, r) if r.random() < 0.6 else const(row[j], r)
            names = ['add'] if t == STRING else ['sub', 'sub', 'min', 'max', 'add']
            fold = b''.join(op(r.choice(names), t) for _ in range(n - 1))
            other = var(t, 0)
            s.add([ev(code + fold, row), ev(code + fold[:2 * (n // 2)] + other + op(names[0], t), row), ev(code, row)], 'stack')


# ---- expressions: C01 - C15

def base_programs(r, n):
    out = []
    for _ in range(n):
        c = gen.Ctx(r, gen.rand_cols(r, 3), long=True)
        out.append(b''.join(gen.expr(c, r.choice(TYPES), r.randrange(1, 4)) for _ in range(r.choice([1, 1, 2]))))
    return out


def plan_codes(r, n):
    return [gen.PlanGen(r, gen.rand_cols(r, r.randrange(1, 5))).code for _ in range(n)]


OPCODES = [0x00, 0x01, 0x07, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x21, 0x22, 0x31, 0x32, 0x37, 0x51, 0x52, 0x53] + list(OP.values()) + [0xF0, 0xF1, 0xFC, 0xFF, 0x80]
TWOBYTE = set(list(OP.values()) + [0xF0, 0xF1, 0xFC])
PLANBYTES = [0x71, 0x72, 0x73, 0x61, 0x74, 0x00, 0x01, 0x02, 0x10, 0x11, 0x12, 0x21, 0x22, 0x31, 0x41, 0x37, 0x80, 0xFF, 0x13]
HUGE = [varint(2**31 - 1), varint(2**31), varint(2**32 - 1), varint(2**32 + 5), varint(2**63 - 1), varint(2**64 - 1), b'\x80' * 5 + b'\x01', b'\x80' * 9 + b'\x01', b'\xff' * 9 + b'\x7f',
        b'\x80' * 12, b'\xff' * 3, varint(200), varint(70000), varint(2**20), b'\x80' * 30 + b'\x00', b'\x80' * 20 + b'\x05', varint(2**61 + 1), varint(2**62 + 2), varint(2**30)]


def mutate(r, code, alphabet):
    b = bytearray(code)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        i = r.randrange(len(b) + 1)
        if k < 0.3 and b:
            b[i % len(b)] = r.choice(alphabet) if r.random() < 0.6 else r.randrange(256)
        elif k < 0.45 and b:
            del b[i % len(b)]
        elif k < 0.6:
            b[i:i] = bytes([r.choice(alphabet)])
        elif k < 0.75:
            b[i:i] = r.choice(HUGE)
        elif k < 0.9:
            del b[i:]
        else:
            b[i:i] = gen.rand_bytes(r, r.randrange(1, 4))
    return bytes(b)


def bad_codes(r, n, bases, alphabet):
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.2:
            out.append(gen.rand_bytes(r, r.randrange(0, 20), alphabet))
        elif k < 0.3:
            out.append(gen.rand_bytes(r, r.randrange(0, 30)))
        elif k < 0.45:
            b = r.choice(bases)
            out.append(b[:r.randrange(len(b) + 1)])
        elif k < 0.55:
            out.append(gen.rand_bytes(r, r.randrange(0, 3), alphabet) + r.choice(HUGE) + gen.rand_bytes(r, r.randrange(0, 5)))
        else:
            out.append(mutate(r, r.choice(bases), alphabet))
    return out


def c01(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    # expressions
    bases = base_programs(r, 60)
    bad = bad_codes(r, 5000 if q else 40000, bases, OPCODES)
    for b in bases[:20 if q else 60]:
        bad += [b[:i] for i in range(min(len(b), 80))]
    bad += [bytes([a]) + h for a in (0x11, 0x12, 0x17, 0x21, 0x22, 0x31, 0x32, 0x37) for h in HUGE]
    bad += [bytes([a]) + h + b'ab' for a in (0x17, 0x11) for h in HUGE]
    bad += [bytes([a, b]) for a in range(256) for b in (range(256) if not q or a in TWOBYTE else sample(r, range(256), 6))]
    bad += [bytes([a]) for a in range(256)]
    r.shuffle(bad)
    for i in range(0, len(bad), 12):
        cmds = ['xnew 1']
        for b in bad[i:i + 12]:
            cmds.append('xdec 1 ' + hexs(b))
        good = r.choice(bases)
        cols = gen.rand_cols(r, 3)
        c = gen.Ctx(r, cols)
        good = gen.expr(c, r.choice(TYPES), 3)
        cmds += ['xdec 1 ' + hexs(good), 'tset 1 ' + show_row(gen.rand_row(r, cols)), 'xbind 1 1', 'xrun 1', 'xall 1', 'xtype 1']
        if r.random() < 0.3:
            cmds += ['xdec 1 ' + hexs(r.choice(bad[i:i + 12]))]
        s.add(cmds + (['xdel 1'] if r.random() < 0.7 else []), 'x', end=True)
    # plans
    pbases = plan_codes(r, 60)
    bad = bad_codes(r, 5000 if q else 40000, pbases, PLANBYTES)
    for b in pbases[:20 if q else 60]:
        bad += [b[:i] for i in range(min(len(b), 80))]
    pre = [b'\x73\x61', b'\x74', b'\x73\x61\x01\x00', b'\x73\x61\x01', b'\x74\x01\x21', b'\x74\x02\x10', b'\x71\x17', b'\x72\x31', b'\x73\x61\x02\x01', b'\x73']
    bad += [p + h + t for p in pre for h in HUGE for t in (b'', b'\x10\x10')]
    bad += [p + h * 2 for p in pre for h in HUGE[:8]]
    r.shuffle(bad)
    for i in range(0, len(bad), 12):
        cols = [INT32, INT64]
        good = gen.PlanGen(r, cols).code
        pools = gen.row_pool(r, cols, 2)
        cmds = ['rnew 1']
        n = 0
        for b in bad[i:i + 12]:
            if r.random() < 0.1:
                cmds.append('rdec 1 ' + hexs(good))
                for _ in range(3):
                    n += 1
                    cmds.append('rput 1 %d %s 0' % (n, show_row(gen.pick_row(r, pools))))
            cmds.append('rdec 1 ' + hexs(b))
        cmds.append('rdec 1 ' + hexs(good))
        for _ in range(4):
            n += 1
            cmds.append('rput 1 %d %s 0' % (n, show_row(gen.pick_row(r, pools))))
        cmds += ['rget 1 0'] * 3
        if r.random() < 0.3:
            cmds.append('rdec 1 ' + hexs(r.choice(bad[i:i + 12])))
        s.add(cmds + (['rdel 1'] if r.random() < 0.7 else []), 'p', end=True)
    immediates(s, 600 if q else 8000, bad=0.6)
    # every number of bytes that is left over after a code that is not known
    sizes = [*range(1, 300), *(b + k for b in (512, 1024, 2048, 4096, 8192, 16384, 32768, 65536) for k in (-1, 0, 1))]
    for i in range(0, len(sizes), 25):
        for w in 'xr':
            junk = [c for c in range(256) if c >> 4 in (6, 7, 10, 12, 13, 14)] if w == 'x' else [0x77, 0x70, 0x7f, 0x00, 0xff, 0x80]
            cmds = [w + 'new 1']
            for n in sizes[i:i + 25]:
                j = bytes([r.choice(junk)])
                cmds.append(w + 'dec 1 ' + hexs(r.choice([j * n, j + b'\xff' * (n - 1), b'\x13\x00'[:1 if w == 'x' else 0] + j * n, (b'\x11\x05' if w == 'x' else b'\x71\x13\x00') + j * n])))
            s.add(cmds + [w + 'del 1'], 'left', end=True)
    # long codes
    for n in ([3000] if q else [3000, 20000, 60000]):
        s.add(['xnew 1', 'xdec 1 ' + hexs(b'\x17' + varint(n) + gen.rand_bytes(r, n)), 'xdec 1 ' + hexs(b'\x17' + varint(n + 1) + gen.rand_bytes(r, n)),
               'xdec 1 ' + hexs(b'\x11\x01' * (n // 4) + b'\x17'), 'xdec 1 ' + hexs(b'\x80' * n), 'xdec 1 ' + hexs(b'\x11' + b'\x80' * n),
               'xdec 1 ' + hexs(gen.rand_bytes(r, n)), 'xdel 1'], 'long', end=True)
        s.add(['rnew 1', 'rdec 1 ' + hexs(b'\x74' + varint(n) + b'\x10' * n), 'rdec 1 ' + hexs(b'\x74' + varint(n + 1) + b'\x10' * n),
               'rdec 1 ' + hexs(b'\x73\x61' + varint(n) + b'\x05' * n), 'rdec 1 ' + hexs(b'\x73\x61' + varint(n) + b'\x05' * n + b'\x00'),
               'rdec 1 ' + hexs(b'\x71\x13\x00' * (n // 3) + b'\x05'), 'rdec 1 ' + hexs(gen.rand_bytes(r, n)), 'rdel 1'], 'long', end=True)


def c01_deep(s, tier, cases):
    """Long plans on a small stack."""
    n = 12000
    for op1 in (b'\x71\x13\x00', b'\x72\x35\x00\x00', b'\x74\x01\x10\x00', b'\x73\x61\x01\x00\x01\x10\x00'):
        m = n if op1[0] in (0x71, 0x72) else n // 3
        code = op1 * m
        s.add(['rnew 1', 'rdec 1 ' + hexs(code), 'rdec 1 ' + hexs(code + b'\x05'), 'rdec 1 ' + hexs(code[:-1]), 'rdel 1'], 'chain', end=True)


def r04_deep(s, tier, cases):
    """Rows through long plans on a small stack."""
    for n in (3000,) if tier == 'quick' else (3000, 12000):
        keep = b'\x71\x13\x00' * n
        proj = b'\x72\x31\x00\x00' * n
        for code in (keep, proj, keep[:n] + proj + keep[:n], proj + b'\x71\x23\x00', gen.enc_gagg([0], [('count_all',)]) + keep,
                     keep + gen.enc_agg_op([('sum', 1, 0)])):
            s.add(['rnew 1', 'rdec 1 ' + hexs(code)] + ['rput 1 %d 1:%02x000000 0' % (k, k % 3) for k in range(1, 5)] + ['rget 1 0'] * 5 + ['rdel 1'], 'chain')


def c02(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    grid(s, cases, {'codes'}, 22000 if q else None)
    # where decoding stops
    bases = base_programs(r, 150 if q else 1500)
    cmds = []
    for b in bases:
        for tail in (b'\0', b'\0\0', b'\0' + r.choice(bases)[:9], b'\0' + gen.rand_bytes(r, 3), b''):
            cmds.append('xdec 1 ' + hexs(b + tail))
    z = [b'\x17\x03\0\0\0', b'\x11\x00', b'\x12\x80\x00', b'\x14\0\0\0\0', b'\x15' + b'\0' * 8, b'\x31\x00', b'\x21\x00', b'\x17\x00', b'\x17\x01\x00', b'\x37\x80\x00',
         b'\x14\x3f\x80\0\0', b'\x15\x3f\xf0' + b'\0' * 6]
    for _ in range(1000 if q else 8000):
        k = [r.choice(z) for _ in range(r.randrange(1, 4))]
        cmds.append('xdec 1 ' + hexs(b''.join(k) + r.choice([b'', b'\0', b'\0\x11\x01', b'\0\0'])))
    # an operator behind another one, up to the end
    ones = [b for b, _, _ in gen.OPERATORS] + [bytes([t]) for t in TYPES] + [b'\x13', b'\x23', b'\x11\x05', b'\x12\x05', b'\x21\x05', b'\x14\x3f\x80\0\0', b'\x15' + b'\1' * 8, b'\x17\x01a', b'\x31\x00', b'\x37\x01']
    cmds += ['xdec 1 ' + hexs(a + b) for a, b in sample(r, [(a, b) for a in ones for b in ones], 9000 if q else None)]
    short = [a for a in ones if len(a) == 1 or a[0] < 0x80] + sample(r, ones, 12 if q else 250)
    cmds += ['xdec 1 ' + hexs(a + bytes([b])) for a in short for b in range(256)]
    cmds += ['xdec 1 ' + hexs(a + bytes([b, c])) for a in ones for b, c in ((0, 0), (0, 3), (r.choice(OPCODES), 0), (r.choice(OPCODES), r.choice(OPCODES)))]
    # every second byte of every operator
    cmds += ['xdec 1 ' + hexs(bytes([a, b])) for a in range(256) for b in (range(256) if not q or a in TWOBYTE else sample(r, range(256), 4))]
    for t in range(0, 16):
        for h in range(0, 8):
            for tail in (b'', b'\x01', b'\x05\x01\x02\x03\x04\x05\x06\x07\x08\x09'):
                cmds.append('xdec 1 ' + hexs(b'\x11\x01' + bytes([h * 16 + t]) + tail))
    for n in [100, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 65535, 65536, 70000]:
        b = gen.rand_bytes(r, n)
        for c in (b'\x17' + varint(n) + b, b'\x17' + varint(n, 2) + b):
            cmds += ['xdec 1 ' + hexs(c + t) for t in (b'', b'\0', b'\x13\0\x11', b'\x99')]
    for n in [50, 127, 128, 129, 255, 256, 257, 1000]:
        cmds += ['xdec 1 ' + hexs(b'\x11\x01' * n + t) for t in (b'', b'\0', b'\0\x11', b'\x11', b'\x99')]
    r.shuffle(cmds)
    for i in range(0, len(cmds), 25):
        s.add(['xnew 1'] + cmds[i:i + 25], 'x')
    # ... and what was decoded is seen in what it leaves
    evs = []
    tails = [bytes([t]) for t in TYPES] + [b'\x13', b'\x23', b'\x11\x03', b'\x21\x05', b'\x17\x00', b'\x17\x01\x03', b'\x12\x01', b'\x00', b'\x00\x01']
    for o in gen.OPERATORS:
        for t in tails:
            evs.append(ev(b''.join(const(gen.rand_value(r, u, 0)) for u in o[1]) + o[0] + t))
            evs.append(ev(b'\x11\x09' + b''.join(bytes([u]) for u in o[1]) + o[0] + t + t))
    s.pack(evs, 'left')
    # plans
    aggs = [bytes([a, 0]) if a != 0x10 else b'\x10' for a in range(256)]
    cmds = ['rdec 1 ' + hexs(b'\x74\x01' + a + e) for a in aggs for e in (b'', b'\0')]
    cmds += ['rdec 1 ' + hexs(b'\x73\x61\x01\x00\x01' + a + e) for a in aggs for e in (b'',)]
    cmds += ['rdec 1 ' + hexs(bytes([a]) + t) for a in range(256) for t in (b'', b'\x13\x00', b'\x61\x00\x00', b'\x00')]
    cmds += ['rdec 1 ' + hexs(b'\x73' + bytes([a]) + b'\x01\x00\x01\x10') for a in range(256)]
    for _ in range(1500 if q else 15000):
        parts = [gen.PlanGen(r, [INT32, INT64], n=1).code for _ in range(r.randrange(1, 4))]
        j = r.randrange(len(parts))
        if r.random() < 0.3:
            parts[j] += b'\0'
        if r.random() < 0.2:
            parts[j] = parts[j][:-1]
        cmds.append('rdec 1 ' + hexs(b''.join(parts)))
    r.shuffle(cmds)
    for i in range(0, len(cmds), 25):
        s.add(['rnew 1'] + cmds[i:i + 25], 'p')
    # framing shows in what a plan does, too
    relational(s, 60 if q else 600, n=(2, 4), rows=5)


IMMEDIATES = {'i': INT32, 'u': INT32, 'l': INT64, 'll': INT64, 'ul': INT64, 'ull': INT64, 'f': FLOAT, 'd': DOUBLE, 's': STRING}


def immediate(r, t, long=False):
    """An encoded immediate of C++ type t."""
    v = gen.rand_value(r, IMMEDIATES[t], 0, long)
    if t == 'f' or t == 'd':
        return v[1][::-1]
    if t == 's':
        return varint(len(v[1]), r.choice([0, 0, 0, 1, 2])) + v[1]
    n = int.from_bytes(v[1], 'little')
    if r.random() < 0.2:
        n |= r.getrandbits(70) >> 32 << 64
    return varint(n, r.choice([0, 0, 0, 0, 1, 2, 5]))


def immediates(s, n, bad=0.2):
    """The functions below the decoders, called directly."""
    r = s.r
    out = []
    for _ in range(n):
        t = r.choice(list(IMMEDIATES))
        k = r.random()
        if k < 0.5:
            c = immediate(r, t, True)
            tail = r.choice([b'', b'', b'\0', b'\x80', gen.rand_bytes(r, 3)])
            if r.random() < bad:
                cut = r.randrange(len(c))
                out.append('cval %s %s 1' % (t, hexs(c[:cut])))
            else:
                out.append('cval %s %s %d' % (t, hexs(c + tail), r.randrange(2)))
        else:
            m = r.choice([0, 1, 1, 2, 3, 5, 20, 127, 128, 200])
            c = b''.join(immediate(r, t) for _ in range(m))
            count = m
            if r.random() < bad:
                count = r.choice([m + 1, m + 2, m - 1 if m else 0, 2 * m, 1 << 32, (1 << 32) + m, 1 << 63, (1 << 64) - 1, 1 << 20])
            c = varint(count, r.choice([0, 0, 1, 3])) + c
            if r.random() < bad:
                c = c[:r.randrange(len(c) + 1)]
            elif r.random() < 0.3:
                c += gen.rand_bytes(r, r.randrange(1, 4))
            out.append('%s %s %s' % (r.choice(['carr', 'cvec']), t, hexs(c)))
    s.pack(out, 'direct')


def c03(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    immediates(s, 1500 if q else 20000)
    evs = []
    edge = {1: [i32(x) for x in gen.I32_EDGE], 2: [i64(x) for x in gen.I64_EDGE], 4: [gen.f32bits(x) for x in gen.F32_EDGE],
            5: [gen.f64bits(x) for x in gen.F64_EDGE], 7: [string(x) for x in gen.TEXTS], 3: [gen.boolean(False), gen.boolean(True)]}
    for t in TYPES:
        for v in edge[t]:
            for _ in range(3):
                evs.append(ev(const(v, r)))
    for w, h in ((32, 1), (64, 2)):
        for k in range(1, 13):
            # every number of groups, with every kind of last group
            for last in (0, 1, 7, 8, 0x0f, 0x10, 0x3f, 0x40, 0x7e, 0x7f):
                for mid in (0x80, 0xff, 0x80 | r.randrange(128)):
                    g = bytes([mid] * (k - 1) + [last])
                    for c in (0x10, 0x20):
                        evs.append(ev(bytes([c + h]) + g))
        for _ in range(400 if q else 4000):
            n = r.getrandbits(r.randrange(1, w + 1))
            evs.append(ev(bytes([r.choice([0x10, 0x20]) + h]) + varint(n, r.choice([0, 0, 1, 2, 5]))))
    for _ in range(600 if q else 6000):
        k = r.choice([1, 2, 3, 8])
        evs.append(ev(b''.join(const(gen.rand_value(r, r.choice(TYPES), 0, True), r) for _ in range(k)) + r.choice([b'', b'\0', b'\0\x11'])))
    for n in [0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 300, 1000, 4095, 4096, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 70000] + ([] if q else [32767, 2**17, 2**18, 2**20]):
        b = gen.rand_bytes(r, n)
        evs.append(ev(const(string(b)) + const(i32(7))))
        evs.append(ev(b'\x17' + varint(n, 1) + b + b'\x13'))
    s.pack(evs, 'imm', 15)
    # variables: wide tuples
    for n in [1, 2, 64, 127, 128, 129, 130, 200, 255, 256, 257, 300, 1000, 16385] + ([] if q else [16383, 16384, 20000, 32769, 65537, 70000]):
        row = [i32(10 * i + 3) if i % 3 else string(b'%d' % i) for i in range(n)]
        idx = sorted({0, n - 1, n // 2, max(0, n - 2), min(n - 1, 127), min(n - 1, 128), min(n - 1, 255), min(n - 1, 256)} | {r.randrange(n) for _ in range(4)})
        code = b''.join(var(row[i][0], i, r) for i in idx)
        s.add([ev(code, row)], 'wide')
    for t in (INT32, STRING):
        s.add([ev(b''.join(var(t, i, r) for i in FAR + r.sample(range(WIDTH), 5)), far_row(r, t))], 'far')
    for _ in range(150 if q else 1500):
        cols = gen.rand_cols(r, r.randrange(1, 12))
        row = gen.rand_row(r, cols, 0.1, True)
        idx = [r.randrange(len(cols)) for _ in range(r.randrange(1, 10))]
        s.add([ev(b''.join(var(cols[i], i, r) if r.random() < 0.8 else const(gen.rand_value(r, r.choice(TYPES), 0), r) for i in idx), row)], 'vars')


def c04(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    programs(s, 1500 if q else 12000, (1, 6), rows=2)
    programs(s, 60 if q else 600, (6, 9), rows=1, several=False)
    # non-commutative chains, left and right leaning
    for _ in range(200 if q else 2000):
        t = r.choice(NUMERIC)
        n = r.randrange(2, 12)
        names = ['sub', 'div'] + (['mod'] if t in (1, 2) else [])
        row = [gen.rand_value(r, t, 0.05) for _ in range(n)]
        left = var(t, 0) + b''.join(var(t, i) + op(r.choice(names), t) for i in range(1, n))
        right = b''.join(var(t, i) for i in range(n)) + b''.join(op(r.choice(names), t) for _ in range(n - 1))
        srow = [string(b'%d' % i) for i in range(n)]
        cat = b''.join(var(7, i) for i in range(n)) + op('add', 7) * (n - 1)
        s.add([ev(left + right, row), ev(cat, srow), ev(left + left + right, row)], 'chain')
    # big stacks and long programs
    for n in [100, 500, 513, 1100] + ([] if q else [3000, 8000]):
        k = [const(i32(r.randrange(-1000, 1000)), r) for _ in range(n)]
        s.add([ev(b''.join(k) + op('sub', 1) * (n - 1)), ev(b''.join(k)), ev(k[0] + b''.join(x + op(r.choice(['sub', 'add', 'mul']), 1) for x in k[1:])),
               ev(b''.join(k) + op('sub', 1) * (n // 2))], 'deep')
    # every number of operators, and around the numbers that a counter or a block may have
    sizes = sorted({*range(1, 140), *(b + k for b in [192, 256, 320, 384, 512, 640, 768, 1024, 1536, 2048, 4096] + ([] if q else [8192, 16384, 32768]) for k in (-1, 0, 1))})
    for i in range(0, len(sizes), 12):
        evs = []
        for n in sizes[i:i + 12]:
            t = r.choice(NUMERIC)
            v = gen.rand_value(r, t, 0)
            evs.append(ev((var(t, 0) if r.random() < 0.5 else const(v)) + op('neg', t) * (n - 1), [v]))
            if n > 1:
                evs.append(ev(const(i32(n)) + op('is_null', 1) + b'\x51' * (n - 2)))
            if n < 1100:
                evs.append(ev(bytes([r.choice([1, 2, 7])]) * (n - 1) + const(i32(n))))
        s.add(evs, 'count')
    for n in [16385, 65537] if q else [16384, 16385, 32769, 65536, 65537, 65538, 131073]:
        s.add([ev(const(i32(5)) + op('is_null', 1) + b'\x51' * (n - 2))], 'count')
    for n in [16385, 33000] if q else [16385, 33000, 66000]:
        s.add([ev(b'\x01' * (n - 2) + const(i32(1)) + const(string(b'end')))], 'count')
    all_pairs(s)
    deep_stack(s, [5, 9, 17, 33, 65, 129, 257, 520] + ([] if q else [1030, 2050, 4100]))
    # few values, at every depth
    for _ in range(150 if q else 1500):
        t = r.choice([INT32, INT64, DOUBLE, STRING])
        row = [gen.rand_value(r, t, r.choice([0.05, 0.05, 0.5])) for _ in range(r.choice([2, 2, 3]))]
        n = r.choice([r.randrange(1, 40), r.choice(SIZES)])
        code = b''
        for _ in range(n):
            v = r.randrange(len(row))
            code += var(t, v) if r.random() < 0.8 or not row[v][0] else const(row[v])
            if r.random() < 0.15:
                code += op('is_null', t)
        s.add([ev(code, row), ev(code + op(r.choice(['eq', 'ne', 'lt']), t) , row)], 'few')
    # a conversion of a type to itself does nothing, whatever it is applied to
    evs = []
    for d in range(1, 7 + 1):
        for t in TYPES:
            v = gen.rand_value(r, t, 0)
            c = bytes([r.choice([0xF0, 0xFC]), d * 16 + d])
            evs += [ev(const(v) + c), ev(var(t, 0) + c + var(t, 0) + op('eq', t), [v]), ev(null_const(t) + c), ev(const(v) + const(v) + c * 3)]
            o = r.choice(gen.OPERATORS)
            code, row = compose(r, o, r.choice([x for x in gen.OPERATORS if o[2] in x[1][:1]]), 0)
            evs += [ev(code + c, row), ev(c + code, row)]
    s.pack(evs, 'itself')
    # right-leaning, with operators of several types in between
    for n in [8, 20, 33, 60, 100, 200] + ([] if q else [400, 1000]):
        row = [gen.rand_value(r, t, 0) for t in TYPES]
        # pushed one by one, taken from the top: the comparisons make them all of one type
        types = [r.choice([1, 2, 4, 5, 7]) for _ in range(n)]
        code = b''.join(var(t, TYPES.index(t)) if r.random() < 0.6 else const(gen.rand_value(r, t, 0), r) for t in types)
        acc = types[-1]
        fold = b''
        for t in reversed(types[:-1]):
            if acc != t:
                fold += (cast(7, acc) + fun(34) + cast(7, 7) if t == 7 else cast(t, acc)) if acc != 7 else b''
                if acc == 7:
                    fold += cast(7, 7) + const(i32(0)) + const(i32(0)) + fun(44) + cast(t, 7)
            acc = t
            fold += op(r.choice(['add'] if t == 7 else ['sub', 'max', 'min']), t)
        s.add([ev(code + fold, row)], 'lean')
    # the declared type
    grid(s, cases, {'cast', 'checked', 'math', 'logic'}, 900 if q else None)
    grid(s, cases, {'int', 'float', 'order', 'text'}, 1500 if q else 20000)


def junk_program(r):
    """Operators in any order on few operands: mostly ill-typed or short of operands."""
    out = []
    for _ in range(r.randrange(1, 12)):
        k = r.random()
        if k < 0.5:
            out.append(const(gen.rand_value(r, r.choice(TYPES), 0.1), r))
        elif k < 0.75:
            out.append(op(r.choice(list(OP)), r.choice([1, 2, 3, 4, 5, 7])))
        elif k < 0.85:
            out.append(bytes([r.choice([0x51, 0x52, 0x53])]))
        elif k < 0.93:
            out.append(cast(*r.choice(CASTS), r.random() < 0.5))
        else:
            out.append(fun(r.choice(FUNS)))
    return b''.join(out)


def c05(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    grid(s, cases, {'mixed'}, 7000 if q else None)
    grid(s, cases, {'logic', 'checked', 'cast', 'math'}, None)
    grid(s, cases, {'int'}, 1500 if q else None)
    grid(s, cases, {'text', 'float'}, 2000 if q else None)
    s.pack([ev(junk_program(r)) for _ in range(6000 if q else 80000)], 'junk')
    # operands missing
    evs = []
    for name, c in list(OP.items()) + [('cast', 0xF0), ('castc', 0xFC), ('fun', 0xF1)]:
        for t in (TYPES if name in OP else FUNS if name == 'fun' else [d * 16 + x for d, x in CASTS]):
            evs += [ev(bytes([c, t])), ev(b'\x11\x05' + bytes([c, t])), ev(b'\x17\x01a' + bytes([c, t])), ev(b'\x17\x01a\x11\x01' + bytes([c, t])), ev(b'\x01' + bytes([c, t])),
                    ev(b'\x01\x01' + bytes([c, t]))]
    for c in (0x51, 0x52, 0x53):
        evs += [ev(bytes([c])), ev(b'\x13' + bytes([c])), ev(b'\x23' + bytes([c])), ev(b'\x03' + bytes([c]))]
    s.pack(evs, 'short')
    # an operator on the result of another type; too few operands behind something that worked
    O = gen.OPERATORS
    wrong = [(a, b, i) for a in O for b in O for i, t in enumerate(b[1]) if t != a[2]]
    s.pack([ev(*compose(r, a, b, i, 0.05)) for a, b, i in sample(r, wrong, 4000 if q else None)], 'wrong')
    for _ in range(400 if q else 4000):
        a, b = r.choice(O), r.choice(O)
        code, row = compose(r, r.choice(O), a, 0, 0.05)
        bad = const(value_for(r, b, 0), r) * r.randrange(0, len(b[1])) + b[0]
        cmds = ['xnew 1', 'xdec 1 ' + hexs(code), 'tset 1 ' + show_row(row), 'xbind 1 1', 'xrun 1', 'xall 1', 'xdec 1 ' + hexs(bad), 'xrun 1', 'xall 1', 'xrun 1', 'xdec 1 ' + hexs(code + bad * 2), 'xrun 1', 'xrun 1',
                'xdec 1 ' + hexs(code), 'xrun 1', 'xall 1']
        s.add(cmds, 'left')
    # the same runner after a failure
    for _ in range(250 if q else 2500):
        cols = gen.rand_cols(r, r.randrange(2, 6))
        wrong = [r.choice(TYPES) if r.random() < 0.4 else t for t in cols]
        c = gen.Ctx(r, cols)
        code = b''.join(gen.expr(c, r.choice(TYPES), r.randrange(1, 4)) for _ in range(r.choice([1, 2, 3])))
        cmds = ['xnew 1', 'xdec 1 ' + hexs(code), 'tset 1 ' + show_row(gen.rand_row(r, cols)), 'xbind 1 1']
        for _ in range(8):
            cmds += ['tset 1 ' + show_row(gen.rand_row(r, wrong if r.random() < 0.5 else cols, 0.1)), 'xrun 1', r.choice(['xall 1', 'xget 1'])]
        s.add(cmds, 'again')
    for _ in range(6 if q else 60):
        row = [i64(2**40), string(b'99999999999'), i32(5)]
        bad = r.choice([var(2, 0) + cast(1, 2, True), var(7, 1) + cast(1, 7), var(1, 2) + op('neg', 2), op('neg', 1), var(1, 2) * 9 + var(7, 1) + op('add', 1)])
        s.add(['xnew 1', 'xdec 1 ' + hexs(var(1, 2) + bad), 'tset 1 ' + show_row(row), 'xbind 1 1', 'xrep 1 %d' % r.choice([300, 1100, 5000])] +
              ['xdec 1 ' + hexs(var(7, 1) + var(1, 2) + const(i32(3)) + op('sub', 1)), 'xrep 1 300', 'xall 1'], 'fails')
    # a program that leaves many results, then one that takes more operands than it has
    for n in [1, 2, 3, 8, 16, 32, 33, 64, 65, 70, 100, 128, 256, 257, 513] + ([] if q else [1024, 2000]):
        for k in (0, 1, 7, n // 2, n):
            t = r.choice([INT32, STRING])
            take = r.choice([op('add', t) * k, fun(0x21) * k if t == STRING else op('max', t) * k])
            short = var(t, 0) + const(i32(1) if t == INT32 else string(b's')) + take + r.choice([op('add', t) * 2, op('lt', t) + op('lt', t), b'\x51\x52' if k else op('eq', t) + b'\x51\x52'])
            row = [i32(n) if t == INT32 else string(b'row')]
            s.add(['xnew 1', 'tset 1 ' + show_row(row), 'xbind 1 1', 'xdec 1 ' + hexs((var(t, 0) + b'\x03') * (n // 2) + const(row[0]) * (n % 2)), 'xrun 1', 'xget 1', 'xdec 1 ' + hexs(short), 'xrun 1', 'xrun 1', 'xget 1',
                   'xdec 1 ' + hexs(var(t, 0) * n + op('add', t) * (n - 1)), 'xrun 1', 'xall 1', 'xdec 1 ' + hexs(op('neg', 1)), 'xrun 1', 'xrun 1'], 'kept')
    for _ in range(150 if q else 1500):
        cmds = ['xnew 1']
        for _ in range(5):
            cmds += ['xdec 1 ' + hexs(junk_program(r)), 'xrun 1', 'xall 1', 'xrun 1', 'xget 1']
        s.add(cmds, 'junkx')


def c06(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    hasnull = lambda c: any(v[0] == 0 for v in c['row']) or any(b in c['code'][:-2] for b in (1, 2, 3, 4, 5, 7))
    grid(s, cases, {'mixed', 'cast', 'checked', 'math', 'text', 'order', 'int', 'float'}, 12000 if q else None, hasnull)
    binary(s, 2500 if q else 25000, ['div', 'mod', 'div', 'mod', 'add', 'sub', 'mul', 'min', 'max'] + REL, NUMERIC,
           lambda r, t: (lambda a, b: (a, b if r.random() < 0.6 else (t, b'\0' * len(b[1]) if t in (1, 2) or r.random() < 0.5 else b'\0' * (len(b[1]) - 1) + b'\x80')))(*int_pair(r, t) if t < 3 else float_pair(r, t)), null=0.2)
    all_pairs(s, 4000 if q else None, 0.35)
    evs = []
    for o in gen.OPERATORS:          # every operator, every operand
        for k in range(1, 1 << len(o[1])):
            for form in range(2):
                row = [gen.NULL if k >> i & 1 else value_for(r, o, i) for i in range(len(o[1]))]
                evs.append(ev(b''.join(var(t, i) if form or row[i][0] else null_const(t) for i, t in enumerate(o[1])) + o[0], row))
    s.pack(evs, 'nulls')
    programs(s, 500 if q else 5000, (1, 4), null=0.45, cnull=0.4, rows=4)


def logic_program(c, d):
    r = c.r
    if d <= 0:
        k = r.random()
        if k < 0.5 and c.by[BOOL]:
            return var(BOOL, r.choice(c.by[BOOL]))
        if k < 0.7:
            return r.choice([b'\x13', b'\x23', b'\x03'])
        t = r.choice([x for x in c.cols])
        return var(t, r.choice(c.by[t])) + op(r.choice(['is_null', 'is_true', 'is_false']), t)
    k = r.random()
    if k < 0.75:
        return logic_program(c, d - r.choice([1, 1, 2])) + logic_program(c, d - r.choice([1, 1, 2])) + bytes([r.choice([0x52, 0x53])])
    if k < 0.9:
        return logic_program(c, d - 1) + b'\x51'
    return logic_program(c, d - 1) + op(r.choice(['is_null', 'is_true', 'is_false']), BOOL)


def c07(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    grid(s, cases, {'logic'}, None)
    V = [b'\x13', b'\x23', b'\x03']
    evs = []
    for a in V:
        for b in V:
            for o in (0x52, 0x53):
                e = a + b + bytes([o])
                evs += [ev(e), ev(e + b'\x51')] + [ev(e + c + bytes([o2])) for c in V for o2 in (0x52, 0x53)] + [ev(c + e + bytes([o2])) for c in V for o2 in (0x52, 0x53)]
                for n in ('is_null', 'is_true', 'is_false'):
                    evs += [ev(e + op(n, 3))]
    s.pack(evs, 'kleene')
    for _ in range(900 if q else 9000):
        cols = [BOOL, BOOL, BOOL, r.choice(TYPES), r.choice(TYPES)]
        c = gen.Ctx(r, cols)
        code = b''.join(logic_program(c, r.randrange(1, 6)) for _ in range(r.choice([1, 2])))
        s.add([ev(code, gen.rand_row(r, cols, 0.33)) for _ in range(4)], 'logic')
    unary(s, 1200 if q else 12000, lambda r: (lambda t: (op(r.choice(['is_null', 'is_true', 'is_false']), t), t))(r.choice(TYPES)),
          lambda r, t: r.choice([gen.rand_value(r, t, 0.2), cast_value(r, t), (t, b'\0' * max(0, (0, 4, 8, 1, 4, 8, 0, 0)[t]))]))


def c08(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    grid(s, cases, {'int'}, None)
    binary(s, 9000 if q else 120000, ['add', 'sub', 'mul', 'div', 'mod', 'mul', 'div', 'mod'], [1, 2], int_pair)
    unary(s, 1500 if q else 15000, lambda r: (lambda t: (op(r.choice(['neg', 'abs', 'pos', 'abs', 'neg']), t), t))(r.choice([1, 2])), lambda r, t: int_pair(r, t)[r.randrange(2)])
    ar = ['add', 'sub', 'mul', 'div', 'mod', 'min', 'max']
    same_twice(s, ar, [1, 2], lambda t: EDGE[t])
    special_constants(s, ['add', 'sub', 'mul', 'div', 'mod'], [1, 2], powers, lambda t: EDGE[t])
    round_constants(s, ['add', 'sub', 'mul', 'mod', 'mod', 'mul'], [1, 2], 5 if q else 30)
    isint = lambda o: set(o[1] + (o[2],)) <= {1, 2} and o[0][0] not in (0xFC,)
    for _ in range(2 if q else 20):
        all_pairs(s, None, 0.02, lambda a, b: isint(a) and isint(b))
    programs(s, 300 if q else 3000, (2, 5), [1, 2], rows=3, null=0.02, cnull=0.01, cols=lambda r: [1, 1, 2, 2])


def c09(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    grid(s, cases, {'float'}, 4000 if q else None)
    binary(s, 9000 if q else 120000, ['add', 'sub', 'mul', 'div', 'add', 'sub', 'mul', 'div'], [4, 5], float_pair)
    unary(s, 800 if q else 8000, lambda r: (lambda t: (op(r.choice(['neg', 'abs', 'pos', 'abs_c']), t), t))(r.choice([4, 5])), lambda r, t: float_pair(r, t)[r.randrange(2)])
    same_twice(s, ['add', 'sub', 'mul', 'div'], [4, 5], lambda t: EDGE[t] + powers(t))
    special_constants(s, ['add', 'sub', 'mul', 'div'], [4, 5], lambda t: EDGE[t] + powers(t), lambda t: EDGE[t])
    round_constants(s, ['add', 'sub', 'mul', 'mul'], [4, 5], 14 if q else 60)
    isfl = lambda o: set(o[1] + (o[2],)) <= {4, 5} and o[0][0] not in (0xF1, 0xFC)
    for _ in range(2 if q else 20):
        all_pairs(s, None, 0.02, lambda a, b: isfl(a) and isfl(b))
    programs(s, 300 if q else 3000, (2, 5), [4, 5], rows=3, null=0.02, cnull=0.01, cols=lambda r: [4, 4, 5, 5])


def c10(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    grid(s, cases, {'order'}, 9000 if q else None)
    binary(s, 9000 if q else 100000, REL + ['min', 'max', 'min', 'max'], TYPES, order_pair)
    same_twice(s, REL + ['min', 'max'], TYPES, lambda t: EDGE[t])
    # strings that differ at one place
    evs = []
    for n in SIZES + [1000, 4096] + ([] if q else [65535, 65536]):
        base = gen.rand_bytes(r, n, r.choice([b'\0', b'a', b'\xff', b'ab\0\xff']))
        for k in sorted({0, n - 1, n // 2, max(0, n - 8), max(0, n - 9), min(n - 1, 15), min(n - 1, 16)}):
            b = bytearray(base)
            b[k] = (b[k] + r.choice([1, 255, 128, 127])) % 256
            for x, y in ((base, bytes(b)), (bytes(b), base), (base, base[:k]), (base[:k], base)):
                evs.append(ev(b''.join(var(7, 0) + var(7, 1) + op(o, 7) for o in (REL if n < 400 else ['eq', r.choice(REL)])) + var(7, 1) + const(string(x)) + op(r.choice(['min', 'max']), 7), [string(x), string(y)]))
    s.pack(evs, 'place')
    # operands that were computed
    iso = lambda o: o[0][0] in range(0x91, 0x97) or o[0][0] in (0xB1, 0xB2)
    all_pairs(s, 1500 if q else None, 0.02, lambda a, b: iso(b))
    # chains of MIN / MAX
    for _ in range(200 if q else 2000):
        t = r.choice(TYPES)
        n = r.randrange(2, 8)
        row = [order_pair(r, t)[0] for _ in range(n)]
        s.add([ev(b''.join(var(t, i) for i in range(n)) + b''.join(op(r.choice(['min', 'max']), t) for _ in range(n - 1)), row)], 'mm')


def casts(s, n, checked):
    r = s.r
    evs = []
    for _ in range(n):
        d, t = r.choice(CASTS)
        if r.random() < 0.05:
            d = t
        v = cast_value(r, t)
        row = [v]
        evs.append(ev((var(t, 0) if r.random() < 0.5 else const(v, r)) + cast(d, t, checked if r.random() < 0.9 else not checked), row))
    s.pack(evs, 'cast')


def long_numbers(s, n):
    """Texts of many digits to numbers."""
    import struct
    from fractions import Fraction
    r = s.r
    evs = []

    def decimal(x):
        """The exact decimal expansion of a dyadic fraction."""
        neg, x = x < 0, abs(x)
        i = x.numerator // x.denominator
        f = x - i
        out = str(i)
        if f:
            k = f.denominator.bit_length() - 1
            out += '.' + str(f.numerator * 5**k).rjust(k, '0')
        return ('-' if neg else '') + out

    for _ in range(n):
        k = r.random()
        if k < 0.45:
            # halfway between two neighbours, exactly or nearly
            t, fmt, w = r.choice([(4, '<f', '<I'), (5, '<d', '<Q')])
            top = 0x7F7FFFFE if t == 4 else 0x7FEFFFFFFFFFFFFE
            lo, hi = ((0x32000000, 0x4E000000) if t == 4 else (0x3E00 << 48, 0x4330 << 48)) if r.random() < 0.8 else (1 << 23 if t == 4 else 1 << 52, top)
            b = r.randrange(lo, hi)
            x = Fraction(struct.unpack(fmt, struct.pack(w, b))[0])
            y = Fraction(struct.unpack(fmt, struct.pack(w, b + 1))[0])
            m = decimal((x + y) / 2)
            c = r.randrange(4)
            if len(m) > 500:
                m = decimal(x)
            elif '.' in m:
                m += '0' * r.randrange(0, 30) + ('1' if c == 1 else '')
                if c == 2:
                    m = m.rstrip('0')[:-1] + '49999999999999999999'
            elif c == 1:
                m += '.' + '0' * r.randrange(0, 40) + '1'
            text = m
            d = t
        else:
            d = r.choice([1, 2, 4, 5])
            zeros = '0' * r.choice([0, 0, 1, 5, 17, 40, 100, 300])
            digits = str(r.randrange(10**r.choice([1, 5, 9, 10, 15, 17, 18, 19, 20, 25, 38, 39])))
            if d in (1, 2):
                w = 31 if d == 1 else 63
                if r.random() < 0.6:
                    digits = str(2**w + r.randrange(-3, 3))
                text = r.choice(['', '-', '+']) + zeros + digits + r.choice(['', '.5', '.999', 'e5', ' ', 'x', '.'])
            else:
                text = r.choice(['', '-', '+']) + zeros + digits + r.choice(['', '', '.', '.' + '0' * r.choice([1, 20, 60]) + str(r.randrange(10**9)), '.5', '.25']) + r.choice(['', '', 'e%d' % r.randrange(-30, 31), 'E+%d' % r.randrange(0, 20), 'e0005', 'e-0', 'e', 'e+', 'x'])
        if r.random() < 0.2:
            text = r.choice([' ', '\t', ' \n \v\f\r', ' ' * 70, ' ' * 300]) + text
        v = string(text.encode())
        evs.append(ev((var(7, 0) if r.random() < 0.6 else const(v, r)) + cast(d, 7, r.random() < 0.2), [v]))
    s.pack(evs, 'digits')


def digits(s, n):
    """Integers of every number of digits to text, to other numbers and back."""
    r = s.r
    evs = []
    for k in range(19):
        for x in {10**k - 1, 10**k, 10**k + 1, *(d * 10**k for d in range(2, 10)), *(r.randrange(10**k, 10**(k + 1)) for _ in range(n))}:
            for y in (x, -x):
                if -2**31 <= y < 2**31:
                    evs.append(ev(var(1, 0) + cast(7, 1), [i32(y)]))
                    evs.append(ev(var(7, 0) + cast(1, 7), [string(b'%d' % y)]))
                if -2**63 <= y < 2**63:
                    evs.append(ev(var(2, 0) + cast(7, 2), [i64(y)]))
                    evs.append(ev(var(7, 0) + cast(2, 7), [string(b'%d' % y)]))
                    evs.append(ev(var(2, 0) + cast(r.choice([1, 3, 4, 5]), 2), [i64(y)]))
                evs.append(ev(var(5, 0) + cast(7, 5), [gen.f64(float(y))]))
                evs.append(ev(var(4, 0) + cast(7, 4), [gen.f32(float(y))]))
                evs.append(ev(var(7, 0) + cast(r.choice([4, 5]), 7), [string(b'%d' % y)]))
    s.pack(evs, 'ndigits')


def halves(s, n):
    """64-bit integers by their two halves, to 32 bits."""
    r = s.r
    lo = [0, 1, 2, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xff, 0x8000, 0x10000]
    hi = [0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff] + [1 << k for k in range(2, 31)] + [0xffffffff ^ (1 << k) for k in range(31)]
    evs = []
    for h in hi:
        for x in set(r.sample(lo, 6) + [0x80000000, 0x7fffffff, 0xffffffff, 0]) | {r.getrandbits(32) for _ in range(n)}:
            evs.append(ev(var(2, 0) + cast(1, 2, True), [(2, ((h << 32) | x).to_bytes(8, 'little'))]))
    s.pack(evs, 'halves')


def c11(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    digits(s, 2 if q else 20)
    grid(s, cases, {'cast'}, None)
    casts(s, 9000 if q else 120000, False)
    s.pack([ev(var(t, 0) + cast(d, t), [v]) for d, t in CASTS for v in EDGE[t] + (powers(t) if t in (1, 2, 4, 5) else [])], 'edges')
    long_numbers(s, 900 if q else 9000)
    # every short text
    short = [b''.join(x) for k in (1, 2, 3) for x in itertools.product(*[[bytes([c]) for c in b' +-1.e0'] + ([b'x', b'\t'] if k < 3 else [])] * k)]
    short += [x + y for x in (b'+-', b'-+', b'++', b'--', b' +-', b'- ', b'+ ', b'+.', b'-.', b'.-', b'+0', b'-0', b'0+', b'1e+', b'1e-', b'1e+-', b'1-', b'1.2.') for y in (b'5', b'12', b'7.5', b'0')]
    s.pack([ev(var(7, 0) + cast(d, 7, r.random() < 0.1), [string(x)]) for x in short for d in (1, 2, 4, 5)], 'short')
    # conversions of conversions
    isc = lambda o: o[0][0] == 0xF0
    for _ in range(3 if q else 20):
        all_pairs(s, None, 0.01, lambda a, b: isc(a) and isc(b))
    # the two hardest: numbers to text and back
    evs = []
    for _ in range(2500 if q else 25000):
        t = r.choice([4, 5])
        k = r.random()
        if k < 0.5:
            v = cast_value(r, t)
            evs.append(ev(var(t, 0) + cast(7, t), [v]))
        else:
            v = cast_value(r, 7)
            evs.append(ev(var(7, 0) + cast(r.choice([1, 2, 4, 5]), 7), [v]))
    s.pack(evs, 'text')


def c12(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    grid(s, cases, {'checked'}, None)
    halves(s, 2 if q else 20)
    casts(s, 6000 if q else 60000, True)
    s.pack([ev(var(t, 0) + cast(d, t, True), [v]) for d, t in CASTS for v in EDGE[t] + (powers(t) if t in (1, 2, 4, 5) else [])], 'edges')
    # one unit around the limits of the ranges
    near = []
    for t, mk, w, m in ((4, gen.f32, 32, 23), (5, gen.f64, 64, 52)):
        for x in (2.0**31, 2.0**31 - 0.5, 2.0**31 + 0.5, 2.0**31 - 1, 2.0**31 + 1, 2.0**32, 2.0**63, 2.0**64, 2.0**52, 2.0**53, 2.0**24, 0.5, 1.5, 2.5, 2.0**30, 2.0**33, 2.0**62, 0.49999999999999994, 4503599627370495.5, 8388607.5):
            for g in (1, -1):
                n = int.from_bytes(mk(g * x)[1], 'little')
                for k in range(-3, 4):
                    near.append((t, (n + k).to_bytes(w // 8, 'little')))
    s.pack([ev(var(v[0], 0) + cast(d, v[0], c), [v]) for v in near for d in (1, 2) for c in (True,)], 'near')
    s.pack([ev(var(2, 0) + cast(1, 2, True), [i64(b + k)]) for b in (2**31, -2**31, 2**32, -2**32, 2**33, 2**63 - 4, 2**62, 0, 2**40, 2**31 + 2**32, -2**31 - 2**32, 2**48) for k in range(-3, 4)], 'near')
    isc = lambda o: o[0][0] in (0xF0, 0xFC)
    for _ in range(2 if q else 20):
        all_pairs(s, None, 0.01, lambda a, b: isc(a) and b[0][0] == 0xFC)
    all_pairs(s, 800 if q else None, 0.02, lambda a, b: b[0][0] in (0xFC, 0xB4) or a[0][0] in (0xFC, 0xB4))
    evs = []
    for _ in range(5000 if q else 50000):
        d, t = r.choice([(1, 2), (1, 4), (1, 5), (2, 4), (2, 5)])
        v = cast_value(r, t)
        evs.append(ev(var(t, 0) + cast(d, t, True), [v]))
    for _ in range(1500 if q else 10000):
        t = r.choice(NUMERIC)
        v = r.choice([gen.rand_value(r, t, 0.05), {1: i32(-2**31), 2: i64(-2**63), 4: gen.f32(-1.5), 5: gen.f64(-2.5)}[t], {1: i32(-2**31 + 1), 2: i64(-2**31), 4: gen.f32bits(0x80000000), 5: gen.f64bits(1 << 63)}[t]])
        evs.append(ev(var(t, 0) + op('abs_c', t), [v]))
    s.pack(evs, 'chk')


def c13(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    grid(s, cases, {'text'}, 4500 if q else None)
    evs = []
    for _ in range(5000 if q else 60000):
        code, row = text_call(r, text_value(r))
        evs.append(ev(code, row))
    s.pack(evs, 'fn')
    # every byte; every size
    evs = []
    for b in range(256):
        x = bytes([b])
        for v in (x, x + b'a' + x, b'Zz' + x + b'Zz'):
            evs.append(ev(b''.join(var(7, 0) + fun(f) for f in gen.STR1) + var(7, 0) + var(7, 0) + fun(33), [string(v)]))
    for n in SIZES + [511, 512, 1000, 1023, 1024, 4095, 4096] + ([] if q else [16384]):
        for _ in range(2):
            pad = r.choice([0, 0, 1, 2, n // 2])
            v = b' ' * pad + gen.rand_bytes(r, max(0, n - 2 * pad), r.choice([None, b'aZ', b'\0 \xff', b'm'])) + b'\t' * pad
            n = len(v)
            sv = string(v)
            src = var(7, 0) if r.random() < 0.6 else const(sv)
            evs.append(ev(b''.join(src + fun(f) for f in gen.STR1) + src + var(7, 1) + fun(33) + var(7, 1) + src + fun(33) + src + src + fun(33), [sv, string(gen.rand_bytes(r, r.choice([0, 1, 15, 16, 255, 256])))]))
            for k in sorted({0, 1, n - 1, n, n + 1, n // 2, 15, 16, 17, 127, 128, 255, 256, 257, 2**31 - 1}):
                for g in (1, -1):
                    c = const(i32(g * k))
                    evs.append(ev(b''.join(src + c + fun(f) for f in gen.STRINT) + src + c + const(i32(r.choice([1, 2, n, 300, 2**31 - 1]))) + fun(46) + src + const(i32(r.choice([0, 1, n // 2]))) + c + fun(44) + src + c + const(i32(n)) + fun(44), [sv]))
    # beyond 15 and 16 bits
    for n in [r.choice([32767, 32768, 40000]), r.choice([65535, 65536, 65537]), 70001] if q else [32767, 32768, 40000, 65535, 65536, 70001, 131073]:
        v = gen.rand_bytes(r, n, r.choice([b'aZ', b'\0 \xff', b'mN '])[:3])
        v = b' ' * r.choice([0, 1, n // 2 if n < 40000 else 33000]) + v
        v = v[:n - 5] + b'Tail '
        sv = string(v)
        for f in gen.STR1:
            evs.append(ev(var(7, 0) + fun(f), [sv]))
        for f in gen.STRINT:
            for k in ((r.choice([5, n - 7]), r.choice([32768, r.randrange(n)])) if q else (5, n - 7, 32768, r.randrange(n))):
                evs.append(ev(var(7, 0) + const(i32(k)) + fun(f), [sv]))
        evs.append(ev(var(7, 0) + const(i32(n - 9)) + const(i32(7)) + fun(46) + var(7, 0) + const(i32(r.randrange(n // 2))) + const(i32(n - 3)) + fun(44), [sv]))
        evs.append(ev(var(7, 0) + var(7, 1) + fun(33), [sv, string(v[-3:])]))
        evs.append(ev(var(7, 0) + var(7, 1) + op('add', 7) + var(7, 1) + var(7, 0) + fun(33) + const(i32(n - 20)) + fun(0x2D), [sv, string(v[:40])]))
    s.pack(evs, 'size', 8)
    isst = lambda o: 7 in o[1] and o[2] == 7
    for _ in range(2 if q else 20):
        all_pairs(s, None, 0.01, lambda a, b: isst(a) and isst(b))
    programs(s, 300 if q else 3000, (2, 5), [7], rows=2, null=0.03, cnull=0.02, long=True, cols=lambda r: [7, 7, 7, 1])
    # arguments stay as they are
    for _ in range(400 if q else 4000):
        sv = text_value(r)
        if r.random() < 0.4:
            sv = string(b' ' * r.choice([0, 0, 1, 7, 8, 9, 16, 40]) + sv[1] * r.choice([1, 1, 2, 5, 20]) + b' ' * r.choice([0, 0, 1, 8, 17]))
        row = [sv]
        code = const(sv) + (var(7, 0) if r.random() < 0.5 else b'')
        for _ in range(r.randrange(1, 4)):
            f = r.choice(gen.STR1 + [36, 37, 47, 45, 33, 0])
            extra = b'' if f in gen.STR1 else const(i32(r.randrange(0, len(sv[1]) + 1))) if f in (36, 37, 47, 45) else var(7, 0)
            code += var(7, 0) + extra + (fun(f) if f else op('add', 7))
        code += var(7, 0) + var(7, 0) + op(r.choice(['min', 'max']), 7)
        s.add(['xnew 1', 'xdec 1 ' + hexs(code), 'tset 1 ' + show_row(row), 'xbind 1 1', 'xrun 1', 'xall 1', 'tget 1', 'xrun 1', 'xall 1', 'tget 1'], 'keep')


def c14(s, tier, cases):
    import math
    r = s.r
    q = tier == 'quick'
    grid(s, cases, {'math'}, None)
    evs = []

    def arg(f):
        k = r.random()
        if k < 0.15:
            return gen.rand_value(r, DOUBLE, 0)
        if f in (1, 2):
            return cast_value(r, DOUBLE)
        if f in (10, 11):        # arcs
            return gen.f64(r.choice([r.uniform(-1, 1), r.uniform(-1.1, 1.1), 1 - 2.0**-r.randrange(1, 53), -1 + 2.0**-r.randrange(1, 53), 2.0**-r.randrange(1, 300)]))
        if k < 0.35:
            return gen.f64(r.choice([1, -1]) * 2.0**r.randrange(-300, 4) * r.uniform(1, 2))
        if k < 0.5:
            return gen.f64(r.choice([1, -1]) * r.uniform(0, 710))
        if k < 0.65:
            return gen.f64(r.randrange(-40, 40) * math.pi / r.choice([1, 2, 3, 4, 6]))
        if k < 0.75:
            return gen.f64(r.choice([1, -1]) * 10.0**r.randrange(-10, 20) * r.random())
        return gen.f64(r.uniform(-10, 10))

    # where something changes: domains, overflow, underflow, saturation, branches of the usual implementations
    pts = [0.0, 2.0**-1074, 2.0**-1022, 2.0**-60, 2.0**-54, 2.0**-53, 2.0**-29, 2.0**-28, 2.0**-27, 2.0**-26, 2.0**-12, 0.1, 0.25, 7 / 16, 0.3465735902799726, 0.5, 0.6931471805599453, 11 / 16, 0.75, math.pi / 4,
           0.9, 0.975, 1.0, 1.0397207708399179, 19 / 16, 1.5, math.pi / 2, 2.0, 39 / 16, 2.5, 3 * math.pi / 4, 3.0, math.pi, 4.0, 5.0, 2 * math.pi, 7.0, 9.0, 10.0, 16.0, 18.0, 18.5, 19.0, 19.0615, 20.0, 22.0, 23.0, 30.0, 36.0,
           37.0, 38.0, 40.0, 50.0, 100.0, 300.0, 355.0, 500.0, 700.0, 708.0, 708.3964185322641, 709.0, 709.4, 709.436139303104, 709.5, 709.6, 709.782712893384, 709.79, 709.9, 710.0, 710.2, 710.4, 710.4758600739439, 710.48, 710.5, 711.0,
           720.0, 744.0, 744.4400719213812, 745.0, 745.1332191019411, 745.2, 746.0, 750.0, 800.0, 1000.0, 1e4, 1e5, 823549.0, 2.0**20, 2.0**24, 2.0**31, 2.0**32, 2.0**51, 2.0**52, 2.0**52 + 0.5, 2.0**53, 2.0**54, 2.0**62, 2.0**63,
           2.0**66, 1e22, 1e100, 1e300, 1.7976931348623157e308, math.inf, math.nan, 1 / math.e, math.e, math.sqrt(2), math.sqrt(0.5), 1.0 - 2.0**-53, 1.0 + 2.0**-52, 1.0 - 2.0**-30, 1.0 + 2.0**-30, 0.99, 1.01]
    for x in pts:
        for g in (1, -1):
            n = int.from_bytes(gen.f64(g * x)[1], 'little')
            for k in (0, 1, -1) if q else range(-4, 5):
                v = gen.f64bits((n + k) % 2**64)
                evs.append(ev(b''.join(var(5, 0) + fun(f) for f in gen.MATH1), [v]))
    s.pack(evs, 'pt', 8)
    evs = []
    for _ in range(1200 if q else 12000):
        # densely, where the result is near the largest and smallest numbers
        f, lo, hi = r.choice([(15, 709.0, 710.0), (15, -746.0, -707.0), (12, 709.0, 711.0), (13, 709.0, 711.0), (12, -711.0, -709.0), (13, -711.0, -709.0), (14, 17.0, 23.0), (14, -23.0, -17.0), (16, 0.9, 1.1), (10, 0.9, 1.0), (11, 0.9, 1.0),
                              (11, -1.0, -0.9), (10, -1.0, -0.9), (9, 1.5, 1.6), (9, 4.6, 4.8), (7, 3.1, 3.2), (8, 1.5, 1.6)])
        v = gen.f64(r.uniform(lo, hi))
        evs.append(ev(var(5, 0) + fun(f), [v]))
    s.pack(evs, 'edge')
    evs = []
    all_pairs(s, 1500 if q else None, 0.01, lambda a, b: b[0][0] == 0xF1 and b[2] == 5)
    for _ in range(4000 if q else 40000):
        f = r.choice(gen.MATH1 if r.random() < 0.8 else [1, 2])
        v = arg(f)
        evs.append(ev((var(5, 0) if r.random() < 0.5 else const(v)) + fun(f), [v]))
    s.pack(evs, 'fn')


def c15(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    for _ in range(700 if q else 7000):
        cols = gen.rand_cols(r, r.randrange(1, 6))

        def prog():
            c = gen.Ctx(r, cols, long=True)
            if r.random() < 0.3:
                c.by = dict(c.by)
                c.by[STRING] = []
                code, _ = text_call(r, text_value(r))
                code = const(text_value(r)) + fun(r.choice(gen.STR1))
                return code + b''.join(gen.expr(c, r.choice(TYPES), 2) for _ in range(r.choice([0, 1])))
            return b''.join(gen.expr(c, r.choice(TYPES), r.randrange(1, 4)) for _ in range(r.choice([1, 1, 2, 3])))

        progs = [prog() for _ in range(3)]
        if r.random() < 0.3:
            progs[r.randrange(3)] = r.choice([b'', b'\0', bytes([r.choice(TYPES)])])
        rows = [show_row(gen.rand_row(r, cols, 0.12, True)) for _ in range(4)]
        cmds = ['tset 1 ' + rows[0], 'tset 2 ' + rows[1], 'xnew 1', 'xdec 1 ' + hexs(progs[0]), 'xbind 1 1']
        alive = {1, 2}
        bound = 1
        ran = False
        prog = progs[0]
        for _ in range(r.randrange(6, 22)):
            k = r.random()
            if k < 0.32 and bound in alive:
                cmds += ['xrun 1', r.choice(['xall 1', 'xget 1', 'xall 1'])]
                ran = True
            elif k < 0.45:
                t = r.choice([1, 2])
                cmds.append('tset %d %s' % (t, r.choice(rows)))
                alive.add(t)
            elif k < 0.55:
                bound = r.choice(sorted(alive)) if alive else 0
                if bound:
                    cmds.append('xbind 1 %d' % bound)
            elif k < 0.65:
                prog = r.choice(progs)
                cmds.append('xdec 1 ' + hexs(prog))
                ran = False
            elif k < 0.72:
                t = r.choice([1, 2])
                if t in alive:
                    cmds.append('tget %d' % t)
            elif k < 0.8 and ran:
                cmds.append('xopt 1 %d' % r.choice(TYPES))
            elif k < 0.85:
                t = r.choice([1, 2])
                if t in alive and len(alive) > 1:
                    cmds.append('tdel %d' % t)
                    alive.discard(t)
                    bound = -1 if t == bound else bound
            elif ran:
                cmds.append(r.choice(['xall 1', 'xget 1'] + ['xtype 1'] * (prog.strip(b'\0') != b'')))
            if k > 0.97 and ran:
                cmds += ['xbind 1 0', 'xall 1']
                bound = -1
        for t in sorted(alive):
            cmds.append('tget %d' % t)
        if bound in alive:
            cmds += ['xrun 1', 'xall 1', 'xrun 1', 'xall 1'] + ['xtype 1'] * (prog.strip(b'\0') != b'')
        s.add(cmds, 'hist')
    # nothing is changed by any operator: twice on the same operands, variables and constants
    texts = [b'', b'a', b'  aB c  ', b'ABC', b'abc', b' ', b'\t\n x \0 ', b'x' * 15, b'X' * 16, b' ' + b'Xy' * 20 + b' ', b' ' * 9 + b'Y', b'y' + b' ' * 12, b' ' * 33 + b'Ab' * 9 + b' ' * 40, b'Ab ' * 100, b' ' * 300, b'Q' * 17 + b'r', gen.rand_bytes(r, 100), b'12', b'-7.5 ']
    for o in gen.OPERATORS:
        rows = []
        if STRING in o[1]:
            rows = [[string(v) if t == STRING else i32(r.choice([0, 1, 2, 5, -1, 100])) for t in o[1]] for v in texts]
            if o[2] != STRING:
                rows = rows[:4] + rows[-2:]
        else:
            rows = [[value_for(r, o, i) for i in range(len(o[1]))] for _ in range(2)]
        for row in rows:
            k = len(o[1])
            args = b''.join(var(t, i) for i, t in enumerate(o[1]))
            consts = b''.join(const(v) for v in row)
            # both forms, with the operands themselves before and after
            mixed = b''.join(var(t, i) if i % 2 else const(row[i]) for i, t in enumerate(o[1]))
            code = args + args + o[0] + consts + consts + o[0] + mixed + o[0] + args
            s.add(['xnew 1', 'xdec 1 ' + hexs(code), 'tset 1 ' + show_row(row), 'xbind 1 1', 'xrun 1', 'xall 1', 'xrun 1', 'xall 1', 'xrep 1 3', 'tget 1', 'xget 1', 'xdel 1', 'tget 1'], 'intact')
    # operands that stay on the stack, many times, while an operator gives one of them back
    for o in gen.OPERATORS:
        if STRING not in o[1]:
            continue
        for _ in range(4 if q else 20):
            long = b'Ab \0' * r.choice([5, 9, 20]) + b'z'
            row = [string(r.choice([b'', long, long])) if t == STRING else i32(r.choice([0, 1, -1, 1000])) for t in o[1]]
            if o[1].count(STRING) == 2:
                row = r.choice([[string(b''), string(long)], [string(long), string(b'')], [string(long), string(long)]])
            args = b''.join(var(t, i) for i, t in enumerate(o[1]))
            consts = b''.join(const(v) for v in row)
            m = r.choice([1, 2, 7, 8, 9, 20])
            code = (args * m + o[0]) * 2 + (consts * m + o[0]) * 2 + args
            s.add(['xnew 1', 'xdec 1 ' + hexs(code), 'tset 1 ' + show_row(row), 'xbind 1 1', 'xrun 1', 'xall 1', 'xrun 1', 'xall 1', 'tget 1', 'xdel 1', 'tget 1'], 'stay')
    # very often
    for n in [300, 300, 1000, 1000, 5000] + [70000] + ([] if q else [200000]):
        for _ in range(3 if n < 10000 else 1):
            cols = gen.rand_cols(r, 4)
            c = gen.Ctx(r, cols, long=True)
            code = b''.join(gen.expr(c, r.choice(TYPES), r.randrange(1, 4)) for _ in range(2)) if n < 10000 else var(1, 0) + const(i32(3)) + op('sub', 1) + const(string(b'A thing that is long enough')) + fun(34)
            row = show_row(gen.rand_row(r, cols)) if n < 10000 else show_row([i32(7)])
            s.add(['xnew 1', 'xdec 1 ' + hexs(code), 'tset 1 ' + row, 'xbind 1 1', 'xrep 1 %d' % n, 'xall 1', 'tget 1', 'xrun 1', 'xall 1', 'xtype 1'], 'often')
    for n in [300] + ([] if q else [1100, 5000]):
        cols = gen.rand_cols(r, 4)
        c = gen.Ctx(r, cols)
        codes = [gen.expr(c, r.choice(TYPES), 2) for _ in range(3)]
        cmds = ['xnew 1', 'tset 1 ' + show_row(gen.rand_row(r, cols)), 'xbind 1 1']
        for _ in range(n):
            cmds += ['xdec 1 ' + hexs(r.choice(codes))] + (['xrun 1', 'xall 1'] if r.random() < 0.5 else [])
        s.add(cmds, 'decodes')
    # programs of the same length take turns, tuples come and go
    for _ in range(60 if q else 600):
        def twin():
            return (const(i32(r.randrange(60))) + var(1, r.randrange(2)) + op(r.choice(['sub', 'add', 'mul', 'max']), 1) + const(string(gen.rand_bytes(r, 2, b'aBc '))) + var(7, 2) + fun(0x21) +
                    fun(r.choice([0x22, 0x23, 0x26, 0x28])))

        progs = [twin() for _ in range(3)]
        cmds = ['xnew 1', 'xnew 2'] + ['tset %d %s' % (i, show_row([i32(r.randrange(-50, 50)), i32(i), string(b'Row %d ' % i)])) for i in (1, 2, 3)]
        for x in (1, 2):
            cmds += ['xdec %d %s' % (x, hexs(r.choice(progs))), 'xrun %d' % x]
        for _ in range(14):
            x = r.choice([1, 1, 2])
            k = r.random()
            if k < 0.5:
                cmds += ['xdec %d %s' % (x, hexs(r.choice(progs)))]
            if k > 0.4:
                cmds += ['xbind %d %d' % (x, r.choice([0, 1, 2, 3]))]
            cmds += ['xrun %d' % x, 'xall %d' % x]
        s.add(cmds + ['tget %d' % i for i in (1, 2, 3)], 'twin')
    # results that outlive everything are values of their own: long stacks, many tuples
    for n in [20, 130, 300]:
        rows = [show_row([i32(k), string(b'row %d' % k)]) for k in range(n)]
        cmds = ['xnew 1', 'xdec 1 ' + hexs(var(1, 0) + const(i32(1)) + op('add', 1) + var(7, 1) + fun(35))]
        for k, x in enumerate(rows):
            cmds += ['tset %d %s' % (k % 7 + 1, x), 'xbind 1 %d' % (k % 7 + 1), 'xrun 1', 'xall 1']
        s.add(cmds, 'stream')
    # operands that are nearly the same, one after the other
    alike = {INT32: [i32(x) for x in (0, 1, -1, 65536, 65537)], INT64: [i64(x) for x in (0, 1, -1, 1 << 32, (1 << 32) + 1, 1 << 53, (1 << 53) + 1)], BOOL: [gen.boolean(False), gen.boolean(True)],
             FLOAT: [gen.f32bits(x) for x in (0, 0x80000000, 0x3f800000, 0x3f800001, 0x7fc00000, 1)], DOUBLE: [gen.f64bits(x) for x in (0, 1 << 63, 0x3ff << 52, (0x3ff << 52) + 1, 0x7ff8 << 48, 1)],
             STRING: [string(x) for x in (b'', b'0', b'00', b'a', b'A', b'a ', b'a\0', b'a' * 16, b'a' * 15 + b'b', b'1', b'1.0')]}
    for o in gen.OPERATORS:
        for _ in range(2 if q else 10):
            code = b''.join(var(t, i) for i, t in enumerate(o[1])) + o[0]
            cmds = ['xnew 1', 'xdec 1 ' + hexs(code)]
            for i in range(4 if len(o[1]) == 1 else 7):
                row = [r.choice(alike[t]) if r.random() < 0.95 else gen.NULL for t in o[1]] if i else [alike[t][0] for t in o[1]]
                if len(o[1]) == 1 and i < 3:
                    row = [alike[o[1][0]][(0, 1, 0)[i]]]
                cmds += ['tset 1 ' + show_row(row), 'xbind 1 1', 'xrun 1', 'xall 1']
            s.add(cmds, 'alike')
    # the same program on many tuples, back and forth
    for _ in range(60 if q else 600):
        cols = gen.rand_cols(r, r.randrange(1, 6))
        c = gen.Ctx(r, cols, long=True)
        code = b''.join(gen.expr(c, r.choice(TYPES), r.randrange(2, 5)) for _ in range(2))
        rows = [show_row(gen.rand_row(r, cols)) for _ in range(5)]
        cmds = ['xnew 1', 'xdec 1 ' + hexs(code)] + ['tset %d %s' % (i + 1, x) for i, x in enumerate(rows)]
        for _ in range(20):
            cmds += ['xbind 1 %d' % r.randrange(1, 6), 'xrun 1', 'xall 1']
        s.add(cmds + ['tget %d' % (i + 1) for i in range(5)], 'many')


# ---- plans: R01 - R08

def put(n, row, h=0, p=1):
    return 'rput %d %d %s %d' % (p, n, show_row(row), h)


def relational(s, count, n=(1, 4), ops=None, rows=8, distinct=2, fail=0.0, cols=None, drain=0.4, wild=0.3, handles=0.3, end=False, tail=None, depth=2, order=True,
               getrate=0.25, null=0.15):
    """Random plans, rows put and fetched in random order."""
    r = s.r
    for _ in range(count):
        cs = cols(r) if cols else gen.rand_cols(r, r.randrange(1, 5))
        pg = gen.PlanGen(r, cs, ops=ops, n=r.randrange(*n) if n else None, fail=fail, depth=depth, ordered=not order)
        pools = gen.row_pool(r, cs, distinct, null=null, wild=wild)
        cmds = ['rnew 1', 'rdec 1 ' + hexs(pg.code)]
        h = []
        k = 0
        for _ in range(r.randrange(1, rows + 1)):
            if r.random() >= getrate:
                k += 1
                hd = k if r.random() < handles else 0
                cmds.append(put(k, gen.pick_row(r, pools), hd))
                if hd:
                    h.append(hd)
            elif order:
                cmds.append('rget 1 0')
            else:
                cmds.append('rdrain 1')
        if r.random() < drain or not order:
            cmds += ['rdrain 1', 'rget 1 0', 'rget 1 0']
        else:
            cmds += ['rget 1 0'] * r.randrange(0, 6)
        if tail:
            cmds += tail(r)
        back = ['oget %d' % x for x in sample(r, h, 2)]
        cmds += ['rdel 1'] + back
        s.add(cmds, 'rel', end=end)


def rel_cases(s, cases, n, want=lambda c: True, end=False):
    """Histories enumerated by Gen_Rel."""
    xs = [c for c in cases if want(c)]
    for c in sample(s.r, xs, n):
        cmds = ['rnew 1', 'rdec 1 ' + hexs(c['code'])]
        k = 0
        for a in c['acts']:
            if a:
                k += 1
                cmds.append('rput 1 %d %s 0' % (k, ','.join('%d:%s' % (t, bytes(b).hex()) for t, b in a)))
            else:
                cmds.append('rget 1 0')
        s.add(cmds + ['rget 1 0'] * 4 + ['rdel 1'], 'enum', end=end)


def large_groups(s, sizes, plans=1, ops_after=None):
    """Many groups, many rows, fetched until the end."""
    r = s.r
    for n in sizes:
        for _ in range(plans):
            ktypes = [r.choice([INT32, INT64, STRING, DOUBLE, BOOL, FLOAT]) for _ in range(r.choice([1, 1, 2]))]
            if all(t == BOOL for t in ktypes):
                ktypes[0] = INT32
            cs = ktypes + [INT64, STRING]
            v = len(ktypes)
            keys = []
            for i in range(n):
                keys.append([{INT32: lambda: i32(i * 7 - n), INT64: lambda: i64((i << 32) + (i & 3)), STRING: lambda: string(b'key' + b'%d' % i), DOUBLE: lambda: gen.f64(i / 4.0), FLOAT: lambda: gen.f32(i * 0.5),
                              BOOL: lambda: gen.boolean(i & 1)}[t]() for t in ktypes])
            aggs = [('count_all',), ('sum', INT64, v), ('min', INT64, v), ('max', STRING, v + 1), ('count', STRING, v + 1)]
            code = gen.enc_gagg(list(range(v)), r.sample(aggs, r.randrange(1, 5)))
            cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
            m = n + r.randrange(n)
            for k in range(m):
                row = keys[k if k < n else r.randrange(n)] + [gen.rand_value(r, INT64, 0.1), string(gen.rand_bytes(r, r.randrange(3), b'ab')) if r.random() < 0.9 else gen.NULL]
                cmds.append(put(k + 1, row))
            s.add(cmds + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'large')


def r01(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    relational(s, 900 if q else 9000, (1, 2), ['filter'], rows=8, handles=0.5, getrate=0.15, null=0.25)
    relational(s, 700 if q else 7000, (1, 2), ['project'], rows=6, getrate=0.15)
    relational(s, 250 if q else 2500, (2, 4), ['filter', 'project'], rows=6, getrate=0.15)
    # conditions that end in NULL, FALSE, TRUE
    for _ in range(250 if q else 2500):
        cols = [BOOL, BOOL, r.choice(TYPES)]
        c = gen.Ctx(r, cols)
        code = gen.enc_filter(logic_program(c, r.randrange(0, 3)))
        cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
        for k in range(6):
            cmds.append(put(k + 1, gen.rand_row(r, cols, 0.33), k + 1))
        cmds += ['rget 1 0']
        s.add(cmds + ['rdel 1'], 'cond')
    # conditions of several values: the last one counts
    for _ in range(300 if q else 3000):
        cols = [BOOL, r.choice(TYPES), r.choice(TYPES), BOOL]
        code = b''
        for _ in range(r.choice([2, 2, 3, 5, 17])):
            i = r.randrange(4)
            k = r.random()
            code += var(cols[i], i) if k < 0.6 else r.choice([b'\x13', b'\x23', b'\x03', b'\x01', b'\x07']) if k < 0.8 else var(cols[i], i) + op(r.choice(['is_null', 'is_true', 'is_false']), cols[i])
        code += r.choice([var(3, 0), var(3, 3), b'\x13', var(3, 0) + b'\x51', var(cols[1], 1) + op('is_null', cols[1]), b''])
        cmds = ['rnew 1', 'rdec 1 ' + hexs(gen.enc_filter(code))]
        for k in range(6):
            cmds.append(put(k + 1, gen.rand_row(r, cols, 0.4), k + 1))
        s.add(cmds + ['rget 1 0', 'rdel 1'], 'conds')
    # conditions of any type
    for t in TYPES:
        vals = [gen.NULL] + {INT32: [i32(x) for x in (0, 1, -1)], INT64: [i64(x) for x in (0, 1, -1)], BOOL: [gen.boolean(False), gen.boolean(True)], FLOAT: [gen.f32(x) for x in (0.0, 1.0)],
                             DOUBLE: [gen.f64(x) for x in (0.0, 1.0)], STRING: [string(x) for x in (b'', b'true', b'1')]}[t]
        codes = [var(t, 0), var(BOOL, 0), const(gen.boolean(True)) + var(t, 0), var(t, 0) + cast(t, t)] + [const(v) for v in vals]
        for code in codes:
            s.add(['rnew 1', 'rdec 1 ' + hexs(gen.enc_filter(code))] + [put(k + 1, [v], k + 1) for k, v in enumerate(vals)] + ['rget 1 0', 'rdel 1'], 'anycond')
    # projections to some of the columns: the first ones, the last ones, all of them, in another order, some twice
    for n in [1, 2, 3, 4, 5, 6, 8, 9, 12, 17, 33] + ([] if q else [65, 129]):
        cs = [r.choice(TYPES) for _ in range(n)]
        all_ = list(range(n))
        for idx in [all_, all_[:-1], all_[1:], all_[:n // 2], all_[n // 2:], all_[::-1], all_ + all_, all_ + [0], [0] + all_, all_[:-1] + [0], all_[:1] * n, all_[-1:] * n, r.sample(all_, n), sorted(r.sample(all_, (n + 1) // 2))]:
            if idx:
                code = gen.enc_project(b''.join(var(cs[i], i) for i in idx))
                cmds = ['rnew 1', 'rdec 1 ' + hexs(r.choice([b'', gen.enc_filter(b'\x13')]) + code)] + [put(k, gen.rand_row(r, cs), k) for k in range(1, 4)] + [put(4, [gen.NULL] * n, 4), put(5, [EDGE[t][0] for t in cs], 5)]
                s.add(cmds + ['rget 1 0', 'rdel 1', 'oget 1', 'oget 4'], 'select')
    # many columns
    for n in [40, 70, 130] + ([] if q else [300, 600]):
        cs = [r.choice(TYPES) for _ in range(n)]
        idx = [r.randrange(n) for _ in range(n + 9)]
        code = gen.enc_project(b''.join(var(cs[i], i) for i in idx))
        fcode = gen.enc_filter(var(cs[n - 1], n - 1) + op('is_null', cs[n - 1]) + b'\x51')
        s.add(['rnew 1', 'rdec 1 ' + hexs(code)] + [put(k, gen.rand_row(r, cs)) for k in range(1, 4)] + ['rdec 1 ' + hexs(fcode + code)] + [put(k, gen.rand_row(r, cs)) for k in range(5, 9)] + ['rdel 1'], 'wide')
    for n in [1, 2, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513] + ([] if q else [1024, 4097]):
        # as many columns as expressions
        cs = [r.choice(TYPES) for _ in range(r.randrange(1, 6))]
        c = gen.Ctx(r, cs)
        exact = b''.join(gen.expr(c, r.choice(TYPES), 1) for _ in range(n))
        cmds = ['rnew 1', 'rdec 1 ' + hexs(gen.enc_project(exact))] + [put(k, gen.rand_row(r, cs)) for k in range(1, 4)]
        i = r.randrange(len(cs))
        cmds += ['rdec 1 ' + hexs(gen.enc_filter(var(cs[i], i) + op('is_null', cs[i]) + b'\x51') + gen.enc_project(exact))] + [put(k, gen.rand_row(r, cs), k) for k in range(5, 9)]
        s.add(cmds + ['rget 1 0', 'rdel 1', 'oget 5', 'oget 6'], 'cols')
        # nothing that can fail
        easy = b''.join(var(cs[j % len(cs)], j % len(cs), r) if r.random() < 0.5 else const(i32(j)) if r.random() < 0.5 else bytes([r.choice(TYPES)]) for j in range(n))
        cmds = ['rnew 1', 'rdec 1 ' + hexs(gen.enc_project(easy))] + [put(k, gen.rand_row(r, cs), k) for k in range(1, 3)]
        s.add(cmds + ['rget 1 0', 'rdel 1', 'oget 1', 'oget 2'], 'cols')
    # very many columns
    for n in [16400] if q else [16400, 32800, 66000]:
        code = gen.enc_project(b'\x01' * (n - 2) + var(1, 0) + var(7, 1))
        s.add(['rnew 1', 'rdec 1 ' + hexs(code), put(1, [i32(3), string(b'last')]), 'rdel 1'], 'cols')
    for n in [1, 2, 16, 33, 64, 65, 129, 257, 600]:
        # wide rows through filters
        cs = [r.choice(TYPES) for _ in range(n)]
        i = r.choice([0, n - 1, n // 2])
        s.add(['rnew 1', 'rdec 1 ' + hexs(gen.enc_filter(var(cs[i], i) + op('is_null', cs[i]) + b'\x51'))] + [put(k, gen.rand_row(r, cs, 0.3), k) for k in range(1, 5)] + ['rget 1 0', 'rdel 1', 'oget 1', 'oget 2'], 'fwide')
    # rows that are alike: permuted, colliding, nearly equal, equal and then not
    for _ in range(400 if q else 4000):
        t = r.choice([INT32, INT64, INT32, DOUBLE, STRING])
        mk = {INT32: i32, INT64: i64, DOUBLE: lambda x: gen.f64(x / 2.0), STRING: lambda x: string(b'%d' % (x % 12))}[t]
        m = r.randrange(1, 4)
        a = r.choice([0, 1, 2, 5, -1])
        vals = r.choice([[a, a + 1, 31, 0, -31], [a, 31 * a, 1, 0], [a, a + 31, a + 62, 0, 1, 2], [0, 1], [0, 31, 1, 961, 30, 32]])
        x = r.randrange(m)
        form = r.randrange(3)
        if form == 0:
            code = gen.enc_filter(var(t, x) + const(mk(r.choice(vals))) + op(r.choice(['eq', 'ne', 'gt', 'le']), t))
        elif form == 1:
            code = gen.enc_project(b''.join(var(t, r.randrange(m)) for _ in range(r.randrange(1, 4))) + var(t, x) + op('is_true', t))
        else:
            code = gen.enc_filter(var(t, x) + const(mk(r.choice(vals))) + op('ne', t)) + gen.enc_project(var(t, x) + cast(7, t) + var(t, 0))
        cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
        for k in range(1, r.randrange(6, 18)):
            cmds.append(put(k, [mk(r.choice(vals)) for _ in range(m)], k if r.random() < 0.2 else 0))
        s.add(cmds + ['rget 1 0', 'rdel 1'], 'alike')
    # projections as wide as the row whose outcome is, or nearly is, the row
    for _ in range(150 if q else 1500):
        t = r.choice([INT32, INT64])
        mk = {INT32: i32, INT64: i64}[t]
        m = r.randrange(1, 7)
        perm = list(range(m))
        k = r.random()
        deltas = [0] * m
        if k < 0.5 and m > 1:
            i = r.randrange(m - 1)
            d = r.choice([1, -1, 2, 3])
            deltas[i], deltas[i + 1] = d, -31 * d
        elif k < 0.7:
            r.shuffle(perm)
        elif k < 0.9:
            deltas[r.randrange(m)] = r.choice([1, -1, 1 << 16, 256])
        code = gen.enc_project(b''.join(var(t, i) + (const(mk(d)) + op('add', t) if d else b'') for i, d in zip(perm, deltas)))
        if r.random() < 0.3:
            code = gen.enc_filter(var(t, 0) + op('is_null', t) + b'\x51') + code
        cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
        for k in range(1, 6):
            cmds.append(put(k, [mk(r.choice([0, 1, 5, 31, 100, r.randrange(-1000, 1000)])) for _ in range(m)], k if r.random() < 0.3 else 0))
        s.add(cmds + ['rget 1 0', 'rdel 1'], 'same')
    # very many rows
    for n in [300, 1200, 70000] + ([] if q else [200000]):
        cs = [INT32, STRING]
        code = gen.PlanGen(r, cs, ops=['filter', 'project'], n=2, depth=1).code if n < 10000 else gen.enc_filter(var(1, 0) + const(i32(1)) + op('ge', 1)) + gen.enc_project(var(7, 1) + var(1, 0))
        pools = gen.row_pool(r, cs, 3)
        rows = [gen.pick_row(r, pools) for _ in range(3)]
        s.add(['rnew 1', 'rdec 1 ' + hexs(code), 'rrep 1 %d %s' % (n, ';'.join(map(show_row, rows))), 'rget 1 0'] + [put(k + 1, gen.pick_row(r, pools)) for k in range(4)] + ['rdel 1'], 'repeat')
    # long streams
    for n in ([200] if q else [500, 1500]):
        pg = gen.PlanGen(r, [INT32, STRING], ops=['filter', 'project'], n=2)
        pools = gen.row_pool(r, [INT32, STRING], 6)
        s.add(['rnew 1', 'rdec 1 ' + hexs(pg.code)] + [put(k + 1, gen.pick_row(r, pools)) for k in range(n)] + ['rget 1 0', 'rdel 1'], 'stream')


def r02(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    relational(s, 1100 if q else 11000, (1, 2), ['agg'], rows=10, distinct=4, getrate=0.08, wild=0.6, null=0.25, drain=0.2)
    relational(s, 500 if q else 5000, (1, 2), ['gagg'], rows=9, distinct=3, getrate=0.05, wild=0.5, null=0.25, drain=0.8)
    # all columns NULL; extreme sums; every aggregate on every type
    for _ in range(350 if q else 3000):
        cs = [r.choice(TYPES) for _ in range(r.randrange(1, 6))]
        aggs = []
        for i, t in enumerate(cs):
            for f in gen.AGGS:
                if t in gen.AGGS[f] and r.random() < 0.6:
                    aggs.append((f, t, i))
        r.shuffle(aggs)
        aggs.insert(r.randrange(len(aggs) + 1), ('count_all',))
        code = gen.enc_agg_op(aggs, r.random() < 0.5, r)
        p = r.choice([0.0, 0.2, 0.6, 1.0])
        cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
        for k in range(r.randrange(0, 9)):
            cmds.append(put(k + 1, [float_pair(r, t)[0] if t in (4, 5) and r.random() < 0.5 else int_pair(r, t)[0] if t in (1, 2) and r.random() < 0.7 else gen.rand_value(r, t, 0) if r.random() >= p else gen.NULL for t in cs]))
        s.add(cmds + ['rget 1 0', 'rget 1 0', 'rdel 1'], 'aggs')
    # long columns
    for n in ([150, 300] if q else [300, 1000, 3000]):
        for t in (1, 2, 4, 5):
            cs = [t, STRING]
            aggs = [('count_all',), ('sum', t, 0), ('max', t, 0), ('min', t, 0), ('count', t, 0), ('max', STRING, 1), ('min', STRING, 1)]
            s.add(['rnew 1', 'rdec 1 ' + hexs(gen.enc_agg_op(aggs))] + [put(k + 1, gen.rand_row(r, cs, 0.1)) for k in range(n)] + ['rget 1 0', 'rget 1 0', 'rdel 1'], 'long')
    # many rows: counts and sums beyond 8, 16 bits
    for n in [70000] + ([] if q else [200000]):
        cs = [INT32, INT64, STRING]
        aggs = [('count_all',), ('count', STRING, 2), ('sum', INT64, 1)]
        for code in (gen.enc_agg_op(aggs), gen.enc_gagg([2], aggs[:2] + [('sum', INT32, 0)])):
            rows = [[i32(30000), i64(2**40), string(b'a')], [i32(7), gen.NULL, gen.NULL]]
            s.add(['rnew 1', 'rdec 1 ' + hexs(code), 'rrep 1 %d %s' % (n // 2, ';'.join(map(show_row, rows))), 'rdrain 1', 'rget 1 0', 'rrep 1 3 ' + show_row(rows[0]), 'rdrain 1', 'rdel 1'], 'repeat')
    for n in [129, 257, 300, 1100]:
        for t in (1, 2, 4, 5):
            cs = [t, STRING]
            aggs = [('count_all',), ('count', t, 0), ('sum', t, 0), ('max', STRING, 1), ('min', t, 0)]
            rows = [gen.rand_row(r, cs, 0.3) for _ in range(5)]
            s.add(['rnew 1', 'rdec 1 ' + hexs(gen.enc_agg_op(aggs)), 'rrep 1 %d %s' % (n // 5 + 1, ';'.join(map(show_row, rows)))] + ['rget 1 0'] * 2 + ['rrep 1 2 ' + show_row(rows[0]), 'rget 1 0', 'rdel 1'], 'repeat')
    # many aggregates in a list
    for n in [1, 2, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] + ([] if q else [1000, 16384]):
        cs = [INT32, INT64, DOUBLE, STRING, BOOL, FLOAT]
        for grouped in (False, True):
            aggs = []
            for _ in range(n):
                i = r.randrange(6)
                f = r.choice([f for f in gen.AGGS if cs[i] in gen.AGGS[f]])
                aggs.append((f, cs[i], i) if r.random() < 0.95 else ('count_all',))
            code = gen.enc_gagg([3], aggs) if grouped else gen.enc_agg_op(aggs)
            pools = [[gen.rand_value(r, t, 0.2) for _ in range(3)] for t in cs]
            s.add(['rnew 1', 'rdec 1 ' + hexs(code)] + [put(k + 1, gen.pick_row(r, pools)) for k in range(5)] + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'list')
    # every aggregate beside every other one, on every column type
    kinds = [(f, t) for f in gen.AGGS for t in gen.AGGS[f]]
    cs = TYPES * 2
    for f, t in kinds:
        for g, u in kinds:
            i, j = TYPES.index(t), TYPES.index(u) + 6 * r.randrange(2)
            code = r.choice([gen.enc_agg_op, lambda a: gen.enc_gagg([], a)])([(f, t, i), (g, u, j), ('count_all',)][:r.choice([2, 3])])
            s.add(['rnew 1', 'rdec 1 ' + hexs(code)] + [put(k + 1, [gen.rand_value(r, x, 0.25) for x in cs]) for k in range(3)] + ['rget 1 0', 'rget 1 0', 'rdel 1'], 'beside')
    # orders of rows that matter: extremes come first, last, repeat, NULL in between
    for _ in range(400 if q else 4000):
        t = r.choice(NUMERIC + [STRING])
        vs = [order_pair(r, t)[0] for _ in range(3)] if r.random() < 0.5 else r.sample(EDGE[t], 3)
        rows = [[r.choice(vs + [gen.NULL])] for _ in range(r.randrange(2, 8))]
        aggs = [(f, t, 0) for f in ('min', 'max', 'count') + (('sum',) if t != STRING else ())]
        r.shuffle(aggs)
        s.add(['rnew 1', 'rdec 1 ' + hexs(gen.enc_agg_op(aggs))] + [put(k + 1, x) for k, x in enumerate(rows)] + ['rget 1 0', 'rget 1 0'] + [put(k + 21, x) for k, x in enumerate(rows[:2])] + ['rget 1 0', 'rdel 1'], 'order')
    # wide tuples: columns beyond 127
    for n in [129, 257, 300, 1000] + ([] if q else [16385, 40000]):
        idx = [i for i in (0, 126, 127, 128, 255, 256, 299, n - 1, n - 2) if i < n]
        aggs = [('sum', INT32, r.choice(idx)) for _ in range(3)] + [('max', INT32, n - 1)]
        for code in (gen.enc_agg_op(aggs), gen.enc_gagg([n - 1, 0, n - 1], aggs)):
            s.add(['rnew 1', 'rdec 1 ' + hexs(code)] + [put(k + 1, [i32(i + k) for i in range(n)]) for k in range(3)] + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'wide')
    # columns beyond any narrower number
    for f, t in (('sum', INT64), ('max', STRING), ('min', INT32), ('count', DOUBLE)):
        aggs = [(f, t, i) for i in FAR]
        for code in (gen.enc_agg_op(aggs), gen.enc_gagg(r.sample(FAR, 3) if t == INT32 else [], aggs)):
            rows = [far_row(r, t) for _ in range(2)]
            if f == 'count':
                for i in FAR:
                    if r.random() < 0.5:
                        rows[r.randrange(2)][i] = gen.NULL
            s.add(['rnew 1', 'rdec 1 ' + hexs(code)] + [put(k + 1, x) for k, x in enumerate(rows)] + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'far')
    n = 150
    cs = [INT32] * n
    for _ in range(2):
        aggs = [('sum', INT32, r.choice([0, 126, 127, 128, 129, 149])) for _ in range(4)]
        s.add(['rnew 1', 'rdec 1 ' + hexs(gen.enc_agg_op(aggs))] + [put(k + 1, [i32(i + k) for i in range(n)]) for k in range(3)] + ['rget 1 0', 'rdel 1'], 'wide')


def r03(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    relational(s, 900 if q else 9000, (1, 2), ['gagg'], rows=9, distinct=2, getrate=0.1, drain=0.5)
    # keys that are nearly equal
    near = {INT32: [i32(0), i32(1), i32(-1), i32(31), i32(65536), gen.NULL], INT64: [i64(0), i64(1), i64(2**32), i64(2**32 + 1), i64(-1), gen.NULL],
            BOOL: [gen.boolean(True), gen.boolean(False), gen.NULL],
            FLOAT: [gen.f32bits(0), gen.f32bits(0x80000000), gen.f32bits(1), gen.f32bits(0x7FC00000), gen.f32(1), gen.f32bits(0x3F800001), gen.NULL],
            DOUBLE: [gen.f64bits(0), gen.f64bits(1 << 63), gen.f64bits(1), gen.f64bits(0x7FF8 << 48), gen.f64(1), gen.NULL, gen.f64bits(0x3FF0000000000001)],
            STRING: [string(b) for b in (b'', b'\0', b'\0\0', b'a', b'A', b'a\0', b'a ', b' a', b'b', b'ab', b'\xff', b'ba')] + [gen.NULL]}
    for _ in range(700 if q else 7000):
        cs = [r.choice(TYPES) for _ in range(r.randrange(1, 5))]
        keys = [r.randrange(len(cs)) for _ in range(r.choice([1, 1, 2, 2, 3]))]
        small = {t: r.sample(near[t], min(len(near[t]), r.choice([2, 3, 4]))) for t in TYPES}
        code = gen.enc_gagg(keys, gen.rand_aggs(r, cs, most=3), r.random() < 0.5, r)
        cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
        for k in range(r.randrange(1, 14)):
            cmds.append(put(k + 1, [r.choice(small[t]) for t in cs]))
        s.add(cmds + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'near')
    # keys of different types in one column, and columns that swap their values
    for _ in range(200 if q else 2000):
        vals = [i32(1), i64(1), gen.boolean(True), gen.f32(1), gen.f64(1), string(b'1'), gen.NULL, i32(0), i64(0), gen.boolean(False), gen.f32(0), string(b''), string(b'\1\0\0\0')]
        vals = r.sample(vals, r.randrange(2, 7))
        code = gen.enc_gagg(r.choice([[0], [0, 1], [1, 0], [1], [0, 0]]), [('count_all',)])
        s.add(['rnew 1', 'rdec 1 ' + hexs(code)] + [put(k + 1, [r.choice(vals), r.choice(vals)]) for k in range(r.randrange(2, 16))] + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'mixed')
    # keys whose hashes collide
    for _ in range(300 if q else 3000):
        m = r.randrange(1, 4)
        ts = [r.choice([INT32, INT64, INT32, BOOL]) for _ in range(m)]
        vals = {INT32: [i32(x) for x in (0, 1, 2, 31, 30, 32, -31, 62, 961)], INT64: [i64(x) for x in (0, 1, 2, 31, 30, 32, -31, 62, 2**32, 2**63 - 1)], BOOL: [gen.boolean(False), gen.boolean(True)]}
        code = gen.enc_gagg([r.randrange(m) for _ in range(m)] if r.random() < 0.2 else r.sample(range(m), m), [('count_all',), ('count', ts[0], 0)])
        s.add(['rnew 1', 'rdec 1 ' + hexs(code)] + [put(k + 1, [r.choice(vals[t] + [gen.NULL] * (r.random() < 0.3)) for t in ts]) for k in range(r.randrange(4, 24))] + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'collide')
    # long keys that differ at one place, at different lengths; many key columns
    for n in SIZES + [1000] + ([] if q else [5000, 65536]):
        base = gen.rand_bytes(r, n, b'ab')
        keys = [base, base + b'\0', base[:-1], base[:-1] + b'c', b'c' + base[1:], base[:n // 2] + b'c' + base[n // 2 + 1:], base.upper()]
        s.add(['rnew 1', 'rdec 1 ' + hexs(gen.enc_gagg([0], [('count_all',), ('min', 7, 0)]))] + [put(k + 1, [string(r.choice(keys))]) for k in range(14)] + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'lkey')
    for n in [1, 2, 5, 8, 9, 16, 17, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]:
        row = [gen.rand_value(r, r.choice([1, 2, 3, 7]), 0.1) for _ in range(n)]
        rows = [row]
        for _ in range(3):
            x = list(row)
            i = r.choice([0, n - 1, r.randrange(n)])
            x[i] = gen.NULL if x[i][0] else i32(0)
            rows.append(x)
        idx = list(range(n))
        r.shuffle(idx)
        s.add(['rnew 1', 'rdec 1 ' + hexs(gen.enc_gagg(idx, [('count_all',)]))] + [put(k + 1, r.choice(rows)) for k in range(9)] + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'kcols')
    # key columns beyond any narrower number: what is at the narrower one differs, or is the same
    for i in (127, 128, 255, 256, 383, 16384, 32768, 33000, 65536, 65663, 65792):
        n = i + 8 if i < 60000 else WIDTH
        a = far_row(r, INT32, n)
        other = [x for x in FAR if x < n and x != i]
        b = list(a)
        for x in other:
            b[x] = i32(-1 - x)         # another tuple of the same key
        c = list(a)
        c[i] = i32(-5)                 # the same tuple with another key
        s.add(['rnew 1', 'rdec 1 ' + hexs(gen.enc_gagg([i], [('count_all',)]))] + [put(k + 1, x) for k, x in enumerate((a, b, c))] + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'far')
    # a key column that is aggregated, too; the same column twice; no key
    for _ in range(200 if q else 2000):
        cs = [r.choice(TYPES) for _ in range(r.randrange(1, 4))]
        idx = [r.randrange(len(cs)) for _ in range(r.choice([0, 1, 2, 2, 4]))]
        aggs = [(f, cs[i], i) for i in range(len(cs)) for f in gen.AGGS if cs[i] in gen.AGGS[f] and r.random() < 0.5]
        pools = gen.row_pool(r, cs, 2, 0.2)
        s.add(['rnew 1', 'rdec 1 ' + hexs(gen.enc_gagg(idx, aggs))] + [put(k + 1, gen.pick_row(r, pools)) for k in range(r.randrange(1, 10))] + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'both')
    large_groups(s, [20, 65, 130, 300, 1100] if q else [20, 65, 130, 300, 600, 1200], 2 if q else 3)
    rel_cases(s, cases, 150 if q else 3000, lambda c: c['code'][0] == 0x73)


def r04(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    relational(s, 1100 if q else 11000, (2, 6), rows=7, distinct=2, drain=0.3, getrate=0.2)
    relational(s, 500 if q else 5000, (2, 6), ['filter', 'project', 'gagg', 'gagg', 'agg'], rows=14, distinct=4, order=False, getrate=0.05)
    relational(s, 250 if q else 2500, (3, 5), ['filter', 'filter', 'gagg', 'agg'], rows=7, distinct=3, wild=0.05)
    rel_cases(s, cases, 500 if q else 10000, lambda c: len(c['code']) > 12)
    # long chains
    for n in [10, 30, 60] + ([] if q else [150, 300]):
        for _ in range(2):
            code = b''
            for i in range(n):
                k = r.random()
                if k < 0.4:
                    code += gen.enc_filter(var(1, 0) + const(i32(r.randrange(-3, 3 + n))) + op(r.choice(['le', 'ge', 'ne', 'ne', 'ne']), 1)) if r.random() < 0.3 else gen.enc_filter(b'\x13')
                else:
                    code += gen.enc_project(var(1, 0) + const(i32(r.randrange(1, 4))) + op(r.choice(['add', 'sub']), 1) + var(7, 1))
            if r.random() < 0.5:
                code += gen.enc_gagg([0], [('count_all',), ('min', 7, 1)])
            s.add(['rnew 1', 'rdec 1 ' + hexs(code)] + [put(k + 1, [i32(r.randrange(-2, 3)), string(b'%d' % k)]) for k in range(6)] + ['rdrain 1', 'rdel 1'], 'chain')
    # very many pending groups into a second aggregation
    for n in [260, 1100] + ([] if q else [2100]):
        first = gen.enc_gagg([0], [('count_all',), ('sum', 2, 1)])
        for t in (gen.enc_agg_op([('count_all',), ('sum', 2, 1), ('max', 1, 0)]), gen.enc_gagg([1], [('count_all',), ('max', 1, 0)])):
            s.add(['rnew 1', 'rdec 1 ' + hexs(first + t)] + ['rrep 1 1 ' + ';'.join(show_row([i32(k % n), i64(k % 3)]) for k in range(n + n // 7)), 'rdrain 1', 'rget 1 0', 'rdel 1'], 'pending')
    # many operators of every kind
    for n in [5, 9, 17, 33, 65, 129, 257] + ([] if q else [513, 1025]):
        for _ in range(2):
            code = b''
            for i in range(n):
                k = r.random()
                code += gen.enc_filter(var(2, 1) + const(i64(r.randrange(-2, 1))) + op('ge', 2)) if k < 0.3 else gen.enc_project(var(1, 0) + var(2, 1)) if k < 0.6 else gen.enc_gagg([0], [('sum', 2, 1)]) if k < 0.8 else \
                    gen.enc_project(var(2, 1) + cast(1, 2) + var(1, 0) + cast(2, 1))
            cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
            for k in range(1, 9):
                cmds.append(put(k, [i32(r.randrange(3)), i64(r.randrange(-1, 4))]) if r.random() < 0.8 else 'rdrain 1')
            s.add(cmds + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'mixed')
    # many groups through filters that drop long runs
    for n in [40, 100, 300] + ([] if q else [300]):
        for f in (gen.enc_filter(var(2, 1) + const(i64(1)) + op('gt', 2)), gen.enc_filter(b'\x23'), gen.enc_filter(var(1, 0) + const(i32(n - 2)) + op('ge', 1))):
            for t in (b'', gen.enc_agg_op([('count_all',), ('sum', 2, 1)]), gen.enc_gagg([1], [('count_all',)])):
                code = gen.enc_gagg([0], [('count_all',)]) + f + t
                s.add(['rnew 1', 'rdec 1 ' + hexs(code)] + [put(k + 1, [i32(k % n if k < n else r.randrange(n))]) for k in range(n + n // 5)] + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'runs')


def r05(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    for _ in range(1500 if q else 15000):
        cs = gen.rand_cols(r, r.randrange(1, 5))
        plans = [gen.PlanGen(r, cs, fail=0.25).code for _ in range(3)]
        if r.random() < 0.35:
            plans[0] = gen.PlanGen(r, cs, ops=['filter', 'project'], n=r.randrange(1, 4), fail=0.3).code
        pools = gen.row_pool(r, cs, 2)
        cmds = ['rnew 1', 'rdec 1 ' + hexs(plans[0])]
        handles = []
        alive = True
        ok = True
        for k in range(1, r.randrange(3, 16)):
            x = r.random()
            if not alive:
                if handles and x < 0.7:
                    cmds.append('%s %d' % ('oget' if x < 0.45 else 'odel', r.choice(handles)))
                continue
            if x < 0.55 and ok:
                row = gen.pick_row(r, pools)
                if r.random() < 0.08:
                    row = gen.rand_row(r, [r.choice(TYPES) for _ in cs])      # of the wrong types
                h = k if r.random() < 0.4 else 0
                cmds.append(put(k, row, h))
                if h:
                    handles.append(h)
            elif x < 0.75 and ok:
                h = 100 + k if r.random() < 0.4 else 0
                cmds.append('rget 1 %d' % h)
                if h:
                    handles.append(h)
            elif x < 0.78 and handles:
                cmds.append('%s %d' % (r.choice(['oget', 'oget', 'odel']), r.choice(handles)))
            elif x < 0.82:
                cmds.append('rdec 1 ' + hexs(r.choice(plans)))
                ok = True
            elif x < 0.9:
                cmds.append('rdec 1 ' + hexs(mutate(r, r.choice(plans), PLANBYTES)))
                cmds.append('rdec 1 ' + hexs(r.choice(plans)))
            elif x < 0.93:
                cmds.append('rdel 1')
                alive = False
        if alive and r.random() < 0.8:
            cmds.append('rdel 1')
        s.add(cmds, 'own', end=True)
    # rows kept by the caller
    for _ in range(500 if q else 5000):
        cs = gen.rand_cols(r, r.randrange(1, 4))
        code = gen.PlanGen(r, cs, ops=['filter', 'project', 'project'] if r.random() < 0.6 else None, n=r.randrange(1, 4), depth=1).code
        # a condition that lets most rows through
        if r.random() < 0.5:
            code = gen.enc_filter(b'\x13') + code
        pools = gen.row_pool(r, cs, 3)
        cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
        n = r.randrange(2, 9)
        for k in range(1, n):
            cmds.append('rput 1 %d %s %d' % (k, show_row(gen.pick_row(r, pools)), k))
            if r.random() < 0.3:
                cmds.append('rget 1 %d' % (100 + k))
            if r.random() < 0.3:
                cmds.append('%s %d' % (r.choice(['oget', 'oget', 'odel']), r.choice([0, 0, 100]) + r.randrange(1, k + 1)))
        if r.random() < 0.3:
            cmds += ['rdec 1 ' + hexs(gen.PlanGen(r, cs, n=r.randrange(1, 3)).code)]
        if r.random() < 0.8:
            cmds += ['rdel 1']
        back = ['oget %d' % (k + b) for k in range(1, n) for b in (0, 100)]
        s.add(cmds + sample(r, back, 5) + (['odel %d' % k for k in range(1, n)] if r.random() < 0.5 else []), 'keep', end=True)
    # rows from one plan into another one
    for _ in range(500 if q else 5000):
        cs = gen.rand_cols(r, r.randrange(1, 4))
        p1 = gen.PlanGen(r, cs, ops=['filter', 'project', 'project'] if r.random() < 0.7 else None, n=r.randrange(1, 3), depth=1)
        p2 = gen.PlanGen(r, p1.cols, n=r.randrange(1, 4), fail=0.15, ordered=True)
        pools = gen.row_pool(r, cs, 3)
        same = r.random() < 0.2 and p1.cols == cs       # back into the same plan
        cmds = ['rnew 1', 'rdec 1 ' + hexs(p1.code)] + ([] if same else ['rnew 2', 'rdec 2 ' + hexs(p2.code)])
        kept, alive = [], True
        for k in range(1, r.randrange(3, 12)):
            if alive:
                if r.random() < 0.75:
                    cmds.append(put(k, gen.pick_row(r, pools), k))
                else:
                    cmds.append('rget 1 %d' % k)
                kept.append(k)
            if kept and r.random() < 0.6:
                j = r.choice(kept)
                kept.remove(j)
                cmds.append('rpass %d %d %d %d' % (1 if same else 2, 50 + k, j, 200 + k if r.random() < 0.3 else 0))
            if alive and not same and r.random() < 0.06:
                cmds.append('rdel 1')
                alive = False
            if not same and r.random() < 0.15:
                cmds.append('rget 2 0')
        if not same:
            cmds += ['rdrain 2'] + ['rdel 2'] * (r.random() < 0.5)
        s.add(cmds + ['oget %d' % k for k in kept[:2]], 'pass', end=True)
    # many rows, many results, wide rows: nothing is left over
    for n in [20, 130, 300] + ([] if q else [1100]):
        for code in (gen.enc_gagg([0], [('count_all',), ('max', 7, 1)]), gen.enc_filter(var(1, 0) + const(i32(3)) + op('mod', 1) + const(i32(0)) + op('ne', 1)), gen.enc_project(var(7, 1) + var(7, 1) + fun(33) + var(1, 0)),
                     gen.enc_gagg([1, 0], [('min', 7, 1)]) + gen.enc_gagg([1], [('count_all',)]), gen.enc_gagg([0], [('count_all',)]) + gen.enc_filter(var(1, 0) + const(i32(n // 2)) + op('lt', 1))):
            # which of the groups that are filtered out have been dropped is not known after a fetch
            drops = len(code) > 9 and code[:1] == b'\x73' and b'\x71' in code
            cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
            keep = []
            for k in range(1, n):
                h = k if r.random() < 0.3 else 0
                cmds.append(put(k, [i32(k % r.choice([n, 7])), string(b'text that is not short %d' % k)], h))
                if h:
                    keep.append(h)
            cmds += ['rget 1 %d' % (1000 + k) for k in range(r.randrange(0, 6) if not drops else r.randrange(0, 2) if n == 20 else 0)]
            cmds += r.choice([['rdel 1'], ['rdec 1 ' + hexs(code)], ['rdec 1 71ff', 'rdel 1'], ['rdrain 1', 'rdel 1'], []])
            s.add(cmds + ['oget %d' % k for k in sample(r, keep, 10)] + ['oget 1000', 'oget 1002'], 'much', end=True)
    rel_cases(s, cases, 300 if q else 5000, end=True)


def r06(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    rel_cases(s, cases, 900 if q else 20000, lambda c: c['code'][0] in (0x73, 0x74) or b'\x73' in bytes(c['code']))
    relational(s, 700 if q else 7000, (1, 4), ['gagg', 'gagg', 'agg', 'filter', 'project'], rows=16, distinct=2, getrate=0.45, wild=0.1)
    # several rounds
    for _ in range(250 if q else 2500):
        cs = [r.choice(TYPES) for _ in range(r.randrange(1, 4))]
        pg = gen.PlanGen(r, cs, ops=['gagg', 'agg', 'gagg', 'filter'], n=r.choice([1, 1, 2]), ordered=True)
        pools = gen.row_pool(r, cs, 3, wild=0.1)
        cmds = ['rnew 1', 'rdec 1 ' + hexs(pg.code)]
        k = 0
        for _ in range(r.randrange(2, 5)):
            for _ in range(r.randrange(0, 6)):
                k += 1
                cmds.append(put(k, gen.pick_row(r, pools)))
            cmds += ['rdrain 1'] + ['rget 1 0'] * r.randrange(0, 3)
            if r.random() < 0.25:
                for _ in range(2):
                    k += 1
                    cmds.append(put(k, gen.pick_row(r, pools)))
                cmds.append('rdec 1 ' + hexs(pg.code))
                cmds.append('rget 1 0')
        s.add(cmds + ['rdel 1'], 'rounds')
    # plans of the same length take turns in one runner
    for _ in range(60 if q else 600):
        def twin():
            return (gen.enc_filter(var(1, r.randrange(2)) + const(i32(r.randrange(8))) + op(r.choice(['lt', 'gt', 'ne']), 1)) +
                    r.choice([gen.enc_gagg([r.randrange(2)], [('count_all',), ('sum', 1, r.randrange(2))]), gen.enc_gagg([r.randrange(2)], [('count_all',), ('max', 1, r.randrange(2))])]))

        progs = [twin() for _ in range(2)]
        cmds = ['rnew 1']
        k = 0
        for _ in range(4):
            cmds.append('rdec 1 ' + hexs(r.choice(progs)))
            for _ in range(r.randrange(0, 6)):
                k += 1
                cmds.append(put(k, [i32(r.randrange(8)), i32(r.randrange(3))]))
            cmds.append(r.choice(['rdrain 1', 'rget 1 0', 'rget 1 0']))
        s.add(cmds + ['rdrain 1', 'rdel 1'], 'twin')
    # very many rounds
    for n in [300] + ([] if q else [1100]):
        for code, drain in ((gen.enc_agg_op([('count_all',), ('sum', 1, 0)]), False), (gen.enc_gagg([1], [('count_all',), ('sum', 1, 0)]), True), (gen.enc_gagg([1], [('sum', 1, 0)]) + gen.enc_agg_op([('count_all',)]), False)):
            cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
            k = 0
            for i in range(n):
                for _ in range(r.choice([0, 1, 1, 2])):
                    k += 1
                    cmds.append(put(k, [i32(i % 11), string(r.choice([b'a', b'b', b'a']))]))
                cmds.append('rdrain 1' if drain and r.random() < 0.9 else 'rget 1 0')
            s.add(cmds + ['rdrain 1', 'rdel 1'], 'round')
    # the same group again and again; groups handed out and coming back
    for _ in range(300 if q else 3000):
        t = r.choice([INT32, STRING, INT64, BOOL])
        keys = EDGE[t][:2] if t != STRING else [string(b'k'), string(b'')]
        keys += [gen.NULL] if r.random() < 0.3 else []
        code = gen.enc_gagg([0], [('count_all',), ('sum', 2, 1), ('min', 2, 1)][:r.randrange(1, 4)])
        code += r.choice([b'', b'', gen.enc_filter(b'\x13'), gen.enc_project(var(2, 1) + var(t, 0)), gen.enc_gagg([1], [('count_all',)]), gen.enc_agg_op([('count_all',)])])
        cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
        for k in range(1, r.randrange(5, 20)):
            cmds.append(put(k, [r.choice(keys), i64(k)]) if r.random() < 0.55 else 'rget 1 0')
        s.add(cmds + ['rdrain 1'] + ['rget 1 0'] * 2 + [put(50, [keys[0], i64(5)]), 'rget 1 0', 'rget 1 0', 'rdel 1'], 'again')
    # many groups, fetched in part, then more rows
    for n in [20, 40] + ([] if q else [80]):
        for _ in range(3):
            cmds = ['rnew 1', 'rdec 1 ' + hexs(gen.enc_gagg([0], [('count_all',), ('sum', 2, 1)]))]
            k = 0
            for _ in range(3):
                for i in range(n):
                    k += 1
                    cmds.append(put(k, [i32(r.randrange(n)), i64(k)]))
                cmds += ['rget 1 0'] * r.randrange(1, n // 2)
            s.add(cmds + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'part')


def r07(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    rel_cases(s, cases, 500 if q else 10000, lambda c: 0xFC in c['code'])
    relational(s, 900 if q else 9000, (1, 5), rows=10, distinct=3, fail=0.5, wild=0.6, cols=lambda r: [r.choice([1, 2, 5, 7, 7, 2]) for _ in range(r.randrange(1, 4))])
    relational(s, 400 if q else 4000, (2, 5), ['project', 'gagg', 'gagg', 'agg', 'filter'], rows=12, distinct=3, fail=0.5, wild=0.5, order=False, cols=lambda r: [r.choice([1, 2, 7, 2]) for _ in range(r.randrange(1, 4))])
    # many failures, then rows that are good
    for n in [50, 300, 1100] + ([] if q else [5000]):
        for code in (gen.enc_filter(var(2, 1) + cast(1, 2, True) + const(i32(2)) + op('ne', 1)), gen.enc_project(var(2, 1) + cast(1, 2, True) + var(1, 0)), gen.enc_project(var(1, 0) + var(2, 1) + var(2, 1) + cast(1, 2, True)) + gen.enc_gagg([0], [('sum', 2, 1)]),
                     gen.enc_filter(var(2, 1) + cast(1, 2, True) + op('is_true', 1)) + gen.enc_agg_op([('count_all',), ('sum', 2, 1)])):
            s.add(['rnew 1', 'rdec 1 ' + hexs(code)] + [put(k, [i32(k), i64(k)]) for k in range(1, 4)] + ['rrep 1 %d %s' % (n, show_row([i32(1), i64(2**40)]))] + [put(k, [i32(k), i64(k)]) for k in range(5, 9)] +
                  ['rrep 1 %d %s;%s' % (n, show_row([i32(1), i64(2**40)]), show_row([i32(1), i64(3)])), 'rdrain 1', 'rget 1 0', 'rdel 1'], 'many')
    # a failure at every place of a program, with results in front of it
    for _ in range(300 if q else 3000):
        cs = [INT32, INT64, STRING, DOUBLE]
        c = gen.Ctx(r, cs)
        pre = b''.join(gen.expr(c, r.choice(TYPES), 2) for _ in range(r.randrange(0, 4)))
        post = b''.join(gen.expr(c, r.choice(TYPES), 1) for _ in range(r.randrange(0, 3)))
        bad = r.choice([var(2, 1) + cast(1, 2, True), var(7, 2) + cast(1, 7), var(7, 2) + cast(2, 7), var(5, 3) + cast(1, 5, True), var(5, 3) + cast(2, 5, True), var(1, 0) + op('abs_c', 1), var(2, 1) + op('abs_c', 2), var(7, 2) + cast(4, 7), var(7, 2) + cast(5, 7)])
        code = gen.enc_project(pre + bad + post) if r.random() < 0.6 else gen.enc_filter(pre + bad + post + b'\x13')
        code += r.choice([b'', b'', gen.enc_gagg([0], [('count_all',)]), gen.enc_agg_op([('count_all',)])])
        rows = [[i32(1), i64(1), string(b'1'), gen.f64(1.5)], [i32(-2**31), i64(2**40), string(b'99999999999999999999'), gen.f64(1e30)], [gen.NULL] * 4, [i32(2), i64(-2**63), string(b'1e999'), gen.f64bits(0x7FF8 << 48)]]
        cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
        for k in range(1, r.randrange(4, 10)):
            cmds.append(put(k, r.choice(rows)))
            if r.random() < 0.15:
                cmds.append('rget 1 0')
        s.add(cmds + ['rdrain 1', 'rget 1 0', 'rdel 1'], 'place')
    # failures in the middle of fetching
    big = i64(2**40)
    for _ in range(300 if q else 3000):
        fail = gen.enc_project(var(1, 0) + var(2, 1) + cast(1, 2, True) + cast(2, 1)) if r.random() < 0.5 else gen.enc_filter(var(2, 1) + cast(1, 2, True) + const(i32(2)) + op(r.choice(['ne', 'gt', 'le']), 1))
        code = gen.enc_gagg([0], [('sum', 2, 1)]) + fail
        if r.random() < 0.6:
            code += r.choice([gen.enc_gagg([1], [('count_all',)]), gen.enc_agg_op([('count_all',), ('max', 2, 1)]), gen.enc_gagg([0], [('max', 2, 1)]), gen.enc_filter(b'\x13')])
        cmds = ['rnew 1', 'rdec 1 ' + hexs(code)]
        k = 0
        for _ in range(r.randrange(1, 12)):
            k += 1
            cmds.append(put(k, [i32(r.randrange(5)), r.choice([big, i64(-2**40), i64(1), i64(2), i64(3), gen.NULL])]))
            if r.random() < 0.15:
                cmds.append('rget 1 0')
        s.add(cmds + (['rdrain 1'] if r.random() < 0.5 else ['rget 1 0'] * 7) + ['rdel 1'], 'mid')


def rename(cmds, x, p, h, rid, t):
    """The same commands on other objects."""
    out = []
    for c in cmds:
        a = c.split(' ')
        if a[0] in ('xnew', 'xdel', 'xdec', 'xrun', 'xrep', 'xtype', 'xget', 'xall', 'xopt'):
            a[1] = str(int(a[1]) + x)
        elif a[0] == 'xbind':
            a[1] = str(int(a[1]) + x)
            a[2] = str(int(a[2]) + t) if a[2] != '0' else '0'
        elif a[0] in ('tset', 'tdel', 'tget'):
            a[1] = str(int(a[1]) + t)
        elif a[0] in ('rnew', 'rdel', 'rdec', 'rget', 'rrep', 'rdrain'):
            a[1] = str(int(a[1]) + p)
            if a[0] == 'rget' and a[2] != '0':
                a[2] = str(int(a[2]) + h)
        elif a[0] == 'rput':
            a[1] = str(int(a[1]) + p)
            a[2] = str(int(a[2]) + rid)
            if a[4] != '0':
                a[4] = str(int(a[4]) + h)
        elif a[0] == 'rpass':
            a[1] = str(int(a[1]) + p)
            a[2] = str(int(a[2]) + rid)
            a[3] = str(int(a[3]) + h)
            if a[4] != '0':
                a[4] = str(int(a[4]) + h)
        elif a[0] in ('oget', 'odel'):
            a[1] = str(int(a[1]) + h)
        out.append(' '.join(a))
    return out


def interleave(r, seqs):
    seqs = [list(q) for q in seqs]
    out = []
    while any(seqs):
        q = r.choice([q for q in seqs if q])
        for _ in range(r.choice([1, 1, 2, 3])):
            if q:
                out.append(q.pop(0))
    return out


def r08(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    t = Scenarios(r)
    relational(t, 300 if q else 3000, (1, 4), rows=6, fail=0.1, handles=0)
    u = Scenarios(r)
    hist(u, 300 if q else 3000)
    pool = [c for _, c in t.all] + [c for _, c in u.all]
    # one object goes away while the other one, of the same program, goes on; many at the same time
    for _ in range(200 if q else 2000):
        cols = gen.rand_cols(r, r.randrange(1, 4))
        c = gen.Ctx(r, cols, long=True)
        code = b''.join(gen.expr(c, r.choice(TYPES), 2) for _ in range(2))
        rows = [show_row(gen.rand_row(r, cols, 0.1, True)) for _ in range(3)]
        n = r.choice([2, 3, 9])
        cmds = ['tset 1 ' + rows[0], 'tset 2 ' + rows[1]]
        alive = set()
        for i in range(r.randrange(8, 30)):
            x = r.randrange(1, n + 1)
            if x not in alive:
                cmds += ['xnew %d' % x, 'xdec %d %s' % (x, hexs(code)), 'xbind %d %d' % (x, r.choice([1, 2])), 'xrun %d' % x]
                alive.add(x)
            elif r.random() < 0.25:
                cmds.append('xdel %d' % x)
                alive.discard(x)
            elif r.random() < 0.2:
                cmds += ['xbind %d %d' % (x, r.choice([1, 2])), 'xrun %d' % x]
            elif r.random() < 0.15:
                cmds += ['tset %d %s' % (r.choice([1, 2]), r.choice(rows))]
            elif r.random() < 0.15:
                cmds += ['xrun %d' % x]
            else:
                cmds.append('xall %d' % x)
        s.add(cmds + ['xall %d' % x for x in sorted(alive)], 'twins')
    for _ in range(200 if q else 2000):
        cs = [r.choice([INT32, STRING, INT64]) for _ in range(r.randrange(1, 3))]
        pg = gen.PlanGen(r, cs, n=r.randrange(1, 3), ordered=True)
        pools = gen.row_pool(r, cs, 2)
        n = r.choice([2, 3, 9])
        cmds, alive, k = [], set(), 0
        for i in range(r.randrange(8, 30)):
            p = r.randrange(1, n + 1)
            k += 1
            if p not in alive:
                cmds += ['rnew %d' % p, 'rdec %d %s' % (p, hexs(pg.code))]
                alive.add(p)
            elif r.random() < 0.12:
                cmds.append('rdel %d' % p)
                alive.discard(p)
            elif r.random() < 0.2:
                cmds.append('rdrain %d' % p)
            else:
                cmds.append(put(k, gen.pick_row(r, pools), k if r.random() < 0.2 else 0, p))
        s.add(cmds + ['rdrain %d' % p for p in sorted(alive)], 'twinp')
    # very many at the same time
    for n, kind in [(20, None), (70, None), (150, None), (300, 0), (300, 1), (300, 2), (300, 3)] + ([] if q else [(1100, k) for k in range(4)] + [(4200, 1)]):
        plans = [(gen.enc_agg_op([('sum', INT32, 0), ('count_all',), ('max', STRING, 1)]), True), (gen.enc_gagg([0], [('count_all',), ('min', STRING, 1)]), True),
                 (gen.enc_filter(var(1, 0) + const(i32(3)) + op('ge', 1)) + gen.enc_project(var(7, 1) + var(1, 0) + const(i32(2)) + op('mul', 1)), False), (gen.enc_project(var(7, 1) + fun(0x22)) + gen.enc_agg_op([('max', STRING, 0)]), True)]
        cmds, k = [], 0
        ids = list(range(1, n + 1))
        for p in ids:
            cmds += ['rnew %d' % p, 'rdec %d %s' % (p, hexs((r.choice(plans) if kind is None else plans[kind])[0]))]
        for _ in range(2):
            r.shuffle(ids)
            for p in ids:
                k += 1
                cmds.append(put(k, [i32(r.randrange(8)), string(b'Row %d' % k)], 0, p))
        r.shuffle(ids)
        for p in ids[:n // 2]:
            cmds += ['rdrain %d' % p] + (['rdel %d' % p] if r.random() < 0.5 else [])
        gone = {int(c.split()[1]) for c in cmds if c.startswith('rdel')}
        for p in ids:
            if p not in gone:
                k += 1
                cmds += [put(k, [i32(k % 8), string(b'again')], 0, p), 'rdrain %d' % p]
        s.add(cmds, 'manyp')
        if kind:
            continue
        codes = [var(1, 0) + const(i32(k)) + op('add', 1) + var(7, 1) + fun(0x22) for k in range(5)]
        cmds = []
        for x in (1, 2, 3):
            cmds.append('tset %d %s' % (x, show_row([i32(x), string(b'Tuple %d' % x)])))
        for x in ids:
            cmds += ['xnew %d' % x, 'xdec %d %s' % (x, hexs(r.choice(codes))), 'xbind %d %d' % (x, r.randrange(1, 4))] + (['xrun %d' % x] if r.random() < 0.5 else [])
        r.shuffle(ids)
        for x in ids:
            cmds += ['xrun %d' % x]
        r.shuffle(ids)
        for x in ids:
            cmds += ['xall %d' % x] + (['xdel %d' % x] if r.random() < 0.3 else [])
        s.add(cmds, 'manyx')
    for _ in range(450 if q else 4500):
        k = r.choice([2, 2, 3, 4])
        parts = r.sample(pool, k)
        if r.random() < 0.4:
            parts[1] = parts[0]            # the same thing twice
        s.add(interleave(r, [rename(c, 10 * i, 10 * i, 1000 * i, 1000 * i, 10 * i) for i, c in enumerate(parts)]), 'alt')


def hist(s, n):
    """Runner histories for interleaving."""
    r = s.r
    for _ in range(n):
        cols = gen.rand_cols(r, r.randrange(1, 5))
        c = gen.Ctx(r, cols, long=True)
        code = b''.join(gen.expr(c, r.choice(TYPES), r.randrange(1, 4)) for _ in range(r.choice([1, 2])))
        rows = [show_row(gen.rand_row(r, cols)) for _ in range(3)]
        cmds = ['xnew 1', 'xdec 1 ' + hexs(code), 'tset 1 ' + rows[0], 'xbind 1 1']
        for row in rows:
            cmds += ['tset 1 ' + row, 'xrun 1', 'xall 1', 'xget 1', 'xtype 1']
        if r.random() < 0.5:
            cmds += ['xdec 1 ' + hexs(gen.expr(c, r.choice(TYPES), 2)), 'xrun 1', 'xall 1']
        if r.random() < 0.5:
            cmds += ['xdec 1 ' + hexs(mutate(r, code, OPCODES))]
        s.add(cmds + ['xdel 1'], 'h')


def r08_threads(s, tier, cases):
    """For several threads at the same time; the same programs in all of them."""
    r = s.r
    q = tier == 'quick'
    t = Scenarios(r)
    relational(t, 40 if q else 300, (1, 4), rows=8, fail=0.1, handles=0)
    hist(t, 40 if q else 300)
    for sid, c in t.all:
        for k in range(8):
            s.add(c, 'th')
    # every operator in all threads
    ops = list(gen.OPERATORS)
    r.shuffle(ops)
    for i in range(0, len(ops), 6):
        per = []
        for o in ops[i:i + 6]:
            for _ in range(3):
                row = [value_for(r, o, j) for j in range(len(o[1]))]
                per.append(ev(b''.join(var(t, j) for j, t in enumerate(o[1])) + o[0], row))
        for k in range(8):
            p = list(per)
            r.shuffle(p)
            s.add(p, 'to')
    evs = [case_ev(c) for c in sample(r, [c for c in cases if c['g'] in ('cast', 'math', 'text', 'checked', 'logic', 'int', 'float', 'order')], 1200 if q else 10000)]
    for i in range(0, len(evs), 25):
        for k in range(2):
            s.add(evs[i:i + 25], 'tg')


def u01(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    edge = [gen.NULL] + [i32(x) for x in (0, 1, -1, 2**31 - 1, -2**31)] + [i64(x) for x in (0, 1, -1, 2**63 - 1, -2**63, 2**32)] + [gen.boolean(False), gen.boolean(True)] + \
        [gen.f32bits(x) for x in (0, 0x80000000, 0x3F800000, 0x7FC00000, 0x7F800000, 1)] + [gen.f64bits(x) for x in (0, 1 << 63, 0x3FF << 52, 0x7FF8 << 48, 0x7FF << 52, 1)] + \
        [string(b) for b in (b'', b'\0', b'a', b'b', b'ab', b'a\0', b'a\0b', b'1', b'\xff', b'abcdefghijklmnopqrstuvwxyz0123456789', b'abcdefghijklmnopqrstuvwxyz0123456788')]
    cmds = ['ueq %s %s' % (show(a), show(b)) for a in edge for b in edge] + ['ueq %s =' % show(a) for a in edge]
    for _ in range(1500 if q else 15000):
        t = r.choice(TYPES)
        a, b = order_pair(r, t)
        if r.random() < 0.2:
            b = gen.rand_value(r, r.choice(TYPES), 0.1)
        cmds.append('ueq %s %s' % (show(a), show(b)))
        if r.random() < 0.1:
            cmds.append('ueq %s =' % show(a))

    def tup(long=True):
        return [gen.rand_value(r, r.choice(TYPES), 0.2, long) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6, 9, 20]))]

    for _ in range(1500 if q else 15000):
        a = tup()
        k = r.random()
        b = list(a)
        if k < 0.3 and b:
            i = r.randrange(len(b))
            b[i] = r.choice([gen.NULL, r.choice(edge), order_pair(r, b[i][0])[1] if b[i][0] else gen.NULL])
        elif k < 0.4:
            b = b[:-1]
        elif k < 0.5:
            r.shuffle(b)
        elif k < 0.6:
            b = tup()
        cmds.append('utup %s %s' % (show_row(a), show_row(b)))
    for _ in range(1000 if q else 10000):
        a, b = tup(), tup()
        cmds.append('ucat %s %s' % (show_row(a), show_row(b)))
        if a:
            idx = [r.randrange(len(a)) for _ in range(r.choice([0, 1, 2, len(a), len(a) + 3]))]
            cmds.append('umap %s %s' % (show_row(a), ','.join(map(str, idx)) or '-'))
    for t in TYPES:
        for v in edge:
            cmds.append('uany %d %s' % (t, show(v)))
        for _ in range(150 if q else 1500):
            cmds.append('uany %d %s' % (t, show(gen.rand_value(r, t, 0.1, True))))
    for n in list(range(256)):
        cmds.append('uhex %02x' % n)
        if n < 128:
            cmds.append('unib %d' % n)
    cmds.append('uhex -')
    for _ in range(300 if q else 3000):
        cmds.append('uhex ' + hexs(gen.rand_bytes(r, r.choice([1, 2, 3, 7, 8, 9, 16, 33, 64, 100, 300]))))
    r.shuffle(cmds)
    s.pack(cmds, 'u', 30)
    # optional values of results
    for _ in range(250 if q else 2500):
        cols = gen.rand_cols(r, 4)
        c = gen.Ctx(r, cols)
        t = r.choice(TYPES)
        x = ['xnew 1', 'xdec 1 ' + hexs(gen.expr(c, t, 2)), 'tset 1 ' + show_row(gen.rand_row(r, cols, 0.2)), 'xbind 1 1', 'xrun 1'] + ['xopt 1 %d' % y for y in TYPES]
        s.add(x, 'opt')
    # the same object on both sides; long strings that differ at one place
    for _ in range(150 if q else 1500):
        a = tup()
        cmds2 = ['ucat %s %s =' % (show_row(a), show_row(a)), 'ucat %s %s' % (show_row(a), show_row(a)), 'ucat %s -' % show_row(a), 'ucat - %s' % show_row(a)]
        s.add(cmds2, 'self')
    big = []
    for n in SIZES + [1000, 4096]:
        base = gen.rand_bytes(r, n, r.choice([None, b'ab', b'\0']))
        for k in sorted({0, n - 1, n // 2, max(0, n - 2)}):
            b = bytearray(base)
            b[k] ^= r.choice([1, 32, 128])
            for y in (bytes(b), base[:k], base + b'\0', base):
                big.append('ueq %s %s' % (show(string(base)), show(string(y))))
                big.append('utup %s %s' % (show_row([i32(1), string(base)]), show_row([i32(1), string(y)])))
        big.append('uany 7 ' + show(string(base)))
    s.pack(big, 'big', 30)
    ints = [gen.NULL] + [i32(x) for x in (0, 1, 2, 31, -31, 30)] + [i64(x) for x in (0, 1, 2, 31)] + [gen.boolean(False), gen.boolean(True), string(b''), string(b'1')]
    s.pack(['utup %s %s' % (show_row([r.choice(ints) for _ in range(n)]), show_row([r.choice(ints) for _ in range(n)])) for n in (1, 2, 2, 3) for _ in range(150)], 'mix', 30)
    for n in SIZES + [1000, 4000]:
        a = [gen.rand_value(r, r.choice(TYPES), 0.1) for _ in range(n)]
        b = [gen.rand_value(r, r.choice(TYPES), 0.1) for _ in range(r.choice([1, n]))]
        c = list(a)
        k = r.choice([0, n - 1, n // 2])
        c[k] = gen.NULL if c[k][0] else i32(0)
        s.add(['ucat %s %s' % (show_row(a), show_row(b)), 'ucat %s %s' % (show_row(b), show_row(a)), 'ucat %s %s =' % (show_row(a), show_row(a)), 'utup %s %s' % (show_row(a), show_row(c)), 'utup %s %s' % (show_row(a), show_row(a)),
               'umap %s %s' % (show_row(a), ','.join(str(r.randrange(n)) for _ in range(n + 3))), 'uhex ' + hexs(gen.rand_bytes(r, n))], 'sizes')
    # wide
    for n in (130, 300):
        a = [gen.rand_value(r, r.choice(TYPES), 0.1) for _ in range(n)]
        s.add(['ucat %s %s' % (show_row(a), show_row(a[::-1])), 'utup %s %s' % (show_row(a), show_row(a)), 'umap %s %s' % (show_row(a), ','.join(str(r.randrange(n)) for _ in range(n)))], 'w')


LISTS = {8: 4, 9: 8, 10: 1, 11: 4, 12: 8, 13: 0}


def list_value(r, few=True):
    """A list; with few, one of a small number of different ones."""
    t = r.choice(list(LISTS))
    n = r.choice([0, 1, 1, 2, 3] if few else [0, 1, 2, 3, 7, 16, 33, 100])
    if t == 13:
        b = b''.join(bytes([len(x)]) + x for x in (r.choice([b'', b'a', b'b', b'ab', b'\0', b'a long string, longer than short ones']) for _ in range(n)))
    elif t == 10:
        b = bytes(r.randrange(2) for _ in range(n))
    else:
        w = LISTS[t]
        b = b''.join((r.choice([0, 1, 2]) if few else r.getrandbits(8 * w)).to_bytes(w, 'little') for _ in range(n))
    return (t, b)


def u02(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    O = gen.OPERATORS
    # every operator on a list in every place
    evs = []
    for o in O:
        for i in range(len(o[1])):
            for null in (0.0, 0.0, 1.0) if q else (0.0,) * 6 + (1.0,) * 2:
                row = [value_for(r, o, j, null) for j in range(len(o[1]))]
                row[i] = list_value(r)
                code = b''.join(var(r.choice(TYPES) if j == i and r.random() < 0.5 else t, j) for j, t in enumerate(o[1])) + o[0]
                evs.append(ev(code, row))
    for t in TYPES:
        for _ in range(6 if q else 40):
            v = list_value(r, r.random() < 0.5)
            evs += [ev(var(t, 0), [v]), ev(var(t, 0) + var(t, 0), [v]), ev(var(t, 1) + var(t, 0) + op('is_null', t) + var(t, 1), [v, list_value(r)])]
    s.pack(evs, 'op')
    # carried by runners: read again after the tuple and the runner are gone
    for _ in range(150 if q else 1500):
        row = [list_value(r, r.random() < 0.5) if r.random() < 0.6 else gen.rand_value(r, r.choice(TYPES), 0.1) for _ in range(r.randrange(1, 6))]
        row2 = [list_value(r, False) if r.random() < 0.6 else gen.NULL for _ in row]
        code = b''.join(var(r.choice(TYPES), r.randrange(len(row))) for _ in range(r.randrange(1, 6)))
        cmds = ['xnew 1', 'xdec 1 ' + hexs(code), 'tset 1 ' + show_row(row), 'xbind 1 1', 'xrun 1', 'xall 1', 'xget 1', 'tget 1', 'tset 2 ' + show_row(row2), 'xbind 1 2', 'xrun 1', 'xall 1', 'tdel 1', 'xall 1', 'tget 2',
                'xopt 1 %d' % r.choice(TYPES), 'xrep 1 20', 'xget 1']
        s.add(cmds, 'carry')
    # carried by plans
    for _ in range(250 if q else 2500):
        n = r.randrange(2, 6)
        kinds = [r.choice([INT32, INT64, STRING, BOOL, 0, 0]) for _ in range(n)]
        if 0 not in kinds:
            kinds[r.randrange(n)] = 0
        if INT32 not in kinds:
            kinds.append(INT32)
            n += 1
        lists = [i for i in range(n) if kinds[i] == 0]
        pool = [list_value(r, r.random() < 0.7) for _ in range(r.randrange(1, 5))]
        num = kinds.index(INT32)

        def row():
            return [(r.choice(pool) if r.random() < 0.85 else gen.NULL) if k == 0 else i32(r.randrange(4)) if k == INT32 else gen.rand_value(r, k, 0.15) for k in kinds]

        k = r.random()
        code = b''
        if r.random() < 0.5:
            code += gen.enc_filter(r.choice([var(INT32, num) + const(i32(1), r) + op('ge', INT32), var(r.choice(TYPES), r.choice(lists)) + op('is_null', r.choice(TYPES)) + b'\x51']))
        if k < 0.35:
            code += gen.enc_project(b''.join(var(kinds[j] or r.choice(TYPES), j) for j in [r.randrange(n) for _ in range(r.randrange(1, 9))]))
        elif k < 0.8:
            idx = r.sample(range(n), r.randrange(1, n))
            if not set(idx) & set(lists):
                idx.append(r.choice(lists))
            aggs = [r.choice([('count_all',), ('count', r.choice(TYPES), r.choice(lists)), ('sum', INT32, num), ('max', INT32, num)]) for _ in range(r.randrange(1, 4))]
            code += gen.enc_gagg(idx, aggs)
            if r.random() < 0.4:
                code += gen.enc_project(b''.join(var(r.choice(TYPES), j) for j in r.sample(range(len(idx)), r.randrange(1, len(idx) + 1))))
        elif k < 0.9:
            code += gen.enc_agg_op([r.choice([('count_all',), ('count', r.choice(TYPES), r.choice(lists)), ('min', INT32, num)]) for _ in range(r.randrange(1, 4))])
        cmds = ['rnew 1', 'rdec 1 ' + hexs(code or b'\0')] if code else ['rnew 1', 'rdec 1 ' + hexs(gen.enc_filter(b'\x13'))]
        h = []
        for j in range(1, r.randrange(3, 14)):
            cmds.append(put(j, row(), j))
            h.append(j)
            if r.random() < 0.15:
                cmds.append('rdrain 1')
        cmds += ['rdrain 1', 'rget 1 0', 'rdel 1'] + ['oget %d' % x for x in h] + ['odel %d' % x for x in h]
        s.add(cmds, 'plan', end=True)
    # values
    cmds = []
    for _ in range(500 if q else 5000):
        a = list_value(r)
        b = r.choice([a, list_value(r), (r.choice(list(LISTS)), b''), (8, b''), gen.rand_value(r, r.choice(TYPES), 0.2), gen.NULL])
        if r.random() < 0.5:
            a, b = b, a
        cmds += ['ueq %s %s' % (show(a), show(b)), 'ustr ' + show(r.choice([a, b]))]
        x = [list_value(r) if r.random() < 0.6 else gen.rand_value(r, r.choice(TYPES), 0.1) for _ in range(r.choice([1, 2, 3, 8]))]
        y = list(x)
        if r.random() < 0.6:
            y[r.randrange(len(y))] = list_value(r)
        cmds += ['utup %s %s' % (show_row(x), show_row(y)), 'ucat %s %s' % (show_row(x), show_row(y)), 'umap %s %s' % (show_row(x), ','.join(str(r.randrange(len(x))) for _ in range(len(x) + 1)))]
    for t in list(LISTS) + TYPES:
        for _ in range(25 if q else 250):
            cmds.append('uany %d %s' % (t, show(r.choice([list_value(r), list_value(r), gen.rand_value(r, r.choice(TYPES), 0.1)] if t in TYPES else [gen.NULL, gen.rand_value(r, r.choice(TYPES), 0.1), list_value(r), list_value(r), list_value(r)]))))
    r.shuffle(cmds)
    s.pack(cmds, 'value', 30)


def u03(s, tier, cases):
    r = s.r
    q = tier == 'quick'
    cmds = ['uname %d' % t for t in range(256)]
    for t in TYPES:
        for _ in range(400 if q else 6000):
            cmds.append('ustr ' + show(gen.rand_value(r, t, 0.02, True)))
    for e in (gen.I32_EDGE + gen.I64_EDGE):
        cmds.append('ustr ' + show(i64(e)))
    for e in gen.F32_EDGE:
        cmds.append('ustr ' + show(gen.f32bits(e)))
    for e in gen.F64_EDGE:
        cmds.append('ustr ' + show(gen.f64bits(e)))
    for t in gen.TEXTS:
        cmds.append('ustr ' + show(string(t)))
    # powers of ten and their neighbours, numbers that end in 5 at the seventh digit
    for k in range(-30, 31) if q else range(-320, 309):
        for m in (1, 9, 1.5, 9.99999, 9.999995, 9.9999949, 9.9999951, 1.000005, 1.0000049, 1.234565, 123456.5, 999999.5, 0.25, 2.5):
            try:
                x = float('%.17ge%d' % (m, k))
            except OverflowError:
                continue
            cmds.append('ustr ' + show(gen.f64(x)))
            if -40 < k < 38:
                cmds.append('ustr ' + show(gen.f32(-x)))
    for i in range(400 if q else 4000):
        cmds.append('ustr ' + show(gen.f64(r.randrange(10**6, 2 * 10**7) / 2.0 * r.choice([1, -1]))))
    cmds.append('ustr ' + show(gen.NULL))
    r.shuffle(cmds)
    s.pack(cmds, 'text', 30)
