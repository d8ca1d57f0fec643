"""Random inputs: values, rows, programs, plans.  Only inputs are made here; what they must yield is decided by the
specification alone."""
import math
import random
import struct

INT32, INT64, BOOL, FLOAT, DOUBLE, STRING = 1, 2, 3, 4, 5, 7
TYPES = [1, 2, 3, 4, 5, 7]
NUMERIC = [1, 2, 4, 5]
INTS = [1, 2]

OP = dict(pos=0x81, neg=0x82, add=0x83, sub=0x84, mul=0x85, div=0x86, mod=0x87,
          eq=0x91, ge=0x92, gt=0x93, le=0x94, lt=0x95, ne=0x96,
          is_null=0xA1, is_true=0xA2, is_false=0xA3, min=0xB1, max=0xB2, abs=0xB3, abs_c=0xB4)
REL = ['eq', 'ge', 'gt', 'le', 'lt', 'ne']
LOGIC = {'not': 0x51, 'and': 0x52, 'or': 0x53}
MATH1 = [1, 2] + list(range(7, 18))
STR1 = [34, 35, 38, 40, 42]
STRINT = [36, 37, 45, 47]
STRINT2 = [44, 46]
FUNS = MATH1 + STR1 + [33] + STRINT + STRINT2


def hexs(b):
    return bytes(b).hex() or '-'


# ---- values: (type, bytes), NULL is (0, b'')

NULL = (0, b'')


def i32(n):
    return (1, (n & 0xFFFFFFFF).to_bytes(4, 'little'))


def i64(n):
    return (2, (n & 0xFFFFFFFFFFFFFFFF).to_bytes(8, 'little'))


def boolean(p):
    return (3, b'\x01' if p else b'\x00')


def f32bits(n):
    return (4, n.to_bytes(4, 'little'))


def f64bits(n):
    return (5, n.to_bytes(8, 'little'))


def f64(x):
    return (5, struct.pack('<d', x))


def f32(x):
    try:
        return (4, struct.pack('<f', x))
    except OverflowError:
        return (4, struct.pack('<f', math.copysign(math.inf, x)))


def string(b):
    return (7, bytes(b))


def show(v):
    return '%d:%s' % (v[0], v[1].hex())


def show_row(r):
    return ','.join(show(v) for v in r) or '-'


I32_EDGE = [0, 1, -1, 2, -2, 3, 7, 10, 127, 128, -128, -129, 255, 256, 32767, 65535, 65536, 46340, 46341, 99999,
            2**30, -2**30, 2**31 - 1, 2**31 - 2, -2**31, -2**31 + 1, 16777216, 16777217, -16777217]
I64_EDGE = I32_EDGE + [2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**32 + 1, -2**32, 3037000499, 3037000500, 2**53 - 1, 2**53, 2**53 + 1,
                       -2**53 - 1, 2**62, 2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, 10**18, 2**63 - 512, 2**63 - 513,
                       2**40 + 1, -2**35, 6000000000]
F32_EDGE = [0x00000000, 0x80000000, 0x00000001, 0x80000001, 0x007FFFFF, 0x00800000, 0x00800001, 0x3F800000, 0xBF800000,
            0x3F800001, 0x3F7FFFFF, 0x3F000000, 0xBF000000, 0x3EFFFFFF, 0x3FC00000, 0x40200000, 0xC0200000, 0x40490FDB,
            0x4B000000, 0x4B7FFFFF, 0x4B800000, 0x4EFFFFFF, 0x4F000000, 0xCF000000, 0xCF000001, 0x5EFFFFFF, 0x5F000000,
            0xDF000000, 0x7F7FFFFF, 0xFF7FFFFF, 0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00001, 0x3DCCCCCD, 0x42C80000,
            0x47C35000, 0x37800000, 0x7F000000, 0x00400000, 0x1E3CE508]
F64_EDGE = [0x0000000000000000, 0x8000000000000000, 0x0000000000000001, 0x8000000000000001, 0x000FFFFFFFFFFFFF,
            0x0010000000000000, 0x0010000000000001, 0x3FF0000000000000, 0xBFF0000000000000, 0x3FF0000000000001,
            0x3FEFFFFFFFFFFFFF, 0x3FE0000000000000, 0xBFE0000000000000, 0x3FDFFFFFFFFFFFFF, 0x3FF8000000000000,
            0x4004000000000000, 0xC004000000000000, 0x400921FB54442D18, 0x3FB999999999999A, 0x4059000000000000,
            0x41DFFFFFFFC00000, 0x41DFFFFFFFE00000, 0x41E0000000000000, 0xC1E0000000000000, 0xC1E0000000100000,
            0xC1E0000000200000, 0x4330000000000000, 0x4330000000000001, 0x432FFFFFFFFFFFFF, 0x4340000000000000,
            0x43DFFFFFFFFFFFFF, 0x43E0000000000000, 0xC3E0000000000000, 0xC3E0000000000001, 0x7FEFFFFFFFFFFFFF,
            0xFFEFFFFFFFFFFFFF, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0xFFF8000000000001,
            0x3EF0000000000000, 0x3CD203AF9EE75616, 0x47EFFFFFE0000000, 0x47EFFFFFF0000000, 0x36A0000000000000,
            0x3690000000000000, 0x3690000000000001, 0x380FFFFFE0000000, 0x3FF0000010000000, 0x3FF0000030000000]

TEXTS = [b'', b' ', b'a', b'b', b'ab', b'abc', b'abd', b'Abc', b'ABC xyz', b'  abc  ', b'\t\n\v\f\r x', b' \0 ', b'\0', b'a\0b',
         b'a\0c', b'\xff', b'\x80', b'\x7f', b'\xc3\xa9', b'0', b'1', b'-1', b'+7', b' 42', b'12x', b'x12', b'007',
         b'2147483647', b'2147483648', b'-2147483648', b'-2147483649', b'9223372036854775807',
         b'9223372036854775808', b'-9223372036854775808', b'-9223372036854775809', b'1e2', b'1.5', b'-.5', b'5.', b'.',
         b'1e400', b'-1e39', b'1e', b'1e+', b'3.4028236e38', b'1e38', b'0.1', b'-0', b'- 1', b'--1', b'1 2', b'12\x0034',
         b'99999999999999999999', b'true', b'false', b'TRUE', b'[ \t]', b'@AZ[`az{', b'\xa0x\xa0', b'\x85x',
         b'0000000000000000000000012', b'1.7976931348623157e308', b'1.7976931348623159e308', b'123456789012345678901234567890.5']


def rand_bytes(r, n, alphabet=None):
    if alphabet is None:
        return bytes(r.randrange(256) for _ in range(n))
    return bytes(r.choice(alphabet) for _ in range(n))


def rand_text(r, long=False):
    k = r.random()
    if k < 0.4:
        return r.choice(TEXTS)
    if k < 0.6:
        return rand_bytes(r, r.randrange(0, 6), b'ab\0 ')
    if k < 0.75:
        return rand_bytes(r, r.randrange(0, 12), b'aZ \t@[`{9')
    if k < 0.85:
        return str(r.randrange(-10**r.randrange(1, 20), 10**r.randrange(1, 20))).encode()
    if k < 0.9:
        return ('%.*g' % (r.randrange(1, 18), r.uniform(-1, 1) * 10.0**r.randrange(-12, 25))).encode()
    if long and k < 0.95:
        return rand_bytes(r, r.choice([31, 64, 127, 128, 129, 200, 255, 256, 300]))
    return rand_bytes(r, r.randrange(0, 20))


def rand_value(r, t, null=0.08, long=False):
    if null and r.random() < null:
        return NULL
    k = r.random()
    if t == INT32:
        return i32(r.choice(I32_EDGE) if k < 0.4 else r.randrange(-5, 6) if k < 0.7 else r.randrange(-2**31, 2**31))
    if t == INT64:
        return i64(r.choice(I64_EDGE) if k < 0.4 else r.randrange(-5, 6) if k < 0.65 else
                   r.randrange(-2**63, 2**63) if k < 0.85 else r.randrange(-2**40, 2**40))
    if t == BOOL:
        return boolean(r.random() < 0.5)
    if t == FLOAT:
        if k < 0.3:
            return f32bits(r.choice(F32_EDGE))
        if k < 0.6:
            return f32(r.choice([r.randrange(-8, 9), r.randrange(-40, 41) / 8.0, r.randrange(-1000, 1000) / 10.0]))
        if k < 0.8:
            return f32(r.uniform(-1, 1) * 10.0**r.randrange(-6, 12))
        return f32bits(r.getrandbits(32))
    if t == DOUBLE:
        if k < 0.3:
            return f64bits(r.choice(F64_EDGE))
        if k < 0.6:
            return f64(r.choice([r.randrange(-8, 9), r.randrange(-40, 41) / 8.0, r.randrange(-1000, 1000) / 10.0]))
        if k < 0.8:
            return f64(r.uniform(-1, 1) * 10.0**r.randrange(-6, 22))
        return f64bits(r.getrandbits(64))
    return string(rand_text(r, long))


# ---- encoding

def varint(n, pad=0):
    out = []
    while True:
        if n < 128 and pad == 0:
            out.append(n)
            return bytes(out)
        out.append(n & 127 | 128)
        n >>= 7
        if n == 0 and pad > 0:
            # a longer, not canonical form
            for _ in range(pad - 1):
                out.append(0x80)
            out.append(0)
            return bytes(out)


def varint32(n, r=None):
    """A 32-bit number, sometimes in a longer form, with bits beyond its width."""
    if r is None or r.random() < 0.7:
        return varint(n)
    if r.random() < 0.6:
        return varint(n, r.choice([1, 2, 3, 7]))
    return varint(n | r.choice([1, 2, 3, 1 << 3, 1 << 31, r.getrandbits(30) + 1, (1 << 38) - 1]) << 32, r.choice([0, 0, 1]))


def null_const(t):
    return bytes([t])


def const(v, r=None):
    """Code that pushes v."""
    t, b = v
    pad = r.choice([0, 0, 0, 0, 0, 0, 1, 2, 3]) if r else 0
    if t == 0:
        return null_const(r.choice(TYPES) if r else 1)
    if t in (1, 2):
        w = 32 if t == 1 else 64
        n = int.from_bytes(b, 'little')
        if r and r.random() < 0.5:
            return bytes([0x20 + t]) + varint((-n) % (1 << w), pad)
        if r and n >= 1 << (w - 1) and r.random() < 0.3:
            n |= ((1 << 70) - 1) >> w << w      # sign extended beyond its width
        return bytes([0x10 + t]) + varint(n, pad)
    if t == 3:
        return b'\x13' if b[0] else b'\x23'
    if t in (4, 5):
        return bytes([0x10 + t]) + b[::-1]
    return b'\x17' + varint32(len(b), r) + b


def var(t, i, r=None):
    return bytes([0x30 + t]) + varint32(i, r)


def op(name, t):
    return bytes([OP[name], t])


def fun(n):
    return bytes([0xF1, n])


def cast(dst, src, checked=False):
    return bytes([0xFC if checked else 0xF0, dst * 16 + src])


# ---- programs

class Ctx:
    """Columns (type by index) a program may read."""

    def __init__(self, r, cols, elementary=False, long=False, consts=True, null=0.05):
        self.r = r
        self.cols = cols
        self.by = {t: [i for i, c in enumerate(cols) if c == t] for t in TYPES}
        self.elementary = elementary
        self.long = long
        self.null = null


def leaf(c, t):
    r = c.r
    if c.by[t] and r.random() < 0.6:
        return var(t, r.choice(c.by[t]), r)
    if r.random() < c.null:
        return null_const(t)
    v = rand_value(r, t, 0, c.long)
    return const(v, r)


def small_int(c, d):
    r = c.r
    if r.random() < 0.75:
        return const(i32(r.choice([0, 1, 2, 3, 4, 5, 8, -1, -2, -3, -5, 100, 2**31 - 1, -2**31])), r)
    return expr(c, INT32, d - 1)


def expr(c, t, d):
    """Code of a well-typed expression of type t and depth up to d."""
    r = c.r
    if d <= 0 or r.random() < 0.12:
        return leaf(c, t)
    k = r.random()
    if t in NUMERIC:
        if k < 0.5:
            names = ['add', 'sub', 'mul', 'div', 'min', 'max', 'sub', 'div'] + (['mod', 'mod'] if t in INTS else [])
            return expr(c, t, d - 1) + expr(c, t, d - 1) + op(r.choice(names), t)
        if k < 0.7:
            return expr(c, t, d - 1) + op(r.choice(['pos', 'neg', 'neg', 'abs', 'abs_c']), t)
        if k < 0.92 or t != DOUBLE:
            src = r.choice([x for x in TYPES if x != t])
            if src == STRING:
                if r.random() < 0.7:
                    return leaf(c, STRING) + cast(t, src, r.random() < 0.4)
                src = r.choice([x for x in NUMERIC if x != t])
            return expr(c, src, d - 1) + cast(t, src, r.random() < 0.4)
        return expr(c, DOUBLE, d - 1) + fun(r.choice([1, 2]))
    if t == BOOL:
        if k < 0.4:
            s = r.choice(TYPES)
            return expr(c, s, d - 1) + expr(c, s, d - 1) + op(r.choice(REL), s)
        if k < 0.6:
            return expr(c, BOOL, d - 1) + expr(c, BOOL, d - 1) + bytes([r.choice([0x52, 0x53])])
        if k < 0.7:
            return expr(c, BOOL, d - 1) + b'\x51'
        if k < 0.85:
            s = r.choice(TYPES)
            return expr(c, s, d - 1) + op(r.choice(['is_null', 'is_true', 'is_false']), s)
        if k < 0.93:
            s = r.choice(NUMERIC)
            return expr(c, s, d - 1) + cast(BOOL, s, r.random() < 0.3)
        return expr(c, BOOL, d - 1) + expr(c, BOOL, d - 1) + op(r.choice(['min', 'max']), BOOL)
    # STRING
    if k < 0.25:
        return expr(c, t, d - 1) + expr(c, t, d - 1) + (fun(33) if r.random() < 0.5 else op('add', STRING))
    if k < 0.35:
        return expr(c, t, d - 1) + expr(c, t, d - 1) + op(r.choice(['min', 'max']), STRING)
    if k < 0.55:
        return expr(c, t, d - 1) + fun(r.choice(STR1))
    if k < 0.7:
        return expr(c, t, d - 1) + small_int(c, d) + fun(r.choice([36, 37, 47, 45]))
    if k < 0.85:
        return expr(c, t, d - 1) + small_int(c, d) + small_int(c, d) + fun(r.choice([44, 46]))
    src = r.choice([x for x in TYPES if x != STRING])
    return expr(c, src, d - 1) + cast(STRING, src, r.random() < 0.3)


def rand_cols(r, n=None):
    n = r.randrange(1, 8) if n is None else n
    return [r.choice(TYPES) for _ in range(n)]


def rand_row(r, cols, null=0.15, long=False):
    return [rand_value(r, t, null, long) for t in cols]


# ---- plans

AGGS = {'count': TYPES, 'sum': NUMERIC, 'max': [1, 2, 4, 5, 7], 'min': [1, 2, 4, 5, 7]}
AGGCODE = {'count': 1, 'sum': 2, 'max': 3, 'min': 4}


def count_n(n, r=None):
    return varint(n, r.choice([0, 0, 0, 1]) if r else 0)


def enc_agg(a, r=None):
    if a == ('count_all',):
        return b'\x10'
    f, t, c = a
    return bytes([AGGCODE[f] * 16 + t]) + varint(c, r.choice([0, 0, 0, 1]) if r else 0)


def enc_filter(code):
    return b'\x71' + code + b'\0'


def enc_project(code):
    return b'\x72' + code + b'\0'


def enc_aggs(aggs, r=None):
    return count_n(len(aggs), r) + b''.join(enc_agg(a, r) for a in aggs)


def enc_gagg(idx, aggs, eoe=True, r=None):
    return b'\x73\x61' + count_n(len(idx), r) + b''.join(varint(i) for i in idx) + enc_aggs(aggs, r) + (b'\0' if eoe else b'')


def enc_agg_op(aggs, eoe=True, r=None):
    return b'\x74' + enc_aggs(aggs, r) + (b'\0' if eoe else b'')


def agg_type(a):
    return 2 if a[0] in ('count_all', 'count') else a[1]


def rand_aggs(r, cols, types=None, most=4):
    """Aggregates over columns of the given types (all when None)."""
    out = []
    if r.random() < 0.12:
        most *= 3
    for _ in range(r.randrange(0, most + 1) if r.random() < 0.15 else r.randrange(1, most + 1)):
        if not cols or r.random() < 0.25:
            out.append(('count_all',))
            continue
        i = r.randrange(len(cols))
        f = r.choice(['count', 'sum', 'sum', 'max', 'min'])
        t = cols[i]
        if t not in AGGS[f] or (types is not None and f != 'count' and t not in types):
            f = 'count'
        out.append((f, t, i))
    return out


class PlanGen:
    """A random plan.  ordered=True: after a grouped aggregation only what does not depend on the order of rows."""

    def __init__(self, r, cols, ops=None, n=None, ordered=False, fail=0.0, depth=2):
        self.r = r
        self.cols0 = list(cols)
        self.kinds = []
        code = b''
        grouped = False
        n = r.choice([1, 1, 2, 2, 3, 3, 4, 5]) if n is None else n
        for i in range(n):
            k = r.choice(ops or ['filter', 'filter', 'project', 'project', 'gagg', 'gagg', 'agg'])
            c = Ctx(r, cols, null=0.03)
            if k == 'filter':
                code += enc_filter(self.condition(c, depth, fail))
            elif k == 'project':
                m = r.choice([1, 1, 2, 2, 3, 4, 0]) if r.random() < 0.9 else r.randrange(5, 9)
                types = [r.choice(cols) if cols and r.random() < 0.6 else r.choice(TYPES) for _ in range(m)]
                code += enc_project(b''.join(self.column(c, t, depth, fail) for t in types))
                cols = types
            elif k == 'gagg':
                keyable = [j for j, t in enumerate(cols) if not (grouped and ordered and t in (4, 5))]
                idx = [r.choice(keyable) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 0]))] if keyable else []
                aggs = rand_aggs(r, cols, [1, 2, 7] if grouped and ordered else None)
                code += enc_gagg(idx, aggs, r.random() < 0.8, r)
                cols = [cols[j] for j in idx] + [agg_type(a) for a in aggs]
                grouped = True
            else:
                aggs = rand_aggs(r, cols, [1, 2, 7] if grouped and ordered else None)
                code += enc_agg_op(aggs, r.random() < 0.8, r)
                cols = [agg_type(a) for a in aggs]
            self.kinds.append(k)
        self.code = code
        self.cols = cols

    def condition(self, c, depth, fail):
        r = c.r
        if r.random() < fail:
            return self.failing(c, BOOL, True)
        k = r.random()
        if k < 0.5 and c.cols:
            i = r.randrange(len(c.cols))
            t = c.cols[i]
            return var(t, i) + const(rand_value(r, t, 0)) + op(r.choice(REL), t)
        if k < 0.65 and c.cols:
            i = r.randrange(len(c.cols))
            return var(c.cols[i], i) + op(r.choice(['is_null', 'is_true', 'is_false']), c.cols[i]) + (b'\x51' if r.random() < 0.5 else b'')
        return expr(c, BOOL, depth)

    def column(self, c, t, depth, fail):
        r = c.r
        if r.random() < fail:
            return self.failing(c, t)
        if c.by.get(t) and r.random() < 0.5:
            return var(t, r.choice(c.by[t]))
        return expr(c, t, depth)

    def failing(self, c, t, alone=False):
        """An expression that fails for some rows."""
        r = c.r
        choices = []
        for i in c.by[2]:
            choices.append(var(2, i) + cast(1, 2, True) + b'')
        for i in c.by[5]:
            choices.append(var(5, i) + cast(1, 5, True))
        for i in c.by[7]:
            choices.append(var(7, i) + cast(1, 7))
        for i in c.by[1]:
            choices.append(var(1, i) + op('abs_c', 1))
        for i in c.by[7]:
            choices.append(var(7, i) + const(i32(r.randrange(1, 4))) + fun(0x2D) + cast(1, 7))
        # operands of another type: fails unless NULL
        k = r.random()
        if c.cols and (k < 0.25 or not choices):
            i = r.randrange(len(c.cols))
            if t == BOOL and r.random() < 0.4:
                return var(c.cols[i], i)
            u = r.choice([x for x in (1, 2, 4, 5) if x != c.cols[i]])
            choices = [var(c.cols[i], i) + op('neg', u) + (cast(1, u) if u != 1 else b'')]
        elif k < 0.3 and alone:
            # operands missing: fails for every row
            choices = [op('neg', 1), const(i32(1)) + op('add', 1)]
        if not choices:
            return expr(c, t, 1)
        e = r.choice(choices)
        if t == INT32:
            return e
        if t == BOOL:
            return e + const(i32(r.randrange(-2, 3))) + op(r.choice(REL), INT32)
        return e + cast(t, INT32)


def row_pool(r, cols, distinct=3, null=0.15, wild=0.3):
    """Few values per column, so that rows share keys."""
    pools = []
    collide = r.random() < 0.15        # whole numbers whose polynomial hashes collide
    for n, t in enumerate(cols):
        p = []
        if collide and t in (INT32, INT64):
            mk = i32 if t == INT32 else i64
            b = r.choice([0, 1, 2, 31])
            pools.append([mk(b + x) for x in r.choice([[0, 1], [1, 0, -1], [0, 31], [31, 0], [0, 31, 62], [0, 1, -30, 32, 961]])])
            continue
        for _ in range(distinct):
            if r.random() < null:
                p.append(NULL)
            elif r.random() < wild:
                p.append(rand_value(r, t, 0))
            else:
                p.append({INT32: lambda: i32(r.randrange(-3, 4)), INT64: lambda: i64(r.randrange(-3, 4)),
                          BOOL: lambda: boolean(r.random() < 0.5), FLOAT: lambda: f32(r.randrange(-4, 5) / 2.0),
                          DOUBLE: lambda: f64(r.randrange(-4, 5) / 2.0),
                          STRING: lambda: string(r.choice([b'', b'a', b'b', b'ab', b'a\0', b'1', b'99999999999', b'-3', b' 7x']))}[t]())
        pools.append(p)
    return pools


def pick_row(r, pools):
    return [r.choice(p) for p in pools]


# ---- all operators: (code, types of the operands, type of the result)

def operators():
    out = []
    for n in ('pos', 'neg'):
        out += [(op(n, t), (t,), t) for t in NUMERIC]
    for n in ('add', 'sub', 'mul', 'div'):
        out += [(op(n, t), (t, t), t) for t in NUMERIC]
    out += [(op('mod', t), (t, t), t) for t in INTS]
    out += [(op('add', 7), (7, 7), 7)]
    for n in REL:
        out += [(op(n, t), (t, t), BOOL) for t in TYPES]
    for n in ('is_null', 'is_true', 'is_false'):
        out += [(op(n, t), (t,), BOOL) for t in TYPES]
    for n in ('min', 'max'):
        out += [(op(n, t), (t, t), t) for t in TYPES]
    for n in ('abs', 'abs_c'):
        out += [(op(n, t), (t,), t) for t in NUMERIC]
    out += [(b'\x51', (3,), 3), (b'\x52', (3, 3), 3), (b'\x53', (3, 3), 3)]
    for d in TYPES:
        for s in TYPES:
            if not (d == BOOL and s == STRING):
                out += [(cast(d, s), (s,), d), (cast(d, s, True), (s,), d)]
    out += [(fun(f), (5,), 5) for f in MATH1]
    out += [(fun(f), (7,), 7) for f in STR1]
    out += [(fun(33), (7, 7), 7)]
    out += [(fun(f), (7, 1), 7) for f in STRINT]
    out += [(fun(f), (7, 1, 1), 7) for f in STRINT2]
    return out


OPERATORS = operators()
