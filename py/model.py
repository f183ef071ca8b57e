"""Reference model of the zserio wire format for the schema model in zt.py: encode, decode, tokens."""
import struct
from zt import *


# What rust-zserio does with "align(n): optional T x;" instead of what the language says (see known_findings.txt):
# the alignment is in front of the presence flag, whether or not there is a value.
ALIGN_FIRST = False


class Bad(Exception):
    """The value cannot be represented / the stream is malformed: the code must report an error."""


class W:
    def __init__(self, start=0):
        self.v, self.n = 0, 0
        self.start = start
        self.poison = None
        self.sites = []     # (bit position, nbits, what) of bits with a checked meaning
        self.lab = set()    # what the encoding exercised
        self.claims, self.claim = [], None

    def pos(self):
        return self.start + self.n

    def put(self, x, nb):
        assert 0 <= x < (1 << nb) or nb == 0, (x, nb)
        self.v = (self.v << nb) | x
        self.n += nb

    def align(self, k):
        r = -self.pos() % k
        self.v <<= r
        self.n += r

    def bytes(self):
        p = -self.n % 8
        return (self.v << p).to_bytes((self.n + p) // 8, 'big')


def hexbits(w):
    """start bits of padding are zero, then the content, as bytes."""
    n = w.start + w.n
    p = -n % 8
    return (w.v << p).to_bytes((n + p) // 8, 'big').hex() or '-'


# ------------------------------------------------------------------------------------------- varints
def varint_groups(kind):
    nbytes, signed = VARS[kind][:2]
    return nbytes, signed


def var_len(kind, v):
    nb, signed = varint_groups(kind)
    m = abs(v)
    if kind == 'varint' and v == -2**63:
        return 1
    for k in range(1, nb + 1):
        bits = 7 * k - (1 if signed else 0) if k < nb else 7 * (k - 1) + 8 - (1 if signed else 0)
        if kind == 'varsize' and k == nb:
            bits = 36
        if m < (1 << bits):
            return k
    raise Bad('varint range')


def put_var(w, kind, v):
    lo, hi = VARS[kind][2:]
    if not lo <= v <= hi:
        raise Bad('varint range')
    nb, signed = varint_groups(kind)
    if kind == 'varint' and v == -2**63:
        w.put(0x80, 8)
        return
    k = var_len(kind, v)
    m = m0 = abs(v)
    parts = []
    for i in range(k):          # from the last byte to the first
        last = i == 0
        if last and k == nb:
            parts.append(m & 0xff)
            m >>= 8
        else:
            parts.append((m & 0x7f) | (0 if last else 0x80))
            m >>= 7
    parts.reverse()
    if signed:                  # sign bit first, so the first byte holds one bit less
        chunk = [6] + [8 if i == nb - 1 else 7 for i in range(1, k)]
        total = sum(chunk)
        parts = []
        for i, b in enumerate(chunk):
            total -= b
            x = (m0 >> total) & ((1 << b) - 1)
            more = i < k - 1
            if b == 8:
                parts.append(x)
            elif i == 0:
                parts.append((0x80 if v < 0 else 0) | (0x40 if more else 0) | x)
            else:
                parts.append((0x80 if more else 0) | x)
    for p in parts:
        w.put(p, 8)


def get_var(r, kind):
    nb, signed = varint_groups(kind)
    b = r.get(8)
    if signed:
        neg, more, v = b >> 7, (b >> 6) & 1, b & 0x3f
    else:
        neg, more, v = 0, b >> 7, b & 0x7f
    i = 1
    while more and i < nb:
        b = r.get(8)
        i += 1
        if i == nb:
            v = (v << 8) | b
            more = 0
        else:
            v = (v << 7) | (b & 0x7f)
            more = b >> 7
    if neg:
        if v == 0 and kind == 'varint':
            return -2**63
        v = -v
    if kind == 'varsize' and v > 2**31 - 1:
        raise Bad('varsize')
    return v


# ------------------------------------------------------------------------------------------- primitives
def f16_bits_to_f32_bits(h):
    return struct.unpack('>I', struct.pack('>f', struct.unpack('>e', struct.pack('>H', h))[0]))[0]


def num_bits(ty, obj, idx):
    if ty.dyn is None:
        return ty.bits
    n = ty.dyn.ev(obj, idx)
    if not 1 <= n <= 64:
        raise Unspec('bit width')
    return n


def put_prim(w, ty, v, obj, idx):
    k = ty.kind
    if k in ('u', 'i'):
        n = num_bits(ty, obj, idx)
        lo, hi = (0, 2**n - 1) if k == 'u' else (-2**(n - 1), 2**(n - 1) - 1)
        if not lo <= v <= hi:
            raise Bad('does not fit')
        w.put(v & ((1 << n) - 1), n)
    elif k == 'bool':
        w.put(int(v), 1)
    elif k == 'f16':
        w.put(v, 16)
    elif k == 'f32':
        w.put(v, 32)
    elif k == 'f64':
        w.put(v, 64)
    elif k == 'string':
        b = v.encode()
        put_var(w, 'varsize', len(b))
        if b:
            w.put(int.from_bytes(b, 'big'), 8 * len(b))
    elif k == 'bytes':
        put_var(w, 'varsize', len(v))
        if v:
            w.put(int.from_bytes(v, 'big'), 8 * len(v))
    elif k == 'extern':
        n, x = v
        put_var(w, 'varsize', n)
        w.put(x, n)
    else:
        put_var(w, k, v)


def get_prim(r, ty, obj, idx):
    k = ty.kind
    if k in ('u', 'i'):
        if ty.dyn is not None and ty.dyn.ev(obj, idx) == 0:
            r.unspec = 'bit width'
            return 0
        n = num_bits(ty, obj, idx)
        v = r.get(n)
        if k == 'u':
            return v
        return v - (1 << n) if v >> (n - 1) else v
    if k == 'bool':
        return bool(r.get(1))
    if k == 'f16':
        return r.get(16)
    if k == 'f32':
        return r.get(32)
    if k == 'f64':
        return r.get(64)
    if k == 'string':
        b = r.raw(8 * get_var(r, 'varsize'))
        try:
            return b.decode('utf-8')
        except UnicodeDecodeError:
            raise Bad('utf-8')
    if k == 'bytes':
        return r.raw(8 * get_var(r, 'varsize'))
    if k == 'extern':
        n = get_var(r, 'varsize')
        return (n, r.get(n))
    return get_var(r, k)


# ------------------------------------------------------------------------------------------- packing
class Delta:
    def __init__(self):
        self.n, self.first, self.prev, self.maxbits, self.total = 0, None, None, 0, 0
        self.started = False

    def init(self, v, size):
        """v is the element as an integer, size its unpacked size in bits."""
        self.n += 1
        self.total += size
        if self.n == 1:
            self.first_size = size
        elif self.maxbits <= 62:
            d = abs(v - self.prev).bit_length()
            self.maxbits = max(self.maxbits, d)
        self.prev = v

    def finish(self):
        w = self.maxbits
        self.packed = False
        if self.n > 1 and w <= 62:
            delta = w + 1 if w else 0
            self.packed = 7 + self.first_size + (self.n - 1) * delta < 1 + self.total
        self.started = True
        self.count = 0

    def write(self, w, v, put):
        if not self.started:
            self.finish()
        if self.count == 0:
            w.put(int(self.packed), 1)
            if self.packed:
                w.put(self.maxbits, 6)
            put()
        elif not self.packed:
            put()
        elif self.maxbits:
            w.put((v - self.last) & ((1 << (self.maxbits + 1)) - 1), self.maxbits + 1)
        self.count += 1
        self.last = v

    def read(self, r, get, lo, hi):
        if not self.started:
            self.started, self.count = True, 0
            self.packed = bool(r.get(1))
            self.maxbits = r.get(6) if self.packed else 0
        if self.count == 0 or not self.packed:
            v = get()
        else:
            v = self.last
            if self.maxbits:
                n = self.maxbits + 1
                d = r.get(n)
                v += d - (1 << n) if d >> (n - 1) else d
            if not lo <= v <= hi:
                r.unspec = 'packed value leaves the range of its type'
                v = lo + (v - lo) % (hi - lo + 1)
        self.count += 1
        self.last = v
        return v


def has_packable(ty, seen=()):
    """Whether packing does anything for elements of this type."""
    if packable_leaf(ty):
        return True
    if isinstance(ty, Compound):
        if ty in seen:
            return False
        if isinstance(ty, Union):
            return True
        return any(has_packable(f.use.ty, seen + (ty,)) for f in ty.members())
    return False


def make_ctx(ty):
    if packable_leaf(ty):
        return Delta()
    if isinstance(ty, Compound):
        off = offset_fields(ty)
        d = {f.name: make_ctx(f.use.ty) for f in ty.members() if not f.arr and f.name not in off}
        if isinstance(ty, Union):
            d['#tag'] = Delta()
        return d
    return None


def elem_int(ty, v):
    return ty.items[v][2] if isinstance(ty, Enum) and ty.kind == 'enum' else v


def leaf_size(ty, v, obj, idx):
    w = W()
    put_leaf(w, ty, v, obj, idx)
    return w.n


def put_leaf(w, ty, v, obj, idx):
    if ty.__class__ is Enum:
        put_prim(w, ty.base.ty, ty.items[v][2], obj, idx)
    elif ty.__class__ is Bitmask:
        put_prim(w, ty.base.ty, v, obj, idx)
    else:
        put_prim(w, ty, v, obj, idx)


def get_leaf(r, ty, obj, idx):
    if ty.__class__ is Enum:
        return get_prim(r, ty.base.ty, obj, idx)
    if ty.__class__ is Bitmask:
        return get_prim(r, ty.base.ty, obj, idx)
    return get_prim(r, ty, obj, idx)


def init_ctx(ctx, use, v, obj, idx):
    ty = use.ty
    if ctx is None:
        return
    if isinstance(ctx, Delta):
        ctx.init(elem_int(ty, v), leaf_size(ty, v, obj, idx))
        return
    if isinstance(ty, Union):
        t = [f.name for f in ty.fields].index(v.sel)
        ctx['#tag'].init(t, 8 * var_len('varsize', t))
    for f in stored(v):
        if f.arr or f.name not in ctx:
            continue
        x = v.vals.get(f.name)
        if x is not None and ctx[f.name] is not None:
            init_ctx(ctx[f.name], f.use, x, v, None)


# ------------------------------------------------------------------------------------------- compounds
def choice_member(ch, obj):
    """Field selected by the choice's selector, None for an empty case."""
    sv = obj.params[ch.sel] if isinstance(ch.sel, str) else ch.sel.ev(obj)
    for labels, f in ch.cases:
        for l in labels:
            if l.ev(obj) == sv:
                return f
    if ch.default is None:
        raise Bad('no case for this selector')
    return None if ch.default == 'empty' else ch.default


def stored(obj):
    """Fields of obj that are part of the stream, given the parameters and earlier fields (optional ones included)."""
    d = obj.decl
    if isinstance(d, Choice):
        f = choice_member(d, obj)
        return [f] if f else []
    if isinstance(d, Union):
        return [d.field(obj.sel)]
    return [f for f in d.fields if f.opt in (None, 'optional') or f.opt.ev(obj)]


def arr_len(f, obj):
    return f.arr[1].ev(obj)


def enc_compound(w, obj, ctx=None):
    d = obj.decl
    if isinstance(d, Union):
        t = [f.name for f in d.fields].index(obj.sel)
        if w.poison is not None and w.poison == len(w.sites):
            t = len(d.fields) + 3
        w.sites.append('tag')
        w.lab.add('union first member' if t == 0 else 'union later member')
        if ctx:
            w.lab.add('union in packed array')
            ctx['#tag'].write(w, t, lambda: put_var(w, 'varsize', t))
        else:
            put_var(w, 'varsize', t)
        enc_field(w, d.field(obj.sel), obj, ctx)
        return
    if isinstance(d, Choice):
        f = choice_member(d, obj)
        w.lab.add('choice empty' if f is None else 'choice default' if f is d.default else 'choice case')
        if ctx is not None:
            w.lab.add('choice in packed array')
        if f:
            enc_field(w, f, obj, ctx)
        return
    for f in d.fields:
        enc_field(w, f, obj, ctx)


def element_width(f, obj):
    """The bit width of array elements is evaluated once per array, even if there are no elements."""
    if f.use.ty.__class__ is Prim and f.use.ty.dyn is not None:
        f.use.ty.dyn.ev(obj, 0)


def enc_field(w, f, obj, ctx):
    if f.opt not in (None, 'optional'):
        if not f.opt.ev(obj):
            w.lab.add('condition false')
            return
        w.lab.add('condition true')
    v = obj.vals.get(f.name)
    if f.align and f.opt == 'optional' and ALIGN_FIRST:
        w.align(f.align)
        w.lab.add('align')
    if f.opt == 'optional':
        w.put(0 if v is None else 1, 1)
        w.lab.add('optional ' + ('absent' if v is None else 'present'))
        if v is None:
            return
    p0 = w.pos()
    if f.align and not (f.opt == 'optional' and ALIGN_FIRST):
        w.align(f.align)
        w.lab.add('align')
    if f.offset and not f.offset[1]:
        w.align(8)
        w.lab.add('offset')
    if w.pos() != p0:
        w.lab.add('padding')
    if f.arr:
        if f.arr[0] == 'auto':
            w.claims.append(('packed ' if f.packed else '') + 'array of ' + (f.use.ty.kind))
            put_var(w, 'varsize', w.claim[1] if w.claim and w.claim[0] == len(w.claims) - 1 else len(v))
        else:
            if arr_len(f, obj) != len(v):
                raise Bad('array length')
        if not v:
            element_width(f, obj)
        packed = (f.packed or ctx is not None and not f.holder) and has_packable(f.use.ty)
        node = None
        if packed and v:
            node = make_ctx(f.use.ty)
            for i, x in enumerate(v):
                init_ctx(node, f.use, x, obj, i)
        w.lab.add('array')
        if len(v) > 1 and packed:
            w.lab.add('packed array, 2+ elements')
            w.lab.add('packed array of ' + (f.use.ty.kind if isinstance(f.use.ty, Decl) else 'integers'))
        for i, x in enumerate(v):
            if f.offset and f.offset[1]:
                w.align(8)
                w.lab.add('indexed offset')
            enc_value(w, f.use, x, obj, i, node)
        if packed:
            delta_labels(node, w.lab)
    else:
        enc_value(w, f.use, v, obj, None, ctx.get(f.name) if ctx else None)


def check_args(use, v, obj, idx):
    for p, a in zip(v.decl.params, use.args):
        x = a.ev(obj, idx)
        y = v.params[p.name]
        if tok_str(p.use, x) != tok_str(p.use, y):
            raise Bad('parameter')
        no_nan(p, y)


def no_nan(p, v):
    """An object with a NaN is not equal to itself: as an argument it can't be checked."""
    if has_nan(p.use, v):
        raise Unspec('NaN as an argument')


def has_nan(use, v):
    if not isinstance(use.ty, Compound) and use.ty.kind not in ('f16', 'f32', 'f64'):
        return False
    return any(t[0] == 'f' and NAN[len(t)](int(t[1:], 16)) for x in (v if isinstance(v, list) else [v]) for t in toks_list(use, x))


NAN = {5: lambda v: v & 0x7fff > 0x7c00, 9: lambda v: v & 0x7fffffff > 0x7f800000, 17: lambda v: v & (2**63 - 1) > 0x7ff << 52}


def enc_value(w, use, v, obj, idx, ctx):
    ty = use.ty
    if isinstance(ty, Compound):
        check_args(use, v, obj, idx)
        w.lab.add('nested')
        if use.args:
            w.lab.add('parameters')
            if isinstance(ty, Struct) and any(idx_in(a) for a in use.args):
                w.lab.add('index argument')
        enc_compound(w, v, ctx)
        return
    w.lab.add(ty.kind if isinstance(ty, Enum) else 'dynamic width' if ty.dyn is not None else 'leaf ' + ('int' if is_int(ty) else ty.kind))
    def put():
        if ty.__class__ is Enum:
            if w.poison is not None and w.poison == len(w.sites):
                x = bad_enum(ty)
                if x is not None:
                    put_prim(w, ty.base.ty, x, obj, idx)
                    w.poison = 'done'
                    w.sites.append('enum')
                    return
            w.sites.append('enum')
        put_leaf(w, ty, v, obj, idx)
    if isinstance(ctx, Delta):
        ctx.write(w, elem_int(ty, v), put)
    else:
        put()


def idx_in(e):
    return isinstance(e, Expr) and (e.op == 'index' or any(idx_in(x) for x in e.a))


def delta_labels(node, lab):
    if isinstance(node, Delta):
        if node.started and node.n > 1:
            lab.add('delta packed' if node.packed else 'delta fallback')
            if node.packed and node.maxbits == 0:
                lab.add('delta zero width')
    elif node:
        for x in node.values():
            delta_labels(x, lab)


def bad_enum(ty):
    lo, hi = int_range(ty.base.ty)
    vals = set(ty.values())
    for x in list(range(0, 40)) + [hi, lo, hi - 1]:
        if lo <= x <= hi and x not in vals:
            return x
    return None


def encode(obj, start=0, poison=None, claim=None):
    """poison: index of the enum value / union tag to make invalid; claim: (index of an array length, the length to claim)."""
    w = W(start)
    w.poison, w.claim = poison, claim
    enc_compound(w, obj)
    return w


# ------------------------------------------------------------------------------------------- decode
class R:
    def __init__(self, data, start=0, budget=20000):
        self.v = int.from_bytes(data, 'big')
        self.total = 8 * len(data)
        self.p = start
        self.budget = budget
        self.unspec = None      # set when the data is such that any result will do; reading goes on only to see whether it ends soon

    def get(self, n):
        if self.p + n > self.total:
            raise Bad('end of data')
        self.p += n
        return (self.v >> (self.total - self.p)) & ((1 << n) - 1)

    def raw(self, n):
        x = self.get(n)
        return x.to_bytes(n // 8, 'big')

    def align(self, k):
        self.get(-self.p % k)

    def spend(self, n=1):
        self.budget -= n
        if self.budget < 0:
            raise Skip('too many elements')


def dec_compound(r, obj, ctx=None):
    d = obj.decl
    r.spend()
    if isinstance(d, Union):
        if ctx:
            t = ctx['#tag'].read(r, lambda: get_var(r, 'varsize'), 0, 2**31 - 1)
        else:
            t = get_var(r, 'varsize')
        if t >= len(d.fields):
            raise Bad('union tag')
        obj.sel = d.fields[t].name
        dec_field(r, d.fields[t], obj, ctx)
    elif isinstance(d, Choice):
        f = choice_member(d, obj)
        if f:
            dec_field(r, f, obj, ctx)
    else:
        for f in d.fields:
            dec_field(r, f, obj, ctx)
    return obj


def dec_field(r, f, obj, ctx):
    if f.opt not in (None, 'optional') and not f.opt.ev(obj):
        return
    if f.opt == 'optional' and not r.get(1):
        return
    if f.align:
        r.align(f.align)
    if f.offset and not f.offset[1]:
        r.align(8)
    if f.arr:
        n = get_var(r, 'varsize') if f.arr[0] == 'auto' else arr_len(f, obj)
        if n < 0:
            raise Bad('negative length')
        if not n:
            element_width(f, obj)
        packed = (f.packed or ctx is not None and not f.holder) and has_packable(f.use.ty)
        node = make_ctx(f.use.ty) if packed else None
        out = []
        for i in range(n):
            r.spend()
            if f.offset and f.offset[1]:
                r.align(8)
            out.append(dec_value(r, f.use, obj, i, node))
        obj.vals[f.name] = out
    else:
        obj.vals[f.name] = dec_value(r, f.use, obj, None, ctx.get(f.name) if ctx else None)


def dec_value(r, use, obj, idx, ctx):
    ty = use.ty
    if isinstance(ty, Compound):
        o = Obj(ty, {p.name: ev_as(a, obj, p.use.ty, idx) for p, a in zip(ty.params, use.args)})
        for p in ty.params:
            no_nan(p, o.params[p.name])
        return dec_compound(r, o, ctx)
    get = lambda: get_leaf(r, ty, obj, idx)
    if isinstance(ctx, Delta):
        base = ty.base.ty if isinstance(ty, Enum) else ty
        if base.kind in ('u', 'i') and base.dyn is not None:
            n = num_bits(base, obj, idx)
            lo, hi = (0, 2**n - 1) if base.kind == 'u' else (-2**(n - 1), 2**(n - 1) - 1)
        else:
            lo, hi = int_range(base)
        v = ctx.read(r, get, lo, hi)
    else:
        v = get()
    if ty.__class__ is Enum:
        if v not in ty.values():
            raise Bad('enum value')
        v = ty.values().index(v)
    return v


def decode(decl, params, data, start=0, budget=20000):
    r = R(data, start, budget)
    try:
        o = dec_compound(r, Obj(decl, params))
    except Skip:
        raise
    except Bad as e:
        if r.unspec:
            raise Unspec(r.unspec)
        raise e
    if r.unspec:
        raise Unspec(r.unspec)
    return o, r.p


# ------------------------------------------------------------------------------------------- tokens
WILD = '?'


def tok_prim(ty, v):
    k = ty.kind
    if k == 'bool':
        return '1' if v else '0'
    if k == 'f16':
        # F: a NaN of any payload
        return ('F' if v & 0x7c00 == 0x7c00 and v & 0x3ff else 'f') + '%08x' % f16_bits_to_f32_bits(v)
    if k == 'f32':
        return 'f%08x' % v
    if k == 'f64':
        return 'd%016x' % v
    if k == 'string':
        return 's' + v.encode().hex()
    if k == 'bytes':
        return 'b%d:%s' % (len(v), v.hex())
    if k == 'extern':
        n, x = v
        p = -n % 8
        return 'e%d:%s' % (n, ((x << p).to_bytes((n + p) // 8, 'big')).hex())
    return str(v)


def toks(use, v, out, junk=None):
    ty = use.ty
    if isinstance(ty, Compound):
        obj_toks(v, out, junk)
    elif isinstance(ty, Enum):
        out.append(str(v))
    else:
        out.append(tok_prim(ty, v))


def field_toks(f, obj, out, junk):
    """A field of the generated struct: optional fields are Option, all others plain."""
    v = obj.vals.get(f.name)
    if f.opt == 'optional':
        if v is None:
            out.append('-')
            return
        out.append('+')
    elif v is None:
        v = junk.get((id(obj), f.name)) if junk else None
        if v is None:
            out.append(WILD)
            return
    if f.arr:
        out.append('[%d' % len(v))
        for x in v:
            toks(f.use, x, out, junk)
    else:
        toks(f.use, v, out, junk)


def obj_toks(obj, out, junk=None):
    """junk: {(id(obj), field name): value} for members that are not stored (only used to build objects)."""
    d = obj.decl
    for p in d.params:
        toks(p.use, obj.params[p.name], out, junk)
    if isinstance(d, Union):
        out.append(str([f.name for f in d.fields].index(obj.sel)))
    for f in d.members():
        if isinstance(d, (Choice, Union)) or f.opt not in (None, 'optional'):
            out.append('(')
            field_toks(f, obj, out, junk)
            out.append(')')
        else:
            field_toks(f, obj, out, junk)
    return out


def toks_list(use, v):
    out = []
    toks(use, v, out)
    return out


def tok_str(use, v):
    out = []
    toks(use, v, out)
    return ' '.join(out)


def params_toks(decl, params):
    out = []
    for p in decl.params:
        toks(p.use, params[p.name], out)
    return ' '.join(out)


def match(expected, actual):
    """Compare token lists; '( ? )' in expected matches any bracketed group in actual."""
    e, a = expected, actual.split()
    i = j = 0
    while i < len(e):
        if j >= len(a):
            return False
        if e[i] == WILD:
            # skip to the matching ')'
            depth = 0
            while j < len(a) and not (a[j] == ')' and depth == 0):
                if a[j] == '(':
                    depth += 1
                elif a[j] == ')':
                    depth -= 1
                j += 1
            i += 1
            continue
        if e[i] != a[j] and not (e[i][0] == 'F' and a[j][0] == 'f' and int(a[j][1:], 16) & 0x7fffffff > 0x7f800000):
            return False
        i += 1
        j += 1
    return j == len(a)
