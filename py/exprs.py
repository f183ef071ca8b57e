"""Random expressions whose value, and every intermediate value, is known to be representable: int_expr tracks ranges."""
from zt import *

LENGTHS = (0, 2**31 - 1)


def within(lo, hi, st):
    return fits(lo, st) and fits(hi, st)


# parts of string literals: text and value
STRING_PARTS = [(r'\"', '"'), (r'\\', '\\'), (r'\n', '\n'), (r'\r', '\r'), (r'\t', '\t'), (r'\f', '\f'), (r'\u0041', 'A'), (r'\u00e4', 'ä'), (r'\x7e', '~'),
                (r'\u20AC', '€'), ('n', 'n'), ('{}', '{}'), ('{0}', '{0}'), ("'", "'"), ('//', '//'), ('/* x */', '/* x */'), ('ü€', 'ü€'), ('%d', '%d'), ('$x', '$x'),
                ('u0041', 'u0041'), ('}', '}'), ('{', '{'), ('#', '#')]


class ExprGen:
    """scope: Items of gen.py. idx: may refer to @index."""

    def __init__(self, g, scope, idx=False, owner=None, const=False):
        self.g, self.r, self.idx, self.owner, self.const = g, g.r, idx, owner, const
        self.items = [it for it in scope if it.uncond]
        for f in owner.funcs if owner is not None else ():
            if isinstance(f.use.ty, Compound):
                self.items += self.g.items_of(Expr('call', None, f.name, st=f.use.ty), f.use.ty, None)
        self.nested = 0

    # ---- integers: (Expr, lo, hi)
    def literal(self, lo=0, hi=2**31 - 1):
        r = self.r
        v = min(hi, max(lo, r.choice([r.randint(0, 9), r.randint(0, 300), 1 << r.randint(0, 20), r.randint(0, 2**31 - 1)])))
        return lit(v, self.g.num_lit(v)), v, v

    def int_leaf(self):
        r = self.r
        c = []
        for it in self.items:
            ty = it.ty
            if it.arr:
                c.append((lambda it=it: (Expr('lengthof', it.expr, st=static_int(prim('varsize'))),) + LENGTHS, 1))
                if is_int(ty) and ty.dyn is None:
                    c.append((lambda it=it: self.element(it), 1.5))
            elif is_int(ty):
                c.append((lambda it=it: (it.expr,) + self.item_range(it), 4))
            elif isinstance(ty, Enum):
                c.append((lambda it=it: self.valueof(it), 1.5))
            elif isinstance(ty, Compound):
                for f in ty.funcs:
                    if is_int(f.use.ty):
                        c.append((lambda it=it, f=f: (Expr('call', it.expr, f.name, st=static_int(f.use.ty)),) + int_range(f.use.ty), 2))
        if self.owner is not None:
            for f in self.owner.funcs:
                if is_int(f.use.ty):
                    c.append((lambda f=f: (Expr('call', None, f.name, st=static_int(f.use.ty)),) + int_range(f.use.ty), 2))
        for k in self.g.consts:
            if is_int(k.use.ty):
                c.append((lambda k=k: (Expr('const', k.value, st=static_int(k.use.ty), txt=k.name), k.value, k.value), 0.7))
        for e in self.g.enums + self.g.bitmasks:
            c.append((lambda e=e: self.valueof_const(e), 0.3))
        if self.idx:
            c.append((lambda: (Expr('index', st=('int', 64, True, 64)),) + LENGTHS, 3))
        c.append((self.literal, 1.5))
        return self.g.pick(c)()

    def item_range(self, it):
        ty = it.ty
        if ty.dyn is not None:
            return (0, 2**64 - 1) if ty.kind == 'u' else (-2**63, 2**63 - 1)
        lo, hi = int_range(ty)
        role = it.holder.role if it.holder is not None else None
        if role and role[0] == 'range':
            return max(lo, role[1]), min(hi, role[2])
        if role and role[0] == 'set':
            return min(role[1]), max(role[1])
        return lo, hi

    def element(self, it):
        """arr[0] or arr[lengthof(arr) - 1], guarded."""
        n = Expr('lengthof', it.expr, st=static_int(prim('varsize')))
        i = lit(0) if self.r.random() < 0.6 else binop('-', n, lit(1))
        lo, hi = int_range(it.ty)
        at = Expr('at', it.expr, i, st=static_int(it.ty))
        z = lit(0)
        e = Expr('tern', binop(self.r.choice(['>', '!=']), n, lit(0)), at, z, st=common(at.st, z.st))
        return Expr('paren', e, st=e.st), min(lo, 0), max(hi, 0)

    def valueof(self, it):
        ty = it.ty
        b = ty.base.ty
        vs = ty.values() if ty.kind == 'enum' else [0, int_range(b)[1]]
        return Expr('valueof', it.expr, st=static_int(b)), min(vs), max(vs)

    def valueof_const(self, e):
        i = self.r.randrange(len(e.items))
        v = e.items[i][2]
        x = self.g.enum_item(e, i) if e.kind == 'enum' else Expr('bmval', v, st=e, txt='%s.%s' % (e.name, e.items[i][0]))
        return Expr('valueof', x, st=static_int(e.base.ty)), v, v

    def int_expr(self, depth):
        for _ in range(12):
            x = self.try_int(depth)
            if x is not None and -2**63 <= x[1] and x[2] <= 2**64 - 1:
                if x[0].op in ('bin', 'tern', 'un') and self.r.random() < 0.12:
                    x = (Expr('paren', x[0], st=x[0].st),) + x[1:]
                return x
        return self.literal()

    def small(self, depth):
        """An int_expr masked to a small range."""
        e, lo, hi = self.int_expr(depth)
        if 0 <= lo and hi <= 1000:
            return e, lo, hi
        m = self.r.choice([1, 3, 7, 15, 63, 255])
        k = self.r.random()
        if k < 0.6 or lo < 0:
            if not within(lo, hi, common(promote(e.st), promote(LIT))):
                return self.literal(0, 100)
            return self.paren(binop('&', e, lit(m, self.g.num_lit(m)))), 0, m
        return self.paren(binop('%', e, lit(m + 1))), 0, m

    def paren(self, e):
        return Expr('paren', e, st=e.st)

    def try_int(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.15:
            return self.int_leaf()
        op = self.g.pick([('+', 3), ('-', 3), ('*', 2), ('/', 2), ('%', 2), ('&', 2), ('|', 1.5), ('^', 1.5), ('<<', 1.5), ('>>', 1.5),
                          ('neg', 1), ('pos', 0.3), ('~', 0.7), ('?', 2.5), ('numbits', 0.7 if self.const else 1)])
        if op in ('neg', 'pos', '~'):
            e, lo, hi = self.int_expr(depth - 1)
            st = promote(e.st)
            if op == 'neg':
                lo2, hi2 = -hi, -lo
            elif op == '~':
                lo2, hi2 = ~hi, ~lo
            else:
                lo2, hi2 = lo, hi
            if op != 'pos' and st[1] is not None and not st[2] or not within(lo, hi, st) or not within(lo2, hi2, st):
                return None
            return Expr('un', {'neg': '-', 'pos': '+', '~': '~'}[op], e, st=st), lo2, hi2
        if op == 'numbits':
            e, lo, hi = self.int_expr(depth - 1)
            return (Expr('numbits', e, st=static_int(prim('varsize'))), 0, 64) if lo >= 0 else None
        if op == '?':
            c = self.bool_expr(depth - 1)
            a, al, ah = self.int_expr(depth - 1)
            b, bl, bh = self.int_expr(depth - 1)
            st = common(a.st, b.st)
            if not within(al, ah, st) or not within(bl, bh, st):
                return None
            return Expr('tern', c, a, b, st=st), min(al, bl), max(ah, bh)
        a, al, ah = (self.small if r.random() < 0.35 else self.int_expr)(depth - 1)
        if op in ('<<', '>>'):
            b, bl, bh = self.literal(0, 12) if r.random() < 0.6 else self.small(depth - 1)
            st = promote(a.st)
            if al < 0 or bl < 0 or bh >= (st[1] or 31):
                return None
            lo, hi = (al << bl, ah << bh) if op == '<<' else (al >> bh, ah >> bl)
            e = binop(op, a, b)
            return (e, lo, hi) if within(al, ah, st) and within(lo, hi, st) else None
        b, bl, bh = (self.small if r.random() < 0.35 else self.int_expr)(depth - 1)
        if op in ('/', '%') and bl == 0 and bh < 2**31 - 1 and r.random() < 0.8:
            b, bl, bh = self.paren(binop('+', b, lit(1))), 1, bh + 1
        e = binop(op, a, b)
        if not within(al, ah, e.st) or not within(bl, bh, e.st):
            return None
        if op == '+':
            lo, hi = al + bl, ah + bh
        elif op == '-':
            lo, hi = al - bh, ah - bl
        elif op == '*':
            p = [x * y for x in (al, ah) for y in (bl, bh)]
            lo, hi = min(p), max(p)
        elif op in ('/', '%'):
            if al < 0 or bl <= 0:
                return None
            lo, hi = (al // bh, ah // bl) if op == '/' else (0, min(ah, bh - 1))
        else:
            if al >= 0 and bl >= 0:
                lo, hi = 0, (min(ah, bh) if op == '&' else 2**max(ah.bit_length(), bh.bit_length()) - 1)
            elif op == '&' and (al >= 0 or bl >= 0):
                lo, hi = 0, (ah if al >= 0 else bh)
            else:
                n = max(x.bit_length() for x in (al, ah, bl, bh))
                lo, hi = -2**n, 2**n - 1
        return (e, lo, hi) if within(lo, hi, e.st) else None

    def in_range(self, depth, lo, hi):
        """An expression with values in lo..hi, or None."""
        for _ in range(6):
            e, a, b = self.int_expr(depth)
            if self.idx and self.r.random() < 0.6:
                # @index in one place only
                ix = Expr('index', st=('int', 64, True, 64))
                m = min(hi, self.r.choice([3, 7, 100]))
                if m > 0:
                    self.idx = False
                    try:
                        e, a, b = self.index_once(ix, depth, m)
                    finally:
                        self.idx = True
            if lo <= a and b <= hi:
                return e
            n = (hi - max(lo, 0) + 1).bit_length() - 1
            if n < 1 or lo > hi - 1:
                continue
            m = min(2**n - 1, 2**31 - 1)
            if not within(a, b, common(promote(e.st), promote(LIT))):
                continue
            e = self.paren(binop('&', e, lit(m, self.g.num_lit(m))))
            base = max(lo, 0)
            if base == 0:
                return e
            return binop('+', e, lit(base)) if m + base <= hi and base < 2**30 else None
        return None

    def index_once(self, ix, depth, m):
        r = self.r
        k = r.randrange(6)
        ix = self.paren(binop('%', ix, lit(m + 1))) if k != 5 else self.paren(binop(r.choice(['<', '==', '!=', '>']), ix, lit(r.randint(0, 3))))
        if k == 0:
            return ix, 0, m
        if k == 1:
            return binop('/', ix, lit(r.randint(1, 3))), 0, m
        if k == 2:
            x = r.randint(0, 2)
            return binop('-', self.paren(binop('+', lit(x), ix)), lit(x)), 0, m
        o, lo, hi = self.literal(0, m)
        if r.random() < 0.5:
            o, lo, hi = self.small(1)
            o, lo, hi = self.paren(binop('%', o, lit(m + 1))), 0, m
        if k == 3:
            return tern(self.bool_expr(1), ix, o), 0, m
        if k == 4:
            return tern(self.bool_expr(1), o, ix), 0, m
        return tern(ix, o, lit(r.randint(0, m))), 0, m

    # ---- other types
    def compare(self, depth):
        for _ in range(8):
            a, al, ah = self.int_expr(depth)
            b, bl, bh = self.int_expr(depth)
            if self.r.random() < 0.4 and ah - al > 2:
                v = min(ah, max(al, self.r.choice([al, ah, 0, 1, self.r.randint(-3, 9), (al + ah) // 2])))
                if -2**31 < v < 2**31:
                    b, bl, bh = lit(v, self.g.num_lit(v)), v, v
            st = common(a.st, b.st)
            if within(al, ah, st) and within(bl, bh, st):
                return binop(self.r.choice(['==', '!=', '<', '<=', '>', '>=']), a, b)
        return binop('<', lit(1), lit(2))

    def bool_expr(self, depth):
        r = self.r
        c = [(lambda: self.compare(depth - 1), 4)]
        if depth > 0:
            c.append((lambda: binop(r.choice(['&&', '||']), self.bool_expr(depth - 1), self.bool_expr(depth - 1)), 4))
            c.append((lambda: Expr('un', '!', self.paren(self.bool_expr(depth - 1)), st='bool'), 1))
            c.append((lambda: self.paren(self.bool_expr(depth - 1)), 0.5))
            c.append((lambda: binop(r.choice(['==', '!=']), self.paren(self.bool_expr(depth - 1)), self.paren(self.bool_expr(depth - 1))), 0.6))
            c.append((lambda: Expr('tern', self.bool_expr(depth - 1), self.bool_expr(depth - 1), self.bool_expr(depth - 1), st='bool'), 0.7))
        for it in self.items:
            ty = it.ty
            if it.arr:
                continue
            if isinstance(ty, Prim) and ty.kind == 'bool':
                c.append((lambda it=it: it.expr, 1.5))
            elif isinstance(ty, Prim) and ty.kind == 'string':
                c.append((lambda it=it: binop(r.choice(['==', '!=']), it.expr, self.string_lit()), 0.7))
            elif ty.__class__ is Enum:
                c.append((lambda ty=ty: binop(r.choice(['==', '!=']), self.enum_expr(ty, depth - 1), self.enum_expr(ty, depth - 1)), 1.5))
            elif ty.__class__ is Bitmask:
                c.append((lambda ty=ty, it=it: Expr('isset', it.expr, self.g.bm_value(ty), st='bool'), 1.5))
                c.append((lambda ty=ty: binop(r.choice(['==', '!=']), self.paren(self.bm_expr(ty, depth - 1)), self.paren(self.bm_expr(ty, depth - 1))), 0.7))
            elif isinstance(ty, Compound):
                for f in ty.funcs:
                    if isinstance(f.use.ty, Prim) and f.use.ty.kind == 'bool':
                        c.append((lambda it=it, f=f: Expr('call', it.expr, f.name, st='bool'), 1.5))
        if self.owner is not None:
            for f in self.owner.funcs:
                if isinstance(f.use.ty, Prim) and f.use.ty.kind == 'bool':
                    c.append((lambda f=f: Expr('call', None, f.name, st='bool'), 1.5))
        for k in self.g.consts:
            if isinstance(k.use.ty, Prim) and k.use.ty.kind == 'bool':
                c.append((lambda k=k: Expr('const', k.value, st='bool', txt=k.name), 0.7))
        if self.const or r.random() < 0.1:
            for ty in self.g.enums + self.g.bitmasks:
                c.append((lambda ty=ty: binop(r.choice(['==', '!=']), self.fixed_item(ty), self.fixed_item(ty)), 0.3))
        if r.random() < 0.03:
            return lit(r.random() < 0.5)
        return self.g.pick(c)()

    def fixed_item(self, ty):
        return self.g.enum_item(ty, self.r.randrange(len(ty.items))) if ty.kind == 'enum' else self.paren(self.g.bm_value(ty))

    def string_lit(self):
        r = self.r
        c = [k for k in self.g.consts if isinstance(k.use.ty, Prim) and k.use.ty.kind == 'string']
        if c and r.random() < 0.4:
            k = r.choice(c)
            return Expr('const', k.value, st='string', txt=k.name)
        if r.random() < 0.25:
            return binop('+', self.string_lit(), self.string_lit())
        v = r.choice(['', 'a', 'zserio', 'x y', 'A9_'])
        txt = v
        if r.random() < 0.3:
            ps = [r.choice(STRING_PARTS) for _ in range(r.randint(1, 5))]
            v, txt = ''.join(p[1] for p in ps), ''.join(p[0] for p in ps)
        return Expr('lit', v, st='string', txt='"%s"' % txt)

    def enum_expr(self, e, depth):
        c = [it for it in self.items if it.ty is e and not it.arr]
        r = self.r.random()
        if depth > 0 and r < 0.2:
            return self.paren(Expr('tern', self.bool_expr(depth - 1), self.enum_expr(e, depth - 1), self.enum_expr(e, depth - 1), st=e))
        if c and r < 0.75:
            return self.r.choice(c).expr
        return self.g.enum_item(e, self.r.randrange(len(e.items)))

    def bm_expr(self, b, depth):
        c = [it for it in self.items if it.ty is b and not it.arr]
        r = self.r.random()
        if depth > 0 and r < 0.45:
            op = self.r.choice(['|', '&', '^', '&~'])
            l, q = self.bm_expr(b, depth - 1), self.bm_expr(b, depth - 1)
            if op == '&~':
                return binop('&', l, Expr('un', '~', self.paren(q) if q.op == 'bin' else q, st=b))
            return binop(op, l, q)
        if depth > 0 and r < 0.55:
            return self.paren(Expr('tern', self.bool_expr(depth - 1), self.bm_expr(b, depth - 1), self.bm_expr(b, depth - 1), st=b))
        if c and r < 0.85:
            return self.r.choice(c).expr
        return self.g.bm_value(b)

    # ---- functions
    def function(self, depth):
        """(Use, Expr) of a function."""
        r = self.r
        c = [('int', 5), ('bool', 2)]
        for it in self.items:
            if not it.arr and it.ty.__class__ is Enum:
                c.append((('enum', it.ty), 1))
            elif not it.arr and it.ty.__class__ is Bitmask:
                c.append((('bm', it.ty), 1))
            elif not it.arr and isinstance(it.ty, Prim) and it.ty.kind in ('string', 'f32', 'f64'):
                c.append((('item', it), 0.6))
            elif not it.arr and isinstance(it.ty, Compound) and not it.ty.params and it.expr.op != 'call':
                c.append((('comp', it), 2))
        k = self.g.pick(c)
        if k == 'bool':
            return Use(prim('bool')), self.bool_expr(depth)
        if k == 'int':
            e, lo, hi = self.int_expr(depth)
            ts = []
            for n in ('uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'varsize', 'varuint', 'varint64', 'bit:%d' % r.randint(1, 64)):
                a, b = int_range(prim(n))
                if a <= lo and hi <= b:
                    ts.append(n)
            if not ts:
                return None
            return Use(prim(r.choice(ts))), e
        if k[0] == 'enum':
            return Use(k[1]), self.enum_expr(k[1], depth)
        if k[0] == 'bm':
            return Use(k[1]), self.bm_expr(k[1], depth)
        if k[0] == 'comp':
            same = [it.expr for it in self.items if it.ty is k[1].ty and not it.arr and it.expr.op != 'call']
            e = k[1].expr
            if r.random() < 0.4:
                e = Expr('tern', self.bool_expr(1), e, r.choice(same), st=e.st)
            return Use(k[1].ty), e
        return Use(k[1].ty), k[1].expr
