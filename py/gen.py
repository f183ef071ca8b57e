"""Random schemas."""
import re
import struct
from exprs import ExprGen
from zt import *

FNAMES = ['alpha', 'beta', 'gamma', 'delta', 'numItems', 'x', 'y', 'theValue', 'kind', 'cnt', 'fooBar', 'bar2', 'longFieldName',
          'data', 'info', 'z', 'flags', 'color', 'item', 'payload', 'n', 'm', 'width', 'count2', 'aBc', 'head', 'tail', 'body',
          'snake_name', 'q1', 'val', 'left', 'right', 'origin', 'level', 'amount', 'idValue', 'pos', 'speed', 'mass', 'w4', 'tag',
          'opt', 'extra', 'more', 'list', 'table', 'cell', 'row', 'col', 'key', 'text', 'note', 'mark', 'step', 'rate']
TNAMES = ['Foo', 'Bar', 'Outer', 'Inner', 'Header', 'Block', 'Item', 'Node', 'Data', 'Info', 'Shape', 'Point', 'Line', 'Tile', 'Layer',
          'Record', 'Entry', 'Pair', 'Chunk', 'Frame', 'Packet', 'Message', 'Group', 'Row', 'Cell', 'Road', 'Lane', 'Route', 'Stop', 'Sign',
          'Alpha', 'Beta', 'Gamma', 'Delta', 'Omega', 'Sigma', 'Kappa', 'Theta', 'Branch', 'Leaf', 'Root', 'Graph', 'Edge', 'Vertex']
ENAMES = ['Color', 'Kind', 'Mode', 'State', 'Level', 'Unit', 'Dir', 'Role', 'Phase', 'Grade']
BNAMES = ['Flags', 'Perms', 'Attrs', 'Caps', 'Traits', 'Opts', 'Masks']
INAMES = ['NONE', 'RED', 'GREEN', 'BLUE', 'A', 'B', 'C', 'D_E', 'LONG_NAME', 'X1', 'MORE_THAN_4', 'last', 'Mixed', 'camelCase', 'UNKNOWN', 'E2']
PNAMES = ['par', 'numElems', 'sel', 'cfg', 'limit', 'hdr', 'parent', 'base', 'ctl', 'size2']
FUNCS = ['getValue', 'total', 'isValid', 'calc', 'getCount', 'check', 'sum2', 'numEntries']

# names which mean something in Rust or in the generated code
KWORDS = ['as', 'async', 'await', 'box', 'break', 'continue', 'crate', 'dyn', 'final', 'fn', 'for', 'impl', 'in', 'let', 'loop', 'macro', 'match',
          'mod', 'move', 'mut', 'priv', 'pub', 'ref', 'self', 'static', 'super', 'trait', 'try', 'type', 'use', 'where', 'while', 'yield', 'gen', 'becoming']
LOCALS = ['writer', 'reader', 'bitPosition', 'endPosition', 'contextNode', 'context', 'value', 'result', 'index', 'node', 'size', 'new', 'len',
          'element', 'i', 'v', 'offset', 'selector', 'vec', 'array', 'u8', 'str', 'ztype', 'children', 'ok', 'none', 'option', 'data_view', 'vendor', 'std', 'core']
KTYPES = ['Option', 'String', 'Result', 'Vec', 'Box', 'Default', 'Some', 'Ok', 'Err', 'Clone', 'Copy', 'Debug', 'BitReader', 'BitWriter', 'Match', 'Fn',
          'Self', 'Type', 'Mod', 'From', 'Crate', 'Error', 'Std', 'Bitmask', 'Selector', 'PartialEq', 'DeltaContext', 'Loop', 'TryFrom']
KITEMS = ['Error', 'Self', 'type', 'Ok', 'Err', 'None', 'Some', 'match', 'Default', 'bits', 'from', 'String', 'SELF', 'as', 'all', 'Option', 'i64']

DEFAULT = dict(
    n_compounds=(2, 4), n_fields=(1, 5), n_enums=(0, 2), n_bitmasks=(0, 2), n_consts=(0, 1), n_subtypes=(0, 2),
    prims=['uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'bit', 'int', 'bool', 'varint16', 'varint32',
           'varint64', 'varint', 'varuint16', 'varuint32', 'varuint64', 'varuint', 'varsize', 'float16', 'float32', 'float64',
           'string', 'extern', 'bytes'],
    w_prim=6, w_enum=1, w_bitmask=1, w_compound=3, w_dyn=0.7,
    p_array=0.3, p_packed=0.35, p_opt=0.15, p_cond=0.15, p_align=0.08, p_offset=0.06, p_ioffset=0.1, p_param=0.35, p_func=0.2, p_pack_offsets=0.6, p_dot_offset=0.5,
    w_struct=5, w_choice=1.5, w_union=1.5, arr_kinds=['auto', 'auto', 'expr', 'fixed'],
    p_sub=0, p_kw=0, p_const_val=0, p_sel_expr=0, n_int_subs=(0, 0), n_int_consts=(0, 0), p_comp_sub=0,
    cond_depth=1, expr_depth=3, opt_align=False, expr_style='simple', p_nested_arr_pack=0.5, enum_big=True, bitmask_max=2**64 - 1,
)


def profile(**kw):
    d = dict(DEFAULT)
    d.update(kw)
    return d


class Item:
    """Something an expression in the current scope can refer to."""

    def __init__(self, expr, ty, arr=False, holder=None, uncond=True):
        self.expr, self.ty, self.arr, self.holder, self.uncond = expr, ty, arr, holder, uncond


def bits_for(v):
    return max(1, v.bit_length())


class Gen:
    def __init__(self, rng, prof):
        self.r, self.p = rng, prof
        self.s = Schema()
        self.used = set()
        self.enums, self.bitmasks, self.consts, self.subtypes, self.comps = [], [], [], [], []
        self.subs = {}      # declaration -> subtypes of it

    # ---- helpers
    def chance(self, k):
        return self.r.random() < (self.p[k] if isinstance(k, str) else k)

    def rich(self, p):
        return self.p['expr_style'] == 'rich' and self.r.random() < p

    def count(self, k):
        return self.r.randint(*self.p[k])

    def pick(self, pairs):
        pairs = [(v, w) for v, w in pairs if w > 0]
        x = self.r.random() * sum(w for _, w in pairs)
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def fresh(self, pool, used):
        if self.chance('p_kw'):
            k = {id(TNAMES): KTYPES, id(ENAMES): KTYPES, id(BNAMES): KTYPES, id(INAMES): KITEMS, id(FUNCS): KWORDS}
            other = ['SELF', 'TYPE', 'MATCH', 'MOVE', 'Fn', 'Loop'] if pool[0].isupper() else self.r.choice([KWORDS, KWORDS, LOCALS])
            pool = k.get(id(pool), other)
        if self.p.get('tnames') and any(pool is x for x in (TNAMES, ENAMES, BNAMES)):
            pool = self.p['tnames']
        while True:
            n = self.r.choice(pool)
            if self.r.random() < 0.15 or all(p.lower() in used for p in pool):
                n += str(self.r.randint(1, 99))
            k = n.lower().replace('_', '')
            if k not in used:
                used.add(k)
                return n

    def num_lit(self, v, plain=False):
        if plain or v < 0:
            return str(v)
        f = self.r.random()
        if f < 0.7:
            return str(v)
        if f < 0.85:
            return hex(v) if self.r.random() < 0.5 else '0X%X' % v
        if f < 0.93 and self.p.get('octal', True):
            return '0%o' % v if v else '0'
        return '%sb' % bin(v)[2:] if self.p.get('binlit', True) else str(v)

    # ---- declarations
    def build(self):
        pkg = Package(self.p.get('package', 'pk'))
        self.pkg = pkg
        self.s.packages.append(pkg)
        for _ in range(self.count('n_int_subs')):
            self.int_subtype()
        for _ in range(self.count('n_int_consts')):
            self.const(simple=True)
        for _ in range(self.count('n_enums')):
            self.add(self.enum())
        for _ in range(self.count('n_bitmasks')):
            self.add(self.bitmask())
        for _ in range(self.count('n_subtypes')):
            self.subtype()
        for _ in range(self.count('n_consts')):
            self.const()
        n = self.count('n_compounds')
        for i in range(n):
            k = self.pick([('struct', self.p['w_struct']), ('choice', self.p['w_choice']), ('union', self.p['w_union'])])
            if i == n - 1 and self.p.get('last_struct', True):
                k = 'struct'
            c = {'struct': self.struct, 'choice': self.choice, 'union': self.union}[k](last=i == n - 1)
            self.add(c)
            self.comps.append(c)
            if self.chance('p_comp_sub'):
                self.alias(c)
        if self.p.get('shuffle', True):
            self.r.shuffle(pkg.decls)
        return self.s

    def add(self, d):
        self.pkg.decls.append(d)
        if d.kind == 'enum':
            self.enums.append(d)
        elif d.kind == 'bitmask':
            self.bitmasks.append(d)
        if d.kind in ('enum', 'bitmask') and self.chance('p_sub'):
            self.alias(d)
        return d

    # ---- subtypes
    def alias(self, d):
        """A subtype (or a chain of them) of a declaration."""
        for _ in range(self.r.choice([1, 1, 2])):
            text = self.r.choice([d.name] + [x.name for x in self.subs.get(d, [])])
            x = Subtype(self.pkg, self.fresh(TNAMES, self.used), Use(d, text))
            self.pkg.decls.append(x)
            self.subs.setdefault(d, []).append(x)

    def ref(self, d):
        """Text that refers to d: its name, or that of a subtype."""
        c = self.subs.get(d)
        return self.r.choice(c).name if c and self.r.random() < 0.6 else d.name

    def int_subtype(self):
        u = self.base_type() if self.r.random() < 0.5 else self.base_type(unsigned=True)
        c = [x for x in self.subtypes if is_int(x.use.ty)]
        if c and self.r.random() < 0.4:
            x = self.r.choice(c)
            u = Use(x.use.ty, x.name)
        d = Subtype(self.pkg, self.fresh(TNAMES, self.used), u)
        self.pkg.decls.append(d)
        self.subtypes.append(d)

    def int_use(self, names, unsigned=False):
        """An integer type: one of the names, or a subtype of any integer."""
        if self.chance('p_sub'):
            c = [x for x in self.subtypes if is_int(x.use.ty) and not (unsigned and int_range(x.use.ty)[0] < 0)]
            if c:
                x = self.r.choice(c)
                return Use(x.use.ty, x.name)
        return Use(prim(self.r.choice(names)))

    def const_text(self, v, plain=None):
        """Text for a value: a literal, or an expression of constants."""
        if self.chance('p_const_val'):
            c = [x for x in self.consts if is_int(x.use.ty) and abs(x.value) < 2**20 and
                 (v >= 0 or int_range(x.use.ty)[1] < 2**63)]     # no unsigned 64-bit arithmetic below zero
            c = [x for x in c if x.value == v] or c
            if c:
                x = self.r.choice(c)
                k = v - x.value
                if k == 0:
                    return x.name
                f = self.r.random()
                if x.value > 0 and v > x.value and v % x.value == 0 and f < 0.4:
                    return '%s * %s' % (x.name, self.num_lit(v // x.value))
                if x.value > 0 and v > 0 and v >> (v.bit_length() - x.value.bit_length() if v.bit_length() > x.value.bit_length() else 0) == x.value \
                        and v == x.value << (v.bit_length() - x.value.bit_length()) and f < 0.8:
                    return '%s << %d' % (x.name, v.bit_length() - x.value.bit_length())
                if abs(k) < 2**31:
                    if x.value < 0 and f < 0.3:
                        return '-(-%s) %s %d' % (x.name, '+' if k > 0 else '-', abs(k))
                    return '%s %s %s' % (x.name, '+' if k > 0 else '-', self.num_lit(abs(k)))
        return plain if plain is not None else self.num_lit(v) if v >= 0 else str(v)

    def base_type(self, unsigned=False):
        names = ['uint8', 'uint16', 'uint32', 'uint64', 'bit:%d' % self.r.randint(2, 60), 'bit:%d' % self.r.randint(2, 8)]
        if not unsigned:
            names += ['int8', 'int16', 'int32', 'int64', 'int:%d' % self.r.randint(3, 33)]
        names += self.p.get('enum_var_bases', [] if unsigned else ['varuint16', 'varint32', 'varsize'])
        return Use(prim(self.r.choice(names)))

    def enum(self):
        base = self.base_type()
        if self.chance('p_sub'):
            base = self.int_use([base.ty.name])
        lo, hi = int_range(base.ty)
        items, nxt, names, vals = [], 0, set(), set()
        for _ in range(self.r.randint(1, 6)):
            n = self.fresh(INAMES, names)
            v = nxt
            if self.r.random() < 0.4:
                v = self.r.choice([nxt + self.r.randint(0, 5), min(hi, nxt + 100), self.r.randint(max(lo, -2**31), min(hi, 2**31 - 1))])
                if self.p.get('enum_big') and self.r.random() < 0.3:
                    v = self.r.choice([lo, hi, hi - 1, hi // 2 + 1, self.r.randint(lo, hi)])
            if v in vals or not lo <= v <= hi:
                if nxt in vals or nxt > hi:
                    break
                v = nxt
            t = None if v == nxt and self.r.random() < 0.7 else self.const_text(v)
            items.append((n, t, v))
            vals.add(v)
            nxt = v + 1
        return Enum(self.pkg, self.fresh(ENAMES, self.used), base, self.plain_items(items))

    def bitmask(self):
        base = self.base_type(unsigned=True)
        c = [x for x in self.subtypes if is_int(x.use.ty) and x.use.ty.kind == 'u']
        if c and self.chance('p_sub'):
            x = self.r.choice(c)
            base = Use(x.use.ty, x.name)
        lo, hi = int_range(base.ty)
        items, names, allv = [], set(), 0
        nxt = 1
        for _ in range(self.r.randint(1, 5)):
            n = self.fresh(INAMES, names)
            v, t = nxt, None
            if self.r.random() < 0.4:
                v = self.r.choice([nxt, nxt << self.r.randint(0, 3), nxt << self.r.randint(0, 3), nxt | (nxt << 1), 0 if not items else nxt])
                t = self.const_text(v)
            elif items and items[-1][2] == 0:
                t = self.num_lit(v)
            if v > hi or v > self.p.get('bitmask_max', 2**31 - 1):
                break
            items.append((n, t, v))
            allv |= v
            nxt = 1 << max(v, allv).bit_length()
            if nxt > hi:
                break
        if not items:
            items = [('A', None, 1)]
        return Bitmask(self.pkg, self.fresh(BNAMES, self.used), base, self.plain_items(items))

    def subtype(self):
        u = self.leaf_use(no_sub=self.r.random() < 0.5)
        n = self.fresh(TNAMES, self.used)
        d = Subtype(self.pkg, n, u)
        self.pkg.decls.append(d)
        self.subtypes.append(d)

    def const_name(self, names):
        if self.r.random() < 0.15:      # an enum or bitmask may have an item of this name
            names = [n for n in INAMES if n[0].isupper()]
        return self.fresh(names, self.used)

    def plain_items(self, items):
        """Where an item has the name of a constant, the constant can't be used in the values."""
        if {i[0] for i in items} & {c.name for c in self.consts}:
            return [(n, t if t is None else self.num_lit(v) if v >= 0 else str(v), v) for n, t, v in items]
        return items

    def const(self, simple=False):
        if not simple and self.rich(0.7):
            return self.rich_const()
        u = self.int_use(['uint8', 'int32', 'uint16', 'bit:7', 'varsize', 'uint32', 'int16'])
        ty = u.ty
        lo, hi = int_range(ty)
        v = self.r.choice([self.r.randint(0, min(5, hi)), self.r.randint(max(lo, -1000), min(hi, 1000))])
        n = self.const_name(['MAX_COUNT', 'LIMIT', 'SIZE', 'NUM_X', 'DEFAULT_VALUE', 'TEN'])
        d = Const(self.pkg, n, u, lit(v, self.const_text(v)), v)
        self.pkg.decls.append(d)
        self.consts.append(d)

    def rich_const(self):
        g, r = ExprGen(self, [], const=True), self.r
        k = self.pick([('int', 4), ('bool', 1.5), ('string', 1), ('float', 0.7)])
        n = self.const_name(['MAX_COUNT', 'LIMIT', 'SIZE', 'NUM_X', 'DEFAULT_VALUE', 'TEN', 'MASK', 'NAME', 'IS_ON', 'BEST'])
        if k == 'int':
            u, e = None, None
            if r.random() < 0.25:
                u = self.base_type()
                lo, hi = int_range(u.ty)
                v = r.choice([lo, hi, r.randint(lo, hi)])
                e = lit(v, self.num_lit(v))
            while not u:
                f = g.function(3)
                if f and is_int(f[0].ty):
                    u, e = f
        elif k == 'bool':
            u, e = Use(prim('bool')), g.bool_expr(2)
        elif k == 'string':
            u, e = Use(prim('string')), g.string_lit()
        else:
            u = Use(prim(r.choice(['float32', 'float64', 'float16'])))
            v = r.randint(-64, 64) / r.choice([1, 2, 4, 8])
            e = Expr('lit', v, st='float', txt=repr(v))
        v = e.ev(None)
        if k == 'float':
            v = int.from_bytes(struct.pack({'f16': '>e', 'f32': '>f', 'f64': '>d'}[u.ty.kind], v), 'big')
        d = Const(self.pkg, n, u, e, v)
        self.pkg.decls.append(d)
        self.consts.append(d)

    # ---- types
    def prim_use(self, names=None):
        n = self.r.choice(names or self.p['prims'])
        if n == 'bit':
            n = 'bit:%d' % self.r.choice([1, 2, 7, 8, 9, 31, 32, 33, 63, 64, self.r.randint(1, 64)])
        elif n == 'int':
            n = 'int:%d' % self.r.choice([1, 2, 7, 8, 9, 31, 32, 33, 63, 64, self.r.randint(1, 64)])
        return Use(prim(n))

    def leaf_use(self, no_sub=False):
        """A scalar or enum or bitmask, possibly through a subtype."""
        if not no_sub and self.subtypes and self.r.random() < 0.25:
            d = self.r.choice(self.subtypes)
            return Use(d.use.ty, d.name)
        k = self.pick([('prim', self.p['w_prim']), ('enum', self.p['w_enum'] if self.enums else 0),
                       ('bitmask', self.p['w_bitmask'] if self.bitmasks else 0)])
        if k == 'enum':
            d = self.r.choice(self.enums)
            return Use(d, self.ref(d))
        if k == 'bitmask':
            d = self.r.choice(self.bitmasks)
            return Use(d, self.ref(d))
        return self.prim_use()

    def type_use(self, scope, in_array=False):
        """Type of a field: leaf, dynamic bit field, or compound with arguments."""
        k = self.pick([('leaf', self.p['w_prim']), ('compound', self.p['w_compound'] if self.comps else 0),
                       ('dyn', self.p['w_dyn'])])
        if k == 'dyn':
            w = self.width_expr(scope)
            if w is not None:
                signed = self.r.random() < 0.4
                t = 'int<>' if signed else 'bit<>'
                return Use(Prim('i' if signed else 'u', 0, t, w), t)
        if k == 'compound':
            c = self.r.choice(self.comps)
            return self.compound_use(c, scope, in_array)
        return self.leaf_use()

    def compound_use(self, c, scope, in_array):
        args = []
        for p in c.params:
            a = self.arg_for(p, scope, in_array)
            if a is None:
                return self.leaf_use()
            args.append(a)
        return Use(c, self.ref(c), args)

    def arg_for(self, p, scope, in_array):
        ty, role = p.use.ty, getattr(p, 'role', None)
        if self.rich(0.6):
            g = ExprGen(self, scope, idx=bool(in_array) and self.p.get('index_args', True))
            e = None
            if is_int(ty) and (role is None or role[0] == 'range'):
                e = g.in_range(self.p['expr_depth'], *(role[1:] if role else int_range(ty)))
            elif ty.__class__ is Enum and role is None:
                e = g.enum_expr(ty, 2)
            elif ty.__class__ is Bitmask:
                e = g.bm_expr(ty, 2)
            elif isinstance(ty, Prim) and ty.kind == 'bool':
                e = g.bool_expr(2)
            if e is not None:
                return e
        if is_int(ty):
            c = []
            for it in scope:
                if it.arr or not is_int(it.ty) or not it.uncond or it.ty.dyn is not None:
                    continue
                lo, hi = int_range(it.ty)
                if role is None:
                    plo, phi = int_range(ty)
                    if plo <= lo and hi <= phi:
                        c.append(it)
                elif it.holder is not None and it.holder.role in (None, role) and self.role_fits(it.ty, role):
                    c.append(it)
            if c and self.r.random() < 0.8:
                it = self.r.choice(c)
                if role is not None:
                    it.holder.role = role
                e = it.expr
                if role is None and self.r.random() < 0.2 and self.p['expr_style'] != 'plain':
                    hi = int_range(ty)[1]
                    e = binop('%', e, lit(self.r.randint(2, 7))) if int_range(it.ty)[0] >= 0 else e
                return e
            if in_array and role and role[0] == 'range' and role[1] == 0 and self.r.random() < 0.5 and self.p.get('index_args', True):
                return Expr('index', st=('int', 64, True, 64))
            if role:
                v = self.r.choice(role[1]) if role[0] == 'set' else self.r.randint(role[1], role[2])
            else:
                lo, hi = int_range(ty)
                v = self.r.randint(max(0, lo), min(hi, 100))
            return lit(v, self.num_lit(v))
        if isinstance(ty, Enum):
            c = [it for it in scope if it.ty is ty and not it.arr and it.uncond and
                 (role is None or (it.holder is not None and it.holder.role in (None, role)))]
            if c:
                it = self.r.choice(c)
                if role is not None:
                    it.holder.role = role
                return it.expr
            if ty.__class__ is Enum:
                return self.enum_item(ty, self.r.choice(role[1]) if role else self.r.randrange(len(ty.items)))
            return None
        if isinstance(ty, Prim):
            c = [it for it in scope if isinstance(it.ty, Prim) and it.ty.kind == ty.kind and not it.arr and it.uncond]
            if c:
                return self.r.choice(c).expr
            if ty.kind == 'bool':
                return lit(self.r.random() < 0.5)
            return None
        # a compound parameter
        c = [it for it in scope if it.ty is ty and it.uncond and it.arr is False]
        if in_array:
            ca = [it for it in scope if it.ty is ty and it.uncond and it.arr == 'len' and it.len_key is not None
                  and it.len_key == in_array]
            if ca:
                return Expr('at', self.r.choice(ca).expr, Expr('index', st=('int', 64, True, 64)), st=ty)
        if c:
            return self.r.choice(c).expr
        return None

    def role_fits(self, ty, role):
        lo, hi = int_range(ty)
        if role[0] == 'set':
            return all(lo <= v <= hi for v in role[1])
        return lo <= role[1] and role[2] <= hi

    def enum_item(self, e, i):
        return Expr('enumitem', i, st=e, txt='%s.%s' % (self.ref(e), e.items[i][0]))

    def bm_value(self, b):
        n, _, v = self.r.choice(b.items)
        return Expr('bmval', v, st=b, txt='%s.%s' % (self.ref(b), n))

    # ---- expressions
    def sources(self, scope, role):
        out = []
        for it in scope:
            if it.arr or not is_int(it.ty) or it.ty.dyn is not None or not it.uncond or it.holder is None:
                continue
            if it.holder.role not in (None, role) or not self.role_fits(it.ty, role):
                continue
            out.append(it)
        return out

    def len_expr(self, scope):
        """Array length: (Expr, key identifying the length) or None."""
        if self.rich(0.6):
            e = ExprGen(self, scope).in_range(self.p['expr_depth'], 0, self.r.choice([3, 4, 7]))
            if e is not None:
                return e, e.text()
        role = ('range', 0, 4)
        src = self.sources(scope, role)
        arrs = [it for it in scope if it.arr and it.uncond]
        k = self.pick([('src', 5 if src else 0), ('lengthof', 1 if arrs and self.p['expr_style'] != 'plain' else 0), ('const', 0.3)])
        if k == 'src':
            it = self.r.choice(src)
            it.holder.role = role
            e = it.expr
            f = self.r.random()
            if self.p['expr_style'] == 'plain' or f < 0.65:
                pass
            elif f < 0.8:
                e = binop('+', e, lit(self.r.randint(1, 2)))
            elif f < 0.9:
                e = binop('*', e, lit(2))
            else:
                e = binop('%', e, lit(3))
            return e, e.text()
        if k == 'lengthof':
            e = Expr('lengthof', self.r.choice(arrs).expr, st=static_int(prim('varsize')))
            return e, e.text()
        n = self.r.randint(1, 4)
        return lit(n), str(n)

    def width_expr(self, scope):
        if self.rich(0.6):
            e = ExprGen(self, scope).in_range(self.p['expr_depth'], 1, self.r.choice([16, 33, 64]))
            if e is not None:
                return e if e.op in ('name', 'paren', 'lit') else Expr('paren', e, st=e.st)
        role = ('range', 1, 64)
        src = self.sources(scope, role)
        if not src:
            return None
        it = self.r.choice(src)
        it.holder.role = role
        return it.expr

    def bool_expr(self, scope, depth):
        r = self.r
        if self.rich(0.8):
            return ExprGen(self, scope).bool_expr(depth)
        items = [it for it in scope if it.uncond and not it.arr and not isinstance(it.ty, Compound)
                 and not (isinstance(it.ty, Prim) and (it.ty.dyn is not None or not (is_int(it.ty) or it.ty.kind == 'bool')))]
        if not items:
            return None
        if depth > 0 and r.random() < 0.5:
            k = r.choice(['&&', '||', '!'])
            if k == '!':
                return Expr('un', '!', Expr('paren', self.bool_expr(scope, depth - 1), st='bool'), st='bool')
            return binop(k, self.bool_expr(scope, depth - 1), self.bool_expr(scope, depth - 1))
        r.shuffle(items)
        for it in items:
            if is_int(it.ty) and it.ty.dyn is None:
                lo, hi = int_range(it.ty)
                role = it.holder.role if it.holder is not None else None
                if role and role[0] == 'range':
                    v = r.randint(role[1], role[2])
                elif role:
                    v = r.choice(role[1])
                else:
                    v = min(hi, max(lo, r.randint(-2, 6)))
                v = min(v, 2**31 - 1)
                l = it.expr
                if r.random() < 0.25 and self.p['expr_style'] != 'plain' and v < hi - 2 and lo >= 0 and hi < 2**31:
                    l = binop('&', l, lit(min(hi, 7)))
                    l = Expr('paren', l, st=l.st)
                return binop(r.choice(['==', '!=', '<', '>', '<=', '>=']), l, lit(v, self.num_lit(v) if v >= 0 else None))
            if isinstance(it.ty, Prim) and it.ty.kind == 'bool':
                return it.expr
            if it.ty.__class__ is Enum:
                return binop(r.choice(['==', '==', '!=']), it.expr, self.enum_item(it.ty, r.randrange(len(it.ty.items))))
            if it.ty.__class__ is Bitmask:
                return Expr('isset', it.expr, self.bm_value(it.ty), st='bool')
        return None

    # ---- compounds
    def params(self, want=None):
        out, used = [], set()
        if not self.chance('p_param'):
            return out, used
        for _ in range(self.r.choice([1, 1, 2])):
            k = self.pick([('int', 5), ('enum', 1 if self.enums else 0), ('bitmask', 1 if self.bitmasks else 0),
                           ('bool', 0.7), ('compound', 1.5 if [c for c in self.comps if not c.params and isinstance(c, Struct)] else 0)])
            n = self.fresh(PNAMES, used)
            if k == 'int':
                u = self.int_use(['uint8', 'uint16', 'uint32', 'int32', 'bit:7', 'varsize', 'uint64', 'int64', 'varuint16'])
            elif k == 'enum':
                d = self.r.choice(self.enums)
                u = Use(d, self.ref(d))
            elif k == 'bitmask':
                d = self.r.choice(self.bitmasks)
                u = Use(d, self.ref(d))
            elif k == 'bool':
                u = Use(prim('bool'))
            else:
                d = self.r.choice([c for c in self.comps if not c.params and isinstance(c, Struct)])
                u = Use(d, self.ref(d))
            p = Param(n, u)
            p.role = None
            out.append(p)
        return out, used

    def param_items(self, params):
        out = []
        for p in params:
            out += self.items_of(Expr('name', p.name, st=static(p.use.ty)), p.use.ty, p)
        return out

    def items_of(self, e, ty, holder, uncond=True):
        """Scope items a field or parameter gives rise to: itself and, for structs, the fields inside."""
        out = [Item(e, ty, False, holder, uncond)]
        if isinstance(ty, Struct):
            off = offset_fields(ty)
            for f in ty.fields:
                if f.name not in off and f.opt is None and not isinstance(f.use.ty, Compound):
                    it = Item(Expr('dot', e, f.name, st=static(f.use.ty, f.arr is not None)), f.use.ty,
                              'arr' if f.arr else False, f, uncond)
                    it.len_key = None
                    out.append(it)
        return out

    def make_field(self, scope, names, last=False):
        r = self.r
        f = Field(self.fresh(FNAMES, names), None)
        arr_key = None
        if self.chance('p_array'):
            k = r.choice(self.p['arr_kinds'])
            if k == 'auto':
                f.arr = ('auto',)
            elif k == 'fixed':
                n = r.randint(1, 4)
                c = [c for c in self.consts if is_int(c.use.ty) and 0 <= c.value <= 20]
                if c and r.random() < 0.4:
                    c = r.choice(c)
                    f.arr, arr_key = ('expr', Expr('const', c.value, st=static_int(c.use.ty), txt=c.name)), c.name
                else:
                    f.arr, arr_key = ('expr', lit(n, self.num_lit(n))), str(n)
            else:
                e, arr_key = self.len_expr(scope)
                f.arr = ('expr', e)
        f.use = self.type_use(scope, arr_key or (True if f.arr else False))
        if f.arr and self.chance('p_packed') and self.may_pack(f.use.ty):
            f.packed = True
        if self.chance('p_opt'):
            f.opt = 'optional'
        elif self.chance('p_cond'):
            f.opt = self.bool_expr(scope, self.p['cond_depth'])
        if self.chance('p_align') and (f.opt != 'optional' or self.p['opt_align']):
            f.align = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 24, 32, 33, 64, 128])
        if f.arr and f.arr[0] == 'expr' and self.chance('p_ioffset'):
            # an offset array of the same length
            o = Field(self.fresh(FNAMES, names), Use(prim(r.choice(['uint32', 'uint16', 'uint64', 'uint32']))), arr=f.arr)
            f.offset = (Expr('at', Expr('name', o.name), Expr('index')), True)
            o.holder = True
            return [o, f]
        if self.chance('p_offset'):
            o = self.inner_holder(scope, f) if self.chance('p_dot_offset') else None
            if o:
                f.offset = (o, False)
                return [f]
            o = Field(self.fresh(FNAMES, names), Use(prim(r.choice(['uint32', 'uint16', 'uint8', 'uint64', 'bit:20']))))
            f.offset = (Expr('name', o.name), False)
            o.holder = True
            return [o, f]
        return [f]

    def inner_holder(self, scope, f):
        """A field inside one of the fields so far, which no expression uses, to hold an offset."""
        text = self.s.text() + self.cur.emit() + f.emit()
        c = [it for it in scope if it.uncond and it.expr.op == 'dot' and it.expr.a[0].op == 'name' and not it.arr and isinstance(it.ty, Prim) and
             it.ty.kind == 'u' and it.ty.dyn is None and not it.holder.role and it.holder.init is None and it.holder.constraint is None
             and self.cur.field(it.expr.a[0].a[0]) and not re.search(r'\.\s*%s\b' % it.holder.name, text)
             and not any(len(re.findall(r'\b%s\b' % it.holder.name, d.emit())) > 1 for d in self.comps if it.holder in d.members())]
        if not c:
            return None
        it = self.r.choice(c)
        it.holder.holder = True
        scope[:] = [x for x in scope if x.holder is not it.holder]
        return it.expr

    def may_pack(self, ty):
        return not has_offsets(ty) or self.chance('p_pack_offsets')

    def struct(self, last=False):
        params, names = self.params()
        scope = self.param_items(params)
        d = self.cur = Struct(self.pkg, self.fresh(TNAMES, self.used), params)
        for _ in range(self.count('n_fields')):
            fs = self.make_field(scope, names)
            d.fields += fs
            for f in fs:
                if f.name not in offset_fields(d):
                    self.extend_scope(scope, f)
        self.add_funcs(d, scope, names)
        return d

    def extend_scope(self, scope, f):
        e = Expr('name', f.name, st=static(f.use.ty, f.arr is not None))
        un = f.opt is None
        if f.arr:
            it = Item(e, f.use.ty, 'len', f, un)
            it.len_key = f.arr[1].text() if f.arr[0] == 'expr' else None
            scope.append(it)
        else:
            scope.extend(self.items_of(e, f.use.ty, f if not f.offset else f, un))

    def add_funcs(self, d, scope, names):
        if not self.chance('p_func'):
            return
        for _ in range(self.r.randint(1, 2)):
            n = self.fresh(FUNCS, names)
            if self.rich(0.8):
                uf = ExprGen(self, scope, owner=d).function(self.p['expr_depth'])
                if uf is not None:
                    d.funcs.append(Func(n, *uf))
            elif self.r.random() < 0.5:
                e = self.bool_expr(scope, 1)
                if e is not None:
                    d.funcs.append(Func(n, Use(prim('bool')), e))
            else:
                c = [it for it in scope if not it.arr and it.uncond and is_int(it.ty) and it.ty.dyn is None]
                if c:
                    it = self.r.choice(c)
                    d.funcs.append(Func(n, Use(it.ty, getattr(it.holder, 'use', None) and not it.arr and it.holder.use.text or None), it.expr))

    def member_field(self, scope, names):
        r = self.r
        f = Field(self.fresh(FNAMES, names), None)
        if self.chance('p_array'):
            if r.random() < 0.6:
                f.arr = ('auto',)
            else:
                f.arr = ('expr', self.len_expr(scope)[0])
        f.use = self.type_use(scope, False)     # @index is not allowed in choices and unions
        if f.arr and self.chance('p_packed') and self.may_pack(f.use.ty):
            f.packed = True
        return f

    def union(self, last=False):
        params, names = self.params()
        scope = self.param_items(params)
        d = Union(self.pkg, self.fresh(TNAMES, self.used), params)
        for _ in range(self.r.randint(1, 4)):
            d.fields.append(self.member_field(scope, names))
        if self.p['expr_style'] == 'rich':
            self.add_funcs(d, scope, names)
        return d

    def choice(self, last=False):
        r = self.r
        params, names = self.params()
        scope = self.param_items(params)
        k = self.pick([('int', 3), ('enum', 3 if self.enums else 0), ('bool', 0.6)])
        sel = Param(self.fresh(PNAMES, names), None)
        ncase = r.randint(1, 4)
        labels = []
        conv = lambda v: v
        sel_expr = sel.name
        if k == 'int':
            sel.use = self.int_use(['uint8', 'uint16', 'int32', 'uint32', 'varsize', 'bit:6', 'int8'])
            lo, hi = int_range(sel.use.ty)
            vals = r.sample(range(max(lo, -4), min(hi, 19) + 1), min(8, min(hi, 19) + 1 - max(lo, -4)))
            if self.chance('p_sel_expr') and hi < 2**40:
                sx = Expr('name', sel.name, st=static(sel.use.ty))
                f, m = r.random(), r.randint(1, 9)
                if f < 0.35:
                    sel_expr, conv = binop('+', sx, lit(m)), lambda v: v + m
                elif f < 0.6:
                    sel_expr, conv = binop('*', sx, lit(m)), lambda v: v * m
                elif f < 0.75:
                    sel_expr, conv = binop('-', lit(m), sx), lambda v: m - v
                elif f < 0.85:
                    sel_expr = Expr('paren', sx, st=sx.st)
                else:
                    sel_expr, conv = tern(binop('>', sx, lit(m)), binop('-', sx, lit(1)), lit(-m)), lambda v: v - 1 if v > m else -m
                    seen, keep = set(), []
                    for v in vals:
                        if conv(v) not in seen:
                            seen.add(conv(v))
                            keep.append(v)
                    vals = keep
            mk = lambda v: Expr('label', conv(v), txt=self.const_text(conv(v)))
        elif k == 'enum':
            e = r.choice(self.enums)
            sel.use = Use(e, self.ref(e))
            vals = list(range(len(e.items)))
            r.shuffle(vals)
            mk = lambda v: Expr('label', v, txt=(e.items[v][0] if r.random() < 0.6 else '%s.%s' % (self.ref(e), e.items[v][0])))
        else:
            sel.use = Use(prim('bool'))
            vals = [True, False]
            r.shuffle(vals)
            if self.chance('p_sel_expr'):
                sel_expr, conv = Expr('un', '!', Expr('name', sel.name, st='bool'), st='bool'), lambda v: not v
            mk = lambda v: Expr('label', conv(v), txt='true' if conv(v) else 'false')
        if self.chance('p_sel_expr') and k != 'bool' and sel_expr == sel.name:
            # the selector is a field of a parameter
            h = [(c, f) for c in self.comps if not c.params and isinstance(c, Struct) for f in c.fields
                 if f.role is None and f.opt is None and not f.arr and f.name not in offset_fields(c) and
                 (f.use.ty is sel.use.ty or k == 'int' and is_int(f.use.ty) and f.use.ty.dyn is None)]
            if h:
                c, hf = r.choice(h)
                if k == 'int':
                    lo, hi = int_range(hf.use.ty)
                    vals = r.sample(range(max(lo, -4), min(hi, 19) + 1), min(8, min(hi, 19) + 1 - max(lo, -4)))
                sel.use, sel.holder = Use(c, self.ref(c)), hf
                sel_expr = Expr('dot', Expr('name', sel.name, st=c), hf.name, st=static(hf.use.ty))
        params.insert(r.randrange(len(params) + 1), sel)
        d = Choice(self.pkg, self.fresh(TNAMES, self.used), params, sel_expr, [])
        rest = list(vals)
        for _ in range(ncase):
            if not rest:
                break
            ls = [rest.pop() for _ in range(min(len(rest), r.choice([1, 1, 1, 2])))]
            labels += ls
            f = self.member_field(scope, names) if r.random() < 0.85 else None
            d.cases.append(([mk(v) for v in ls], f))
        if rest and self.p.get('choice_default', True) and r.random() < 0.5:
            d.default = self.member_field(scope, names) if r.random() < 0.75 else 'empty'
            if k == 'int':
                labels.append(rest[0])
            else:
                labels += rest
        role = ('set', labels) if k != 'bool' else None
        if getattr(sel, 'holder', None) is not None:
            sel.role, sel.holder.role = None, role
        else:
            sel.role = role
        if k == 'bool' and not d.default and len(labels) < 2:
            d.default = 'empty'
        if self.p['expr_style'] == 'rich':
            self.add_funcs(d, scope, names)
        return d
