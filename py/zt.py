"""Schema model: types, declarations, expressions, and their zserio source text."""
import re


class Unspec(Exception):
    """The value is outside what the language (or any implementation's integer types) defines."""


class Overflow(Unspec):
    """An expression overflows 64 bits, divides by zero or indexes out of range: the code may panic (finding expr_overflow)."""


class Skip(Unspec):
    """Too big, too slow or too far from the language to be worth deciding."""


# ------------------------------------------------------------------------------------------- types
class Prim:
    """kind: u i (fixed width 'bits', or dynamic width 'dyn') bool f16 f32 f64 string extern bytes and varints."""

    def __init__(self, kind, bits=0, name=None, dyn=None):
        self.kind, self.bits, self.dyn = kind, bits, dyn
        self.name = name or kind

    def __repr__(self):
        return self.name


VARS = {  # name: (bytes, signed, lo, hi)
    'varint16': (2, True, -(2**14 - 1), 2**14 - 1),
    'varint32': (4, True, -(2**28 - 1), 2**28 - 1),
    'varint64': (8, True, -(2**56 - 1), 2**56 - 1),
    'varint': (9, True, -2**63, 2**63 - 1),
    'varuint16': (2, False, 0, 2**15 - 1),
    'varuint32': (4, False, 0, 2**29 - 1),
    'varuint64': (8, False, 0, 2**57 - 1),
    'varuint': (9, False, 0, 2**64 - 1),
    'varsize': (5, False, 0, 2**31 - 1),
}
VAR_RUST_BITS = {'varint16': 16, 'varint32': 32, 'varint64': 64, 'varint': 64, 'varuint16': 16, 'varuint32': 32,
                 'varuint64': 64, 'varuint': 64, 'varsize': 32}


def uint(n):
    return Prim('u', n, 'uint%d' % n)


def sint(n):
    return Prim('i', n, 'int%d' % n)


def bitf(n):
    return Prim('u', n, 'bit:%d' % n)


def intf(n):
    return Prim('i', n, 'int:%d' % n)


def prim(name):
    m = re.fullmatch(r'(u?int)(\d+)', name)
    if m:
        return (uint if m.group(1) == 'uint' else sint)(int(m.group(2)))
    m = re.fullmatch(r'(bit|int):(\d+)', name)
    if m:
        return (bitf if m.group(1) == 'bit' else intf)(int(m.group(2)))
    k = {'float16': 'f16', 'float32': 'f32', 'float64': 'f64'}.get(name, name)
    return Prim(k, 0, name)


class Use:
    """A type as used by a field, parameter or function: the type, its source text, its arguments."""

    def __init__(self, ty, text=None, args=()):
        self.ty = ty
        self.text = text if text is not None else ty.name
        self.args = list(args)
        self.targs = []     # the arguments of an instance of a template: Uses (text is the name of the template)
        self.var = None     # the parameter of the template which stands here in the source text

    def tytext(self):
        if self.var:
            return self.var
        return self.text + ('<%s>' % ', '.join(a.tytext() for a in self.targs) if self.targs else '')

    def emit(self):
        t = self.tytext()
        if isinstance(self.ty, Prim) and self.ty.dyn is not None and text_is_dyn(t):
            t = '%s<%s>' % ('bit' if self.ty.kind == 'u' else 'int', self.ty.dyn.text())
        if self.args:
            t += '(' + ', '.join(a.text() for a in self.args) + ')'
        return t


def text_is_dyn(t):
    return t in ('bit<>', 'int<>')


def is_int(ty):
    return isinstance(ty, Prim) and (ty.kind in ('u', 'i') or ty.kind in VARS)


def packable_leaf(ty):
    return is_int(ty) or isinstance(ty, (Enum, Bitmask))


def int_range(ty):
    if ty.kind == 'u':
        return (0, 2**ty.bits - 1)
    if ty.kind == 'i':
        return (-2**(ty.bits - 1), 2**(ty.bits - 1) - 1)
    return VARS[ty.kind][2:]


# ------------------------------------------------------------------------------------ declarations
class Decl:
    tparams = ()
    shown = None        # the name in the source text, if it is not .name

    def label(self):
        return self.shown or self.name


class Enum(Decl):
    kind = 'enum'

    def __init__(self, pkg, name, base, items):
        self.pkg, self.name, self.base, self.items = pkg, name, base, items  # items: (name, text|None, value)

    def emit(self):
        b = ',\n'.join('    %s%s' % (n, '' if t is None else ' = ' + t) for n, t, _ in self.items)
        return 'enum %s %s\n{\n%s\n};\n' % (self.base.emit(), self.name, b)

    def values(self):
        return [v for _, _, v in self.items]


class Bitmask(Enum):
    kind = 'bitmask'

    def emit(self):
        return 'bitmask' + super().emit()[4:]


class Param:
    def __init__(self, name, use):
        self.name, self.use = name, use


class Field:
    def __init__(self, name, use, arr=None, packed=False, align=None, offset=None, opt=None, init=None, constraint=None):
        # arr: None | ('auto',) | ('expr', Expr) ; opt: None | 'optional' | Expr ; offset: None | (Expr, indexed)
        self.name, self.use, self.arr, self.packed = name, use, arr, packed
        self.align, self.offset, self.opt, self.init, self.constraint = align, offset, opt, init, constraint
        self.role = None
        self.holder = False     # holds an offset of another field, maybe of one in another compound

    def copy(self):
        f = Field(self.name, self.use, self.arr, self.packed, self.align, self.offset, self.opt, self.init, self.constraint)
        f.role, f.holder = self.role, self.holder
        return f

    def emit(self, ind='    '):
        s = ''
        if self.align:
            s += '%salign(%d):\n' % (ind, self.align)
        if self.offset:
            s += '%s%s:\n' % (ind, self.offset[0].text())
        s += ind
        if self.opt == 'optional':
            s += 'optional '
        if self.packed:
            s += 'packed '
        s += self.use.emit() + ' ' + self.name
        if self.arr:
            s += '[]' if self.arr[0] == 'auto' else '[%s]' % self.arr[1].text()
        if self.init is not None:
            s += ' = ' + self.init
        if self.opt and self.opt != 'optional':
            s += ' if ' + self.opt.text()
        if self.constraint:
            s += ' : ' + self.constraint
        return s + ';\n'


class Func:
    def __init__(self, name, use, expr):
        self.name, self.use, self.expr = name, use, expr

    def emit(self):
        return '    function %s %s()\n    {\n        return %s;\n    }\n' % (self.use.emit(), self.name, self.expr.text())


class Compound(Decl):
    def __init__(self, pkg, name, params=(), fields=(), funcs=()):
        self.pkg, self.name = pkg, name
        self.params, self.fields, self.funcs = list(params), list(fields), list(funcs)
        self.tparams = []
        self.inst_of = None     # the Template
        self.named = None       # the Instantiate or Subtype which gives the instance its name

    def field(self, name):
        for f in self.members():
            if f.name == name:
                return f

    def members(self):
        return self.fields

    def param(self, name):
        for p in self.params:
            if p.name == name:
                return p

    def head(self):
        s = '%s %s' % (self.kind, self.name)
        if self.tparams:
            s += '<%s>' % ', '.join(self.tparams)
        if self.params:
            s += '(%s)' % ', '.join(p.use.emit() + ' ' + p.name for p in self.params)
        return s


class Struct(Compound):
    kind = 'struct'

    def emit(self):
        return self.head() + '\n{\n' + ''.join(f.emit() for f in self.fields) + ''.join(f.emit() for f in self.funcs) + '};\n'


class Choice(Compound):
    kind = 'choice'

    def __init__(self, pkg, name, params, sel, cases, default=None, funcs=()):
        # cases: [([label Expr...], Field|None)]; default: None | 'empty' | Field
        Compound.__init__(self, pkg, name, params, (), funcs)
        self.sel, self.cases, self.default = sel, cases, default

    def members(self):
        m = [f for _, f in self.cases if f is not None]
        if isinstance(self.default, Field):
            m.append(self.default)
        return m

    def emit(self):
        s = self.head() + ' on ' + (self.sel if isinstance(self.sel, str) else self.sel.text()) + '\n{\n'
        for labels, f in self.cases:
            for l in labels:
                s += '    case %s:\n' % l.text()
            s += f.emit('        ') if f else '        ;\n'
        if self.default is not None:
            s += '    default:\n' + (self.default.emit('        ') if self.default != 'empty' else '        ;\n')
        return s + ''.join(f.emit() for f in self.funcs) + '};\n'


class Union(Compound):
    kind = 'union'
    emit = Struct.emit


def offset_holder(d, e):
    """The field of d, or of a compound inside d, which holds the offsets designated by expression e."""
    if e.op == 'at':
        return offset_holder(d, e.a[0])
    if e.op == 'dot':
        return offset_holder(d, e.a[0]).use.ty.field(e.a[1])
    return d.field(e.a[0])


def mark_holders(compounds):
    """Fields which hold offsets of other fields are known to their users only, which may be anywhere."""
    for d in compounds:
        for f in d.members():
            f.holder = False
    for d in compounds:
        for f in d.members():
            if f.offset:
                offset_holder(d, f.offset[0]).holder = True


def offset_fields(d):
    """Names of the fields of d that hold offsets of other fields."""
    return {f.name for f in d.members() if f.holder}


def has_offsets(ty, seen=()):
    return isinstance(ty, Compound) and ty not in seen and (
        any(f.offset for f in ty.members()) or any(has_offsets(f.use.ty, seen + (ty,)) for f in ty.members()))


class Const(Decl):
    kind = 'const'

    def __init__(self, pkg, name, use, expr, value):
        self.pkg, self.name, self.use, self.expr, self.value = pkg, name, use, expr, value

    def emit(self):
        return 'const %s %s = %s;\n' % (self.use.emit(), self.name, self.expr.text())


class Subtype(Decl):
    kind = 'subtype'

    def __init__(self, pkg, name, use):
        self.pkg, self.name, self.use = pkg, name, use

    def emit(self):
        return 'subtype %s %s;\n' % (self.use.emit(), self.name)


class Instantiate(Subtype):
    kind = 'instantiate'

    def emit(self):
        return 'instantiate %s %s;\n' % (self.use.emit(), self.name)


class Template(Decl):
    """The source text of a template; proto is one of its instances, some of whose types are shown as template parameters."""
    kind = 'template'

    def __init__(self, pkg, name, proto):
        self.pkg, self.name, self.proto = pkg, name, proto
        self.tparams = []       # names
        self.args = []          # the arguments which make proto
        self.insts = {}         # type keys -> instance

    def emit(self):
        d = self.proto
        keep = d.name
        d.name, d.tparams = self.name, self.tparams
        try:
            return d.emit()
        finally:
            d.name, d.tparams = keep, []


class Package:
    def __init__(self, name):
        self.name, self.imports, self.decls = name, [], []
        self.rename = {}        # names of declarations -> what they are called in the text of this package

    def emit(self):
        s = 'package %s;\n\n' % self.name
        s += ''.join('import %s;\n' % i for i in self.imports) + '\n'
        return s + self.body('\n'.join(d.emit() for d in self.decls))

    def body(self, t):
        if not self.rename:
            return t
        return re.sub(r'\b(%s)\b' % '|'.join(map(re.escape, self.rename)), lambda m: self.rename[m.group(1)], t)

    def path(self):
        return self.name.replace('.', '/') + '.zs'


class Schema:
    """packages; targets: compounds that can be serialized on their own (with their parameters given)."""

    def __init__(self):
        self.packages = []
        self.insts = []     # instantiated templates: compounds with .inst_of set, living in .pkg
        self.features = set()

    def decls(self):
        for p in self.packages:
            for d in p.decls:
                yield d
        yield from self.insts

    def compounds(self):
        return [d for d in self.decls() if isinstance(d, Compound)]

    def text(self):
        return '\n'.join('// %s\n%s' % (p.path(), p.emit()) for p in self.packages)


# -------------------------------------------------------------------------------------------- objects
class Obj:
    """A value of a compound type. vals holds the fields that are stored; sel the union member's name."""
    __slots__ = ('decl', 'params', 'vals', 'sel')

    def __init__(self, decl, params=None):
        self.decl, self.params, self.vals, self.sel = decl, params or {}, {}, None

    def get(self, name):
        if name in self.params:
            return self.params[name]
        return self.vals.get(name)


# --------------------------------------------------------------------------------------- expressions
# static types: ('int', bits, signed, rank) with bits None for literals; 'bool'; Enum; Bitmask; Compound; ('arr', ty); 'string'
PREC = {'?': 1, '||': 2, '&&': 3, '|': 4, '^': 5, '&': 6, '==': 7, '!=': 7, '<': 8, '<=': 8, '>': 8, '>=': 8,
        '<<': 9, '>>': 9, '+': 10, '-': 10, '*': 11, '/': 11, '%': 11, 'u': 12, 'a': 20}


def static_int(ty):
    """('int', bits of the Rust type, signed, rank)"""
    if ty.kind in ('u', 'i'):
        named = ty.name.startswith(('uint', 'int')) and ':' not in ty.name and ty.dyn is None and '<' not in ty.name
        return ('int', ty.bits if named else 64, ty.kind == 'i', ty.bits if ty.dyn is None else 64)
    v = VARS[ty.kind]
    b = VAR_RUST_BITS[ty.kind]
    rank = {'varint16': 15, 'varuint16': 15, 'varint32': 29, 'varuint32': 29, 'varint64': 57, 'varuint64': 57,
            'varsize': 31}.get(ty.kind, 64)
    return ('int', b, v[1], rank)


LIT = ('int', None, None, None)


def promote(a):
    """Integers of less than 64 bits are calculated in 64 bits."""
    return a if a[1] is None or a[3] >= 64 else ('int', 64, True, 64)


def common(a, b):
    if a == b:
        return a
    a, b = promote(a), promote(b)
    if a[1] is None:
        return b
    if b[1] is None or a == b:
        return a
    return a if not a[2] else b if not b[2] else ('int', 64, True, 64)


def fits(v, st):
    if st[1] is None:
        ok = -2**31 <= v <= 2**31 - 1
    elif st[2] is None:
        ok = 0 <= v <= 2**(st[1] - 1) - 1
    elif st[2]:
        ok = -2**(st[1] - 1) <= v <= 2**(st[1] - 1) - 1
    else:
        ok = 0 <= v <= 2**st[1] - 1
    return ok


def check(v, st):
    if not fits(v, st):
        raise Overflow('integer out of range in expression')
    return v


class Expr:
    """op and operands; st is the static type."""

    def __init__(self, op, *a, st=None, txt=None):
        self.op, self.a, self.st, self.txt = op, a, st, txt

    # ---- source text
    def prec(self):
        if self.op == 'bin':
            return PREC[self.a[0]]
        if self.op == 'tern':
            return PREC['?']
        if self.op == 'un':
            return PREC['u']
        if self.op == 'lit' and isinstance(self.a[0], int) and not isinstance(self.a[0], bool) and self.a[0] < 0:
            return PREC['u']
        return PREC['a']

    def wrap(self, minp):
        t = self.text()
        return '(' + t + ')' if self.prec() < minp else t

    def text(self):
        o, a = self.op, self.a
        if o in ('lit', 'const', 'enumitem', 'bmval', 'label'):
            return self.txt
        if o == 'name':
            return a[0]
        if o == 'index':
            return '@index'
        if o == 'dot':
            return a[0].text() + '.' + a[1]
        if o == 'at':
            return '%s[%s]' % (a[0].text(), a[1].text())
        if o == 'call':
            return (a[0].text() + '.' if a[0] is not None else '') + a[1] + '()'
        if o in ('lengthof', 'valueof', 'numbits'):
            return '%s(%s)' % (o, a[0].text())
        if o == 'isset':
            return 'isset(%s, %s)' % (a[0].text(), a[1].text())
        if o == 'paren':
            return '(' + a[0].text() + ')'
        if o == 'un':
            return a[0] + a[1].wrap(PREC['u'] + (1 if a[1].op in ('un', 'lit') and a[0] in '+-' else 0))
        if o == 'bin':
            p = PREC[a[0]]
            return '%s %s %s' % (a[1].wrap(p), a[0], a[2].wrap(p + 1))
        if o == 'tern':
            return '%s ? %s : %s' % (a[0].wrap(2), a[1].wrap(2), a[2].wrap(1))
        raise AssertionError(o)

    # ---- value
    def ev(self, obj, idx=None):
        o, a = self.op, self.a
        if o in ('lit', 'const', 'enumitem', 'bmval', 'label'):
            return a[0]
        if o == 'name':
            v = obj.get(a[0])
            if v is None:
                raise Unspec('absent field in expression')
            return v
        if o == 'index':
            if idx is None:
                raise Unspec('index')
            return idx
        if o == 'paren':
            return a[0].ev(obj, idx)
        if o == 'dot':
            v = a[0].ev(obj, idx).get(a[1])
            if v is None:
                raise Unspec('absent field in expression')
            return v
        if o == 'at':
            arr, i = a[0].ev(obj, idx), a[1].ev(obj, idx)
            if not 0 <= i < len(arr):
                raise Overflow('index out of range')
            return arr[i]
        if o == 'call':
            base = obj if a[0] is None else a[0].ev(obj, idx)
            f = [f for f in base.decl.funcs if f.name == a[1]][0]
            return ev_as(f.expr, base, f.use.ty)
        if o == 'lengthof':
            return len(a[0].ev(obj, idx))
        if o == 'valueof':
            v = a[0].ev(obj, idx)
            return a[0].st.items[v][2] if a[0].st.kind == 'enum' else v
        if o == 'numbits':
            v = a[0].ev(obj, idx)
            if v < 0:
                raise Unspec('numbits of negative')
            return 0 if v == 0 else max(1, (v - 1).bit_length())
        if o == 'isset':
            v, m = a[0].ev(obj, idx), a[1].ev(obj, idx)
            if (v & m == m) != (v & m != 0):
                raise Unspec('isset with several bits: see the known findings')
            return v & m == m
        if o == 'un':
            v = a[1].ev(obj, idx)
            if a[0] == '!':
                return not v
            if a[0] == '~' and isinstance(self.st, Bitmask):
                return ~v & (2**static_int(self.st.base.ty)[1] - 1)
            if a[0] == '~':
                return check(~v, self.st)
            return check(-v if a[0] == '-' else v, self.st)
        if o == 'tern':
            c, x, y = a
            r = (x if c.ev(obj, idx) else y).ev(obj, idx)
            return check(r, self.st) if isinstance(self.st, tuple) and self.st[0] == 'int' else r
        op = a[0]
        if op in ('&&', '||'):
            l = a[1].ev(obj, idx)
            if op == '&&':
                return a[2].ev(obj, idx) if l else False
            return True if l else a[2].ev(obj, idx)
        l, r = a[1].ev(obj, idx), a[2].ev(obj, idx)
        lt, rt = a[1].st, a[2].st
        if isinstance(lt, tuple) and lt[0] == 'int' and isinstance(rt, tuple) and op not in ('<<', '>>'):
            ct = common(lt, rt)
            if op not in CMP:
                ct = promote(ct)
            check(l, ct)
            check(r, ct)
        if op in CMP:
            return CMP[op](l, r)
        if op in ('<<', '>>'):
            if not 0 <= r < (promote(lt)[1] or 31):
                raise Overflow('shift')
            if l < 0:
                raise Overflow('shift of a negative value')
        if op in ('/', '%') and (l < 0 or r <= 0):
            raise Overflow('division')
        v = ARITH[op](l, r)
        return check(v, self.st) if isinstance(self.st, tuple) and self.st[0] == 'int' else v


def ev_as(expr, obj, ty, idx=None):
    """Value of an expression given to something of type ty."""
    v = expr.ev(obj, idx)
    if is_int(ty) and ty.dyn is None:
        lo, hi = int_range(ty)
        if not lo <= v <= hi:
            raise Skip('result does not fit the declared type')
    return v


CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a // b,
         '%': lambda a, b: a % b, '&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
         '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b}


# builders ---------------------------------------------------------------------------------------------
def lit(v, txt=None):
    if isinstance(v, bool):
        return Expr('lit', v, st='bool', txt='true' if v else 'false')
    return Expr('lit', v, st=LIT, txt=txt or str(v))


def name(n, ty, arr=False):
    return Expr('name', n, st=static(ty, arr))


def static(ty, arr=False):
    if arr:
        return ('arr', ty)
    if isinstance(ty, Prim):
        if is_int(ty):
            return static_int(ty)
        return {'bool': 'bool', 'string': 'string'}.get(ty.kind, 'float')
    return ty


def binop(op, l, r):
    if op in CMP or op in ('&&', '||'):
        st = 'bool'
    elif op in ('<<', '>>'):
        st = promote(l.st)
    elif isinstance(l.st, Bitmask):
        st = l.st
    elif isinstance(l.st, tuple) and l.st[0] == 'int':
        st = common(promote(l.st), promote(r.st))
    else:
        st = l.st
    return Expr('bin', op, l, r, st=st)


def tern(c, x, y):
    st = common(x.st, y.st) if isinstance(x.st, tuple) and x.st[0] == 'int' else x.st
    return Expr('tern', c, x, y, st=st)
