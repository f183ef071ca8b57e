"""Level B: random schemas through the generator and rustc; random values through the generated code; the model as oracle."""
import copy, hashlib, json, os, random, re, shutil, tempfile, time
import build, gen, model
from build import Unit, World
from common import CheckError
from model import Bad
from vals import Vals
from zt import *
import common as shared

# ------------------------------------------------------------------------------------------- output lines


def parse(line):
    """'X a b|Y!err m|' -> [(tag, status, rest)], status ok / err / panic."""
    out = []
    for s in line.split('|'):
        s = s.strip()
        if not s:
            continue
        head, _, rest = s.partition(' ')
        tag, bang, st = head.partition('!')
        out.append((tag, st if bang else 'ok', rest))
    return out


class Fail(Exception):
    pass


def need(segs, tag, what):
    for t, st, rest in segs:
        if t == tag:
            if st != 'ok':
                raise Fail('%s failed: %s %s' % (what, st, rest))
            return rest
    raise Fail('%s is missing' % what)


def first(segs, tag):
    for t, st, rest in segs:
        if t == tag:
            return st, rest
    return None, None


def check_read(rest, toks, n, what='decoding'):
    got_n, _, got = (rest.split(' ', 2) + ['', ''])[:3]
    if n is not None and int(got_n) != n:
        raise Fail('%s consumed %s bits instead of %d' % (what, got_n, n))
    if toks is not None and not model.match(toks.split(), got):
        raise Fail('%s gave\n  %s\ninstead of\n  %s' % (what, got.strip(), toks))


def j_object(j, segs):
    """A value: sizes, bytes, decoding, re-encoding, functions."""
    asp = j['aspects']
    n, hexs = j['n'], j['hex']
    w = None
    if 'size' in asp:
        z = need(segs, 'Z', 'predicting the size')
        if int(z) != n:
            raise Fail('predicted size is %s bits instead of %d' % (z, n))
    if 'bytes' in asp or 'write' in asp:
        w = need(segs, 'W', 'encoding')
    if 'bytes' in asp:
        gn, gh = w.split()
        if int(gn) != n or gh != hexs:
            raise Fail('encoding gave %s bits %s\ninstead of %d bits %s' % (gn, gh, n, hexs))
    if 'read' in asp:
        if w is None:
            w = need(segs, 'W', 'encoding')
        check_read(need(segs, 'D', 'decoding'), j['toks'], int(w.split()[0]))
    if 'rewrite' in asp:
        v = need(segs, 'V', 'encoding the decoded value')
        if v != w:
            raise Fail('encoding the decoded value gave %s instead of %s' % (v, w))
    if 'resize' in asp:
        u = need(segs, 'U', 'predicting the size of the decoded value')
        if int(u) != n:
            raise Fail('predicted size of the decoded value is %s bits instead of %d' % (u, n))
    if 'func' in asp and j.get('funcs') is not None:
        got = [(st, rest.strip()) for t, st, rest in segs if t == 'F']
        if len(got) != len(j['funcs']):
            raise Fail('%d functions instead of %d' % (len(got), len(j['funcs'])))
        for i, (e, (st, g)) in enumerate(zip(j['funcs'], got)):
            if e is not None and (st != "ok" or not model.match(e.split(), g)):
                raise Fail('function %d gave %s %s instead of %s' % (i, st, g, e))


def j_decode(j, segs):
    """Given bytes: expected tokens and consumed bits, or an error, or nothing but no panic."""
    st, rest = first(segs, 'D')
    if st is None:
        raise Fail('no answer')
    if st == 'panic':
        if j.get('unspec') and re.match('attempt_to_|index_out_of_bounds|invalid_shift', rest):
            return      # arithmetic of a schema expression on values from the stream: the recorded finding expr_overflow
        raise Fail('decoding panicked: ' + rest)
    if j['expect'] == 'value':
        if st != 'ok':
            raise Fail('decoding failed: ' + rest)
        check_read(rest, j['toks'], j['n'])
        if j.get('rewrite'):
            v = need(segs, 'V', 'encoding the decoded value').split()
            if v != [str(j['n']), j['rewrite']]:
                raise Fail('encoding the decoded value gave %s instead of %s' % (v, j['rewrite']))
    elif j['expect'] == 'error' and st == 'ok':
        raise Fail('no error; decoded %s' % rest[:600])
    if 'alloc' in j:
        if st == 'ok':
            a = int(rest.split()[1])
        else:
            a = int(first(segs, 'Dalloc')[1])
        if a > j['alloc']:
            raise Fail('one allocation of %d bytes, allowed are %d' % (a, j['alloc']))


def j_sizes(j, segs):
    """S: predicted and written size at several positions."""
    it = [x for x in segs if x[0] in ('Z', 'N', 'W')]
    if len(it) != 2 * len(j['n']):
        raise Fail('answers are missing: %s' % it)
    for k, n in enumerate(j['n']):
        for (tag, st, rest), what in zip(it[2 * k:2 * k + 2], ('predicted size', 'written size')):
            if st != 'ok':
                raise Fail('%s at position %d: %s %s' % (what, j['at'][k], st, rest))
        z, w = it[2 * k][2], it[2 * k + 1][2]
        if z != w:
            raise Fail('at position %d the predicted size is %s bits, written are %s (the model says %d)' % (j['at'][k], z, w, n))


def j_reject(j, segs):
    """Writing must not succeed."""
    st, rest = first(segs, 'W')
    if st is None:
        raise Fail('no answer')
    if st == 'ok':
        raise Fail('a value that can not be represented was written: %s' % rest[:600])


def j_entry(j, segs):
    h = j['hex']
    for tag, what in (('B', 'to_bytes'), ('W', 'to_writer')):
        got = need(segs, tag, what)
        if got[1:] != (h if h != '-' else ''):
            raise Fail('%s gave %s instead of %s' % (what, got[1:], h))
    for tag, what in (('b', 'from_bytes'), ('t', 'from_bytes with trailing data'), ('r', 'from_reader'),
                      ('s', 'from_reader with trailing data'), ('f', 'from_file')):
        got = need(segs, tag, what)
        if not model.match(j['toks'].split(), got):
            raise Fail('%s gave %s instead of %s' % (what, got, j['toks']))
    for tag, what in (('L', 'to_writer with a full output'), ('c', 'from_reader with a truncated stream'), ('m', 'from_file without a file')):
        st, rest = first(segs, tag)
        if st != 'err' and not (st is None and tag in 'Lc' and h == '-'):
            raise Fail('%s: %s %s instead of an error' % (what, st, rest))


def j_sequence(j, segs):
    ds = [x for x in segs if x[0] == 'D']
    if len(ds) != len(j['objs']):
        raise Fail('%d objects instead of %d: %s' % (len(ds), len(j['objs']), segs[-1:]))
    for i, ((tag, st, rest), (n, toks)) in enumerate(zip(ds, j['objs'])):
        if st != 'ok':
            raise Fail('object %d: %s %s' % (i, st, rest))
        check_read(rest, toks, n, 'object %d:' % i)


def j_const(j, segs):
    got = need(segs, 'K', 'evaluating the constant').strip()
    if got != j['value']:
        raise Fail('the constant is %s instead of %s' % (got, j['value']))


def j_chunk(j, segs):
    if need(segs, 'C', 'setting the chunk').strip() != j['value']:
        raise Fail('the chunk reads back as %s' % segs)


def j_either(j, segs):
    first_fail = None
    for x in j['of']:
        try:
            return JUDGES[x['judge']](x, copy.deepcopy(segs))
        except Fail as e:
            first_fail = first_fail or e
    raise first_fail


JUDGES = {'object': j_object, 'decode': j_decode, 'sizes': j_sizes, 'reject': j_reject, 'entry': j_entry, 'sequence': j_sequence,
          'const': j_const, 'chunk': j_chunk, 'either': j_either}


def judge(j, line):
    """None if the answer is right, else what is wrong."""
    if line.startswith('!dead'):
        if 'memory allocation of' in line and j['judge'] == 'decode' and 'bit width' in j.get('why', ''):
            return None     # a bit field without bits, in an array of billions of elements: they need no data
        return 'the process died: ' + line[6:]
    if line == '!skipped':
        return None
    try:
        JUDGES[j['judge']](j, parse(line))
    except Fail as e:
        return str(e)


# ------------------------------------------------------------------------------------------- cases
class Case:
    """cmd: command text in which @n@ stands for the local type n (and #n# for constant n)."""

    def __init__(self, cmd, judge, labels=(), desc='', decl=None, key=None):
        self.cmd, self.judge, self.labels, self.desc, self.decl, self.key = cmd, judge, labels, desc, decl, key
        self.size = len(cmd)

    def text(self, u):
        t = re.sub(r'@(\d+)@', lambda m: str(u.ty0 + int(m.group(1))), self.cmd)
        return re.sub(r'#(\d+)#', lambda m: str(u.k0 + int(m.group(1))), t)


class Ctx:
    """What the case generators get: one unit, its schema, randomness."""

    def __init__(self, rng, schema, unit, prop, opts):
        self.rng, self.s, self.u, self.prop, self.opts = rng, schema, unit, prop, opts
        self.types = unit.g.types

    def index(self, d):
        return self.types.index(d)

    def start(self):
        return self.rng.choice([0, 0, 0, 1, 7, 8, 3, self.rng.randint(0, 63)])

    def value(self, d, junk=False, **kw):
        v = Vals(self.rng, **dict(self.opts.get('vals', {}), **kw))
        v.with_junk = junk
        o = v.top(d)
        if o is None:
            return None, None
        return o, v.junk


def toks_of(o, junk=None):
    return ' '.join(model.obj_toks(o, [], junk))


def funcs_of(o):
    out = []
    for f in o.decl.funcs:
        try:
            v = ev_as(f.expr, o, f.use.ty)
            out.append(' '.join(model.toks_list(f.use, v)))
        except (Unspec, Bad):
            out.append(None)
    return out


ALL = ['size', 'write', 'bytes', 'read', 'rewrite', 'resize', 'func']


def op_object(c, d, aspects=ALL, junk=0.3):
    o, j = c.value(d, junk=c.rng.random() < junk)
    if o is None:
        return
    s = c.start()
    try:
        w = model.encode(o, s)
    except (Bad, Unspec):
        return
    fs = funcs_of(o)
    yield Case('X @%d@ %d %s' % (c.index(d), s, toks_of(o, j)),
               {'judge': 'object', 'aspects': aspects, 'n': w.n, 'hex': model.hexbits(w), 'toks': toks_of(o), 'funcs': fs},
               w.lab | ({'function'} if any(f is not None for f in fs) else set()), decl=d)


def op_aligned_optional(c, d, **kw):
    """Either the layout of the language, or the recorded deviation, but no third one."""
    state = c.rng.getstate()
    spec = list(op_object(c, d, **kw))
    c.rng.setstate(state)
    model.ALIGN_FIRST = True
    try:
        known = list(op_object(c, d, **kw))
    finally:
        model.ALIGN_FIRST = False
    for a, b in zip(spec, known):
        assert a.cmd == b.cmd
        a.judge = {'judge': 'either', 'of': [a.judge, b.judge]}
        yield a


def op_foreign(c, d):
    """Bytes made by the model."""
    o, _ = c.value(d)
    if o is None:
        return
    s = c.start()
    try:
        w = model.encode(o, s)
    except (Bad, Unspec):
        return
    h = model.hexbits(w)
    if c.rng.random() < 0.3:
        h = ('' if h == '-' else h) + 'a5'
        if w.pos() % 8:
            h = h[:-2] + '00'
    yield Case('D @%d@ %d %s %s' % (c.index(d), s, h, model.params_toks(d, o.params)),
               {'judge': 'decode', 'expect': 'value', 'n': w.n, 'toks': toks_of(o), 'rewrite': model.hexbits(w)}, w.lab, decl=d)


def op_sizes(c, d):
    o, j = c.value(d)
    if o is None:
        return
    at = sorted({0, 1, 7, 8, c.rng.randint(0, 70), c.rng.randint(0, 1100)})
    try:
        ws = [model.encode(o, p) for p in at]
    except (Bad, Unspec):
        return
    yield Case('S @%d@ %s %s' % (c.index(d), ','.join(map(str, at)), toks_of(o, j)), {'judge': 'sizes', 'at': at, 'n': [w.n for w in ws]},
               ws[0].lab | ({'size depends on position'} if len({w.n for w in ws}) > 1 else set()), decl=d)


def expected(d, params, data, s, budget=3000):
    """Judge entries for decoding data."""
    try:
        o, p = model.decode(d, params, data, s, budget)
        return {'expect': 'value', 'n': p - s, 'toks': toks_of(o)}
    except Bad as e:
        return {'expect': 'error', 'why': str(e)}
    except (Skip, RecursionError) as e:
        return {'expect': 'skip', 'why': repr(e)[:60]}
    except Unspec as e:
        return {'expect': 'any', 'why': repr(e)[:60], 'unspec': isinstance(e, Overflow)}


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        k = rng.random()
        if not b or k < 0.1:
            b.insert(rng.randint(0, len(b)), rng.choice([0, 255, 128, rng.getrandbits(8)]))
        elif k < 0.5:
            i = rng.randrange(8 * len(b))
            b[i // 8] ^= 0x80 >> (i % 8)
        elif k < 0.65:
            b[rng.randrange(len(b))] = rng.choice([0, 255, 128, 127, rng.getrandbits(8)])
        elif k < 0.75:
            del b[rng.randrange(len(b))]
        elif k < 0.9:
            del b[rng.randrange(len(b)):]
        else:
            i, j = sorted((rng.randrange(len(b) + 1), rng.randrange(len(b) + 1)))
            b[i:i] = b[i:j]
    return bytes(b)


def op_corrupt(c, d):
    """Truncations, bit flips, random bytes: decode result or error, never a panic."""
    o, _ = c.value(d)
    if o is None:
        return
    s = c.rng.choice([0, 0, 0, 3])
    try:
        w = model.encode(o, s)
    except (Bad, Unspec):
        return
    h = model.hexbits(w)
    data = b'' if h == '-' else bytes.fromhex(h)
    params = model.params_toks(d, o.params)
    todo = []
    for _ in range(3):
        todo.append(('mutated', mutate(c.rng, data)))
    if c.rng.random() < 0.3:
        todo.append(('random', bytes(c.rng.getrandbits(8) for _ in range(c.rng.randint(0, 12)))))
    if c.rng.random() < 0.2:
        todo.append(('ones', b'\xff' * c.rng.randint(1, 12)))
    for _ in range(2):
        if data:
            todo.append(('truncated', data[:c.rng.randrange(len(data))]))
    for kind, b in todo:
        if s and not b:
            continue
        j = expected(d, o.params, b, s)
        if j['expect'] == 'skip':       # would take too long to decode (many elements without a size)
            continue
        yield Case('D @%d@ %d %s %s' % (c.index(d), s, b.hex() or '-', params), dict(j, judge='decode'),
                   {kind, kind + ': ' + j['expect']} | ({'error: ' + j['why'][:30]} if j['expect'] == 'error' else set()), decl=d)


def op_poison(c, d):
    """Encodings in which one enum value or union tag is invalid."""
    o, _ = c.value(d)
    if o is None:
        return
    try:
        w = model.encode(o)
        if not w.sites:
            return
        k = c.rng.randrange(len(w.sites))
        x = model.encode(o, 0, k)
    except (Bad, Unspec):
        return
    if x.v == w.v and x.n == w.n:
        return
    data = x.bytes()
    j = expected(d, o.params, data, 0)
    if j['expect'] == 'skip':
        return
    yield Case('D @%d@ 0 %s %s' % (c.index(d), data.hex() or '-', model.params_toks(d, o.params)), dict(j, judge='decode'),
               {'invalid ' + w.sites[k]} if j['expect'] == 'error' else {'not invalid after all'}, decl=d)


def walk(o, f):
    """All compound values inside o."""
    f(o)
    for fl in model.stored(o):
        v = o.vals.get(fl.name)
        for x in (v if fl.arr and v is not None else [v]):
            if isinstance(x, Obj):
                walk(x, f)


def bad_leaf(rng, ty, o):
    """A value the Rust type can hold but the format can not."""
    if isinstance(ty, Bitmask) and ty.base.ty.kind == 'u' and ':' in ty.base.ty.name:
        return (1 << ty.base.ty.bits) << rng.randint(0, max(0, 63 - ty.base.ty.bits)) if ty.base.ty.bits < 64 else None
    if not isinstance(ty, Prim):
        return None
    if is_int(ty):
        st = static_int(ty) if ty.dyn is None else ('int', 64, ty.kind == 'i', 64)
        if ty.dyn is not None:
            try:
                n = model.num_bits(ty, o, None)
            except Unspec:
                return None
            lo, hi = (0, 2**n - 1) if ty.kind == 'u' else (-2**(n - 1), 2**(n - 1) - 1)
        else:
            lo, hi = int_range(ty)
        rlo, rhi = (-2**(st[1] - 1), 2**(st[1] - 1) - 1) if st[2] else (0, 2**st[1] - 1)
        c = [v for v in (hi + 1, hi + 2, 2 * hi + 2, rhi, lo - 1, rlo, hi + 1 + rng.getrandbits(8)) if rlo <= v <= rhi and not lo <= v <= hi]
        return rng.choice(c) if c else None
    return None


def op_reject(c, d):
    """One spot of the object is made unrepresentable."""
    o, _ = c.value(d)
    if o is None:
        return
    try:
        model.encode(o)
    except (Bad, Unspec):
        return
    spots = []

    def visit(x):
        off = offset_fields(x.decl)
        for f in model.stored(x):
            v = x.vals.get(f.name)
            if v is None:
                continue
            if f.arr and f.arr[0] == 'expr':
                spots.append((x, f, None, 'array length'))
            if f.arr:
                for i in range(len(v)):
                    spots.append((x, f, i, 'leaf'))
            else:
                spots.append((x, f, None, 'leaf'))
    walk(o, visit)
    c.rng.shuffle(spots)
    made = 0
    for x, f, i, kind in spots:
        if made >= 2:
            break
        old = x.vals[f.name]
        ty = f.use.ty
        raw = None
        if kind == 'array length':
            if old and c.rng.random() < 0.5:
                new = old[:-1]
            elif old:
                new = old + [old[-1]]
            else:
                continue
            what = 'array length'
        else:
            cur = old if i is None else old[i]
            if isinstance(cur, Obj):
                ps = [p for p in ty.params if not isinstance(p.use.ty, Compound)]
                if not ps or not f.use.args:
                    continue
                p = c.rng.choice(ps)
                pv = cur.params[p.name]
                if is_int(p.use.ty):
                    lo, hi = int_range(p.use.ty)
                    nv = c.rng.choice([v for v in (pv + 1, pv - 1, 0, 1) if v != pv and lo <= v <= hi])
                elif isinstance(pv, bool):
                    nv = not pv
                else:
                    continue
                # only a disagreeing parameter: the object itself stays consistent with what it holds
                saved = dict(cur.params)
                cur.params[p.name] = nv
                made += 1
                yield Case('X @%d@ 0 %s' % (c.index(d), toks_of(o)), {'judge': 'reject'}, {'parameter disagrees'}, decl=d)
                cur.params = saved
                continue
            elif isinstance(ty, Prim) and ty.kind in ('bytes', 'extern'):
                t = toks_of(o)
                good = model.tok_prim(ty, cur)
                if ty.kind == 'bytes':
                    bad = 'b%d:%s' % (len(cur) + c.rng.choice([1, 2, 9]), cur.hex()) if not cur or c.rng.random() < 0.5 else 'b%d:%s' % (len(cur) - 1, cur.hex())
                else:
                    n, _ = cur
                    nn = c.rng.choice([m for m in (n + 8, n + 64, n - 8, n - 9) if m >= 0])
                    bad = 'e%d:%s' % (nn, good.split(':')[1])
                ts = t.split()
                if ts.count(good) != 1:
                    continue
                ts[ts.index(good)] = bad
                made += 1
                yield Case('X @%d@ 0 %s' % (c.index(d), ' '.join(ts)), {'judge': 'reject'}, {'blob size disagrees'}, decl=d)
                continue
            else:
                b = bad_leaf(c.rng, ty, x)
                if b is None:
                    continue
                new = b if i is None else old[:i] + [b] + old[i + 1:]
                what = 'integer out of range' if i is None else 'integer out of range in an array'
                if (i is not None or x is not o) and f.packed:
                    what += ' (packed)'
        x.vals[f.name] = new
        try:
            model.encode(o)
            ok = True
        except Bad:
            ok = False
        except Exception:
            ok = None
        if ok is False:
            made += 1
            yield Case('X @%d@ 0 %s' % (c.index(d), toks_of(o)), {'judge': 'reject'}, {what}, decl=d)
        x.vals[f.name] = old


def op_entry(c, d):
    if d.params:
        return
    o, _ = c.value(d)
    if o is None:
        return
    try:
        w = model.encode(o)
    except (Bad, Unspec):
        return
    chunk = c.rng.choice([1, 1, 2, 3, 7, 4096])
    h = w.bytes().hex() or '-'
    yield Case('I @%d@ %d $SCRATCH$ %s' % (c.index(d), chunk, toks_of(o)),
               {'judge': 'entry', 'hex': h, 'toks': toks_of(o)}, {'chunk 1' if chunk == 1 else 'chunk >1'} | ({'2+ bytes'} if len(w.bytes()) > 1 else set()), decl=d)


def op_reuse(c, d):
    """Decode into an object that holds another value."""
    a, _ = c.value(d)
    o, ja = c.value(d, junk=True)
    if a is None or o is None:
        return
    s = c.start()
    try:
        w = model.encode(a, s)
    except (Bad, Unspec):
        return
    yield Case('R @%d@ %d %s %s ; %s' % (c.index(d), s, model.hexbits(w), model.params_toks(d, a.params), toks_of(o, ja)),
               {'judge': 'decode', 'expect': 'value', 'n': w.n, 'toks': toks_of(a), 'rewrite': model.hexbits(w)},
               w.lab | {'target held data'} | ({'target had another shape'} if len(toks_of(a).split()) != len(toks_of(o).split()) else set()), decl=d)


def op_sequence(c, d):
    """Several objects of several types from one stream, some into objects used before."""
    w = model.W()
    parts, objs, lab, used = [], [], set(), set()
    for _ in range(c.rng.randint(2, 5)):
        t = c.rng.choice(c.types) if c.rng.random() < 0.5 else d
        o, _ = c.value(t)
        if o is None:
            continue
        p0 = w.n
        try:
            x = model.encode(o, p0)
        except (Bad, Unspec):
            continue
        w.v, w.n = (w.v << x.n) | x.v, w.n + x.n
        again = t in used and c.rng.random() < 0.6
        if again:
            lab.add('object used again')
        used.add(t)
        parts.append('@%d@ %d %s' % (c.index(t), again, model.params_toks(t, o.params)))
        objs.append((x.n, toks_of(o)))
    if len(objs) < 2:
        return
    lab.add('2+ objects')
    yield Case('Q 0 %s %s' % (w.bytes().hex() or '-', ' ; '.join(parts)), {'judge': 'sequence', 'objs': objs}, lab, decl=d)


def op_claims(c, d):
    """Streams that claim more elements than they have, under several allocation chunks."""
    o, _ = c.value(d)
    if o is None:
        return
    try:
        w = model.encode(o)
    except (Bad, Unspec):
        return
    if not w.claims:
        return
    chunk = c.rng.choice([0, 1, 2, 7, 64, 1024])
    yield Case('C 0 %d' % chunk, {'judge': 'chunk', 'value': str(chunk)}, {'chunk %d' % chunk}, decl=d)
    yield Case('D @%d@ 0 %s %s' % (c.index(d), w.bytes().hex() or '-', model.params_toks(d, o.params)),
               {'judge': 'decode', 'expect': 'value', 'n': w.n, 'toks': toks_of(o)}, w.lab | {'true length'}, decl=d)
    k = c.rng.randrange(len(w.claims))
    claim = c.rng.choice([2**31 - 1, 2**24, 100000, 2**28])
    x = model.encode(o, 0, claim=(k, claim))
    data = x.bytes()
    j = expected(d, o.params, data, 0)
    if j['expect'] == 'skip':
        return
    if j['expect'] == 'error':
        # each element takes some memory; what is there may double on growth
        j['alloc'] = 2_000_000 + 4096 * len(data)
        yield Case('D @%d@ 0 %s %s' % (c.index(d), data.hex() or '-', model.params_toks(d, o.params)), dict(j, judge='decode'),
                   {'false length: ' + w.claims[k]}, decl=d)


def op_consts(c, d):
    if d is not c.types[0]:
        return
    for i, k in enumerate(c.u.g.consts):
        yield Case('K #%d#' % i, {'judge': 'const', 'value': ' '.join(model.toks_list(k.use, k.value))}, {'constant'}, decl=d)


OPS = {'object': op_object, 'foreign': op_foreign, 'sizes': op_sizes, 'corrupt': op_corrupt, 'poison': op_poison, 'reject': op_reject,
       'entry': op_entry, 'reuse': op_reuse, 'sequence': op_sequence, 'claims': op_claims, 'consts': op_consts,
       'aligned_optional': op_aligned_optional}


def cases_for(c, ops, n):
    """n rounds over the types of the schema."""
    seen = set()
    ts = [d for d in c.types if c.opts.get('target', lambda d: True)(d)] or c.types
    for k in range(n):
        d = ts[-1 - k % len(ts)] if k < len(ts) else c.rng.choice(ts)
        for op, w in ops:
            reps = int(w) + (c.rng.random() < w - int(w))
            name, kw = (op, {}) if isinstance(op, str) else op
            for _ in range(reps):
                for case in OPS[name](c, d, **kw):
                    if case.cmd not in seen or case.cmd.startswith('C '):
                        seen.add(case.cmd)
                        yield case


# ------------------------------------------------------------------------------------------- running
class Job:
    """A schema with what is to be tried on it."""

    def __init__(self, sect, seed, schema=None):
        self.sect, self.seed = sect, seed
        self.schema = schema if schema is not None else sect['make'](random.Random(seed), sect)


def make_random(rng, sect):
    return gen.Gen(rng, gen.profile(**sect.get('gen', {}))).build()


def scratch_dir():
    os.makedirs(shared.WORK, exist_ok=True)
    return tempfile.mkdtemp(prefix='b-', dir=shared.WORK)


def run(r, plan):
    """All sections of a plan. A section: name, make, gen, n (quick, thorough), rounds, ops, opts, label."""
    tier = 0 if r.tier == 'quick' else 1
    batch = 96
    t_end = time.time() + plan.get('seconds', (150, 3000))[tier]
    jobs = []
    for si, sect in enumerate(plan['gen']):
        for i in range(sect['n'][tier]):
            jobs.append((i / sect['n'][tier], si, i, sect))
    jobs.sort(key=lambda x: x[:3])
    done = 0
    schemas = set()
    for k in range(0, len(jobs), batch):
        if k and time.time() > t_end:
            r.parts['stopped_early'] = '%d of %d schemas' % (k, len(jobs))
            break
        part = [Job(sect, '%s/%d/%s/%d' % (r.prop, r.seed, sect.get('name', ''), i)) for _, _, i, sect in jobs[k:k + batch]]
        run_batch(r, plan, part, schemas)
        done += len(part)
        if len(r.failures) >= 3:
            break
    r.parts['generated_schemas'] = done
    r.parts['distinct_schemas'] = len(schemas)


def run_batch(r, plan, jobs, schemas):
    work = scratch_dir()
    try:
        units = []
        for i, j in enumerate(jobs):
            j.unit = Unit.of(j.schema, 'u%d' % i)
            units.append(j.unit)
            schemas.add(hashlib.sha256(j.schema.text().encode()).hexdigest())
        w = World(units, work)
        todo = []
        bad = []
        for j in jobs:
            if j.unit.error:
                bad.append(j)
                continue
            rng = random.Random(j.seed + '/values')
            c = Ctx(rng, j.schema, j.unit, r.prop, j.sect.get('opts', {}))
            for case in cases_for(c, j.sect['ops'], j.sect.get('rounds', 12)):
                case.job = j
                case.labels = set(case.labels) | j.schema.features
                case.cmd = case.cmd.replace('$SCRATCH$', os.path.join(work, 'f-%s' % j.unit.root))
                todo.append(case)
        for j in bad[:2]:
            report_build(r, j)
        lines = w.run([(x.job.unit, x.text(x.job.unit)) for x in todo])
        failing = {}
        want = set(plan['labels'])
        keys = set()
        for x, line in zip(todo, lines):
            if line == '!skipped':
                continue
            r.evaluations += 1
            for l in x.labels:
                r.label(l)
            if want & set(x.labels) or not want:
                key = hashlib.sha256((x.job.unit.root + x.cmd).encode()).digest()[:8]
                if key not in keys:
                    keys.add(key)
                    r.nontrivial += 1
                    if len(r.samples) < 40 and (r.nontrivial % 97 == 1 or len(r.samples) < 5):
                        r.samples.append({'type': x.decl.name if x.decl else '', 'command': x.cmd[:300], 'answer': line[:300],
                                          'labels': sorted(x.labels)[:12]})
            m = judge(x.judge, line)
            if m:
                failing.setdefault(x.job.seed, []).append((x, m, line))
        for fs in list(failing.values())[:2]:
            x, m, line = min(fs, key=lambda t: t[0].size)
            report(r, plan, w, x, m, line)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report_build(r, j):
    stage, msg = j.unit.error
    j = shrink_build(j, stage, msg)
    r.evaluations += 1
    r.failures.append({'kind': 'build', 'message': 'a supported schema: %s fails:\n%s\n%s' % (
        'the generator' if stage == 'generator' else 'compiling the generated code', j.unit.error[1][:900], j.schema.text()[:3000]),
        'unit': j.unit.to_json(), 'stage': stage})


def report(r, plan, w, x, m, line):
    x, m, line = shrink(r, plan, w, x, m, line)
    u = x.job.unit
    r.failures.append({'kind': 'case', 'unit': u.to_json(), 'cmd': x.cmd, 'judge': x.judge, 'answer': line[:4000],
                       'message': '%s\ntype %s, command %s\n%s' % (m, x.decl.name if x.decl else '', x.cmd[:800], x.job.schema.text()[:3000])})


# ------------------------------------------------------------------------------------------- shrinking
def reachable(d, out):
    """Declarations d needs."""
    if d in out or not isinstance(d, Decl):
        return
    out.append(d)
    if isinstance(d, Compound):
        for p in d.params:
            reachable(p.use.ty, out)
        for f in d.members():
            reachable(f.use.ty, out)


def variants(schema, keep):
    """Smaller schemas; keep: name of the declaration that must stay. Yields deep copies."""
    text = schema.text()

    def count(word):
        return len(re.findall(r'\b%s\b' % re.escape(word), text))

    def copy_and(f):
        s = copy.deepcopy(schema)
        try:
            if f(s) is False:
                return None
            mark_holders(s.compounds())
        except Exception:
            return None
        return s
    # declarations nobody mentions
    unused = [(pi, di) for pi, p in enumerate(schema.packages) for di, d in enumerate(p.decls)
              if d.name != keep and count(d.name) == 1]
    if unused:
        def drop_all(s):
            for pi, di in sorted(unused, reverse=True):
                del s.packages[pi].decls[di]
        yield copy_and(drop_all)
    for pi, p in enumerate(schema.packages):
        for di, d in enumerate(p.decls):
            if not isinstance(d, Compound):
                continue
            for fi, f in enumerate(d.fields):
                if count(f.name) == 1 or not any(f.name in re.findall(r'\w+', e) for e in [text.replace(f.emit(), '', 1)]):
                    def drop(s, pi=pi, di=di, fi=fi):
                        c = s.packages[pi].decls[di]
                        if isinstance(c, Union) and len(c.fields) == 1:
                            return False
                        del c.fields[fi]
                    yield copy_and(drop)
                for attr, val in (('opt', None), ('align', None), ('packed', False), ('offset', None), ('arr', None)):
                    if getattr(f, attr):
                        def simple(s, pi=pi, di=di, fi=fi, attr=attr, val=val):
                            g = s.packages[pi].decls[di].fields[fi]
                            setattr(g, attr, val)
                            if attr == 'arr':
                                g.packed = False
                                if g.offset and g.offset[1]:
                                    return False
                        if attr == 'arr' and count(f.name) > 1:
                            continue
                        yield copy_and(simple)
            if isinstance(d, Choice):
                for ci in range(len(d.cases)):
                    def dropc(s, pi=pi, di=di, ci=ci):
                        c = s.packages[pi].decls[di]
                        if len(c.cases) < 2:
                            return False
                        del c.cases[ci]
                    yield copy_and(dropc)
            for k in range(len(d.funcs)):
                def dropf(s, pi=pi, di=di, k=k):
                    del s.packages[pi].decls[di].funcs[k]
                if count(d.funcs[k].name) == 1:
                    yield copy_and(dropf)


def simpler_values(job, plan, decl, n, seed, opts):
    """Cases for many small values of one type."""
    rng = random.Random(seed)
    out = []
    for k in range(n):
        small = dict(opts, vals=dict(opts.get('vals', {}), max_len=rng.choice([1, 2, 3]), depth=rng.choice([1, 2, 3])))
        c = Ctx(rng, job.schema, job.unit, '', small)
        name = [d.name for d in c.types].index(decl)
        for op, _ in job.sect['ops']:
            nm, kw = (op, {}) if isinstance(op, str) else op
            try:
                out += list(OPS[nm](c, c.types[name], **kw))
            except Exception:
                pass
    return out


def shrink(r, plan, w, x, m, line, budget=60):
    """A smaller value on the same program, then smaller schemas with fresh values."""
    t_end = time.time() + budget
    want = x.judge['judge']
    decl = x.decl.name if x.decl else None
    if decl is None or want in ('const', 'chunk') or '$' in x.cmd or x.cmd.startswith(('C ', 'I ', 'Q ')):
        return x, m, line

    def search(world, job, n, seed):
        cs = [c for c in simpler_values(job, plan, decl, n, seed, job.sect.get('opts', {})) if c.judge['judge'] == want]
        for c in cs:
            c.job = job
        if not cs:
            return None
        ls = world.run([(job.unit, c.text(job.unit)) for c in cs], 30)
        bad = [(c, judge(c.judge, l), l) for c, l in zip(cs, ls)]
        bad = [b for b in bad if b[1]]
        return min(bad, key=lambda b: b[0].size) if bad else None
    try:
        b = search(w, x.job, 150, 'shrink')
        if b and b[0].size < x.size:
            x, m, line = b
        for rnd in range(6):
            if time.time() > t_end:
                break
            cand = []
            for s in variants(x.job.schema, decl):
                if s is not None:
                    j = Job(x.job.sect, x.job.seed, s)
                    cand.append(j)
            cand = cand[:40]
            if not cand:
                break
            work = scratch_dir()
            best = None
            try:
                for i, j in enumerate(cand):
                    j.unit = Unit.of(j.schema, 's%d' % i)
                w2 = World([j.unit for j in cand], work)
                for j in cand:
                    if j.unit.error:
                        continue
                    b = search(w2, j, 60, 'shrink%d' % rnd)
                    if b and (best is None or len(j.schema.text()) < len(best[0].job.schema.text())):
                        best = b
            finally:
                shutil.rmtree(work, ignore_errors=True)
            if best is None:
                break
            x, m, line = best
    except CheckError:
        pass
    return x, m, line


def shrink_build(j, stage, msg, budget=45):
    t_end = time.time() + budget
    for rnd in range(8):
        if time.time() > t_end:
            break
        cand = []
        for s in variants(j.schema, ''):
            if s is not None:
                cand.append(Job(j.sect, j.seed, s))
        # also without declarations altogether
        cand = cand[:48]
        if not cand:
            break
        work = scratch_dir()
        try:
            for i, c in enumerate(cand):
                try:
                    c.unit = Unit.of(c.schema, 's%d' % i)
                except Exception:
                    c.unit = None
            cand = [c for c in cand if c.unit]
            World([c.unit for c in cand], work, per_bin=3)
            key = re.sub(r'[\W\d]+', ' ', msg)[:40]
            bad = [c for c in cand if c.unit.error and c.unit.error[0] == stage and re.sub(r'[\W\d]+', ' ', c.unit.error[1])[:40] == key]
        except CheckError:
            break
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if not bad:
            break
        j = min(bad, key=lambda c: len(c.schema.text()))
    return j


def replay(d):
    work = scratch_dir()
    try:
        u = Unit.from_json(d['unit'])
        w = World([u], work)
        if d['kind'] == 'build':
            print(u.error or 'the schema builds')
            return 1 if u.error else 0
        if u.error:
            print('the schema does not build: %s' % (u.error,))
            return 1
        c = Case(re.sub(r'/\S*/f-\w+', os.path.join(work, 'f'), d['cmd']), d['judge'])
        line = w.run([(u, c.text(u))])[0]
        m = judge(c.judge, line)
        print('answer: %s\n%s' % (line[:3000], m or 'as expected'))
        return 1 if m else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
