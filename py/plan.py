"""What each property's check runs.
rt  = (quick, thorough) cases per test weight of the runtime harness (rt/, proptest).
gen = sections of generated schemas: gen (profile of py/gen.py), n = (quick, thorough) schemas, ops with weights, rounds.
labels = a case counts as non-trivial if it carries one of them."""


def random_schema(rng, sect):
    import level_b
    return level_b.make_random(rng, sect)


def split_schema(rng, sect):
    import split
    return split.make_split(rng, sect)


def templ_schema(rng, sect):
    import templ
    return templ.make_templ(rng, sect)


def S(name, n, ops, gen=None, rounds=12, make=None, **kw):
    n = (n[0] * 2, n[1])
    return dict(name=name, n=n, ops=[(o, 1) if isinstance(o, str) else o for o in ops], gen=gen or {}, rounds=rounds,
                make=make or random_schema, **kw)


# profiles -------------------------------------------------------------------------------------------
INTS = ['uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'bit', 'int', 'varint16', 'varint32', 'varint64',
        'varint', 'varuint16', 'varuint32', 'varuint64', 'varuint', 'varsize']
SMALL = ['uint8', 'uint16', 'int8', 'int32', 'bit', 'int', 'bool', 'varuint', 'varsize', 'string']
WIDE = {}
FLAT = dict(w_choice=0, w_union=0, p_cond=0, p_param=0, p_offset=0, p_ioffset=0, p_func=0)
PACKED = dict(p_array=0.75, p_packed=0.9, p_nested_arr_pack=0.8, prims=INTS + ['bool', 'float32', 'string'], p_align=0.02)
ALIGN = dict(p_align=0.4, p_offset=0.35, p_ioffset=0.5, p_array=0.4, prims=SMALL, p_func=0)
OPTS = dict(p_opt=0.4, p_cond=0.45, n_fields=(2, 6), prims=SMALL, p_align=0, p_offset=0, p_ioffset=0, w_choice=1, w_union=0.5, cond_depth=2)
MEMBER = dict(w_struct=1.5, w_choice=4, w_union=4, n_compounds=(3, 5), prims=SMALL, n_enums=(1, 2), p_align=0.03, p_offset=0.02)
NAMED = dict(n_enums=(1, 3), n_bitmasks=(1, 3), w_prim=1, w_enum=5, w_bitmask=5, w_compound=2, p_packed=0.5, p_array=0.45, prims=SMALL)
PARAM = dict(p_param=0.9, n_compounds=(3, 6), w_compound=6, w_dyn=4, prims=['uint8', 'uint16', 'uint32', 'bit', 'varsize', 'int8', 'bool'],
             p_array=0.45, p_cond=0.25, n_enums=(1, 1), n_bitmasks=(0, 1), arr_kinds=['auto', 'expr', 'expr', 'fixed'], p_align=0.03)
EXPRS = dict(p_func=0.9, p_cond=0.5, cond_depth=3, w_dyn=3, arr_kinds=['auto', 'expr', 'expr', 'fixed'], n_consts=(2, 5), n_enums=(1, 2),
             n_bitmasks=(1, 2), prims=INTS + ['bool', 'string'], p_param=0.5, n_fields=(2, 7), p_align=0, p_offset=0)
RICH = dict(expr_style='rich', p_func=0.9, p_cond=0.5, cond_depth=3, w_dyn=3, arr_kinds=['auto', 'expr', 'expr', 'fixed'], n_consts=(2, 5),
            n_enums=(1, 2), n_bitmasks=(1, 2), p_param=0.5, n_fields=(2, 7), p_align=0, p_offset=0)

NAMES = dict(p_sub=0.6, p_const_val=0.6, p_sel_expr=0.5, n_int_subs=(1, 4), n_int_consts=(1, 4), p_comp_sub=0.4, n_enums=(1, 3), n_bitmasks=(1, 2),
             n_compounds=(3, 6), w_enum=3, w_bitmask=2, w_choice=3, w_compound=5, p_align=0.03, p_offset=0.03, p_ioffset=0.03)

# several packages, types and constants by way of subtypes
SPREAD = dict(p_comp_sub=0.5, p_sub=0.3, n_int_subs=(0, 2), p_const_val=0.3, n_int_consts=(0, 2))

RT = "Runtime part (rt/, proptest): "
GEN = "Generated-code part: random schemas are compiled with the generator and rustc, values are judged by the bit-level model: "
T = 'property-based testing: random schemas and values against an independent reference model of the zserio format'
PLAN = {}


def P(pid, rule, labels=(), gen=(), rt=None, **kw):
    if labels and gen:
        rule += ' Generated-code cases count as non-trivial if labelled with one of: ' + ', '.join(labels) + '.'
    PLAN[pid] = dict(rule=rule, labels=list(labels), gen=list(gen), rt=rt, technique=kw.pop('technique', None) or T if gen or kw.get('trees') else
                     'property-based testing (proptest) against a reference model', **kw)


P('C01', GEN + 'write, read, write again; equal value, all bits consumed, same bytes, at random start positions.',
  ['nested', 'array', 'optional present', 'choice case', 'union later member', 'parameters', 'packed array, 2+ elements'],
  [S('wide', (220, 4000), [('object', 2)], WIDE), S('plain', (60, 800), [('object', 2)], dict(expr_style='plain', opt_align=False)),
   S('deep', (80, 1500), [('object', 2)], dict(n_compounds=(6, 10), w_compound=6, n_fields=(1, 4))),
   S('packages', (60, 1000), [('object', 2)], dict(SPREAD), make=split_schema),
   S('simple', (60, 1000), [('object', 2)], FLAT),
   S('rich', (60, 1000), [('object', 2)], dict(RICH, p_align=0.05, p_offset=0.05))], rt=(1500, 20000))
P('C02', GEN + 'the bytes written are the bytes the model prescribes, and bytes made by the model decode to the value.',
  ['leaf int', 'leaf string', 'leaf extern', 'leaf bytes', 'leaf f16', 'leaf f32', 'leaf f64', 'array', 'padding', 'optional present'],
  [S('wide', (180, 3000), [('object', 1), ('foreign', 2)], WIDE), S('flat', (120, 2000), [('object', 1), ('foreign', 2)], FLAT),
   S('aligned', (60, 800), [('object', 1), ('foreign', 1)], ALIGN),
   S('packages', (60, 1000), [('object', 1), ('foreign', 2)], dict(SPREAD), make=split_schema)], rt=(1500, 20000))
P('C03', RT + 'size functions of the built-in types against the written size. ' + GEN + 'predicted and written size at several start positions.',
  ['size depends on position', 'packed array, 2+ elements', 'nested', 'dynamic width'],
  [S('wide', (150, 3000), [('sizes', 3)], WIDE), S('packed', (100, 2000), [('sizes', 3)], PACKED),
   S('align', (100, 1500), [('sizes', 3)], ALIGN),
   S('packages', (50, 800), [('sizes', 3)], dict(SPREAD, p_array=0.5, p_packed=0.6), make=split_schema)], rt=(2000, 30000))
P('C04', RT + 'arrays of every trait, packed, against the model of delta packing. ' + GEN + 'packed arrays of every element kind.',
  ['packed array, 2+ elements', 'delta packed', 'delta fallback', 'delta zero width'],
  [S('packed', (250, 4000), [('object', 2), ('foreign', 1), ('sizes', 0.5)], PACKED),
   S('packed members', (100, 1500), [('object', 2), ('foreign', 1)], dict(PACKED, w_choice=4, w_union=4, w_compound=8)),
   S('packages', (60, 1000), [('object', 2), ('foreign', 1)], dict(PACKED, **SPREAD), make=split_schema),
   S('packed enums', (60, 1000), [('object', 2)], dict(PACKED, w_enum=5, w_bitmask=5, n_enums=(1, 2), n_bitmasks=(1, 2)))], rt=(1500, 20000))
P('C05', RT + 'arbitrary bytes, mutated and truncated encodings given to every reader. ' + GEN + 'truncated, mutated and random input.',
  ['mutated', 'truncated', 'random', 'ones'],
  [S('wide', (200, 3500), [('corrupt', 3), ('poison', 1)], WIDE), S('packed', (80, 1500), [('corrupt', 3)], PACKED),
   S('members', (60, 1000), [('corrupt', 2), ('poison', 2)], MEMBER), S('dynamic', (60, 1000), [('corrupt', 3)], PARAM),
   S('packages', (40, 700), [('corrupt', 2), ('poison', 2)], dict(SPREAD), make=split_schema)], rt=(3000, 40000))
P('C06', RT + 'values outside the range of each type, wrong sizes. ' + GEN + 'one place of a valid object is made unrepresentable.',
  ['integer out of range', 'integer out of range in an array', 'integer out of range in an array (packed)', 'array length',
   'parameter disagrees', 'blob size disagrees'],
  [S('wide', (150, 2500), [('reject', 4)], WIDE), S('params', (80, 1500), [('reject', 4)], PARAM),
   S('packages', (40, 700), [('reject', 4)], dict(SPREAD, p_param=0.6), make=split_schema), S('packed', (60, 1000), [('reject', 4)], PACKED)],
  rt=(4000, 60000))
P('C07', RT + 'object, short reads, faults, trailing data. ' + GEN + 'every entry point of generated types.',
  ['2+ bytes', 'target held data'],
  [S('wide', (150, 2500), [('entry', 2)], WIDE), S('packages', (40, 600), [('entry', 2)], dict(SPREAD), make=split_schema)], rt=(2000, 20000))
P('C08', 'all variable-length types x values around each size boundary x bit offsets, and arbitrary patterns; non-trivial: encoding of more than one byte or value at a boundary.',
  rt=(6000, 80000))
P('C09', 'sequences of primitive items at any bit offset against a bit-string model; non-trivial: at least two items.', rt=(3000, 40000))
P('C10', 'all 65536 half patterns and random / boundary floats; non-trivial: not zero and not an integer.', rt=(6000, 100000))
P('C11', RT + 'alignment of arrays and elements. ' + GEN + 'schemas with many align and offset clauses.',
  ['align', 'offset', 'indexed offset'],
  [S('align', (220, 3000), [('object', 2), ('sizes', 1), ('foreign', 1)], ALIGN),
   S('offsets', (150, 2000), [('object', 2), ('sizes', 1), ('foreign', 1)],
     dict(p_align=0.2, p_offset=0.4, p_ioffset=0.4, p_array=0.5, p_packed=0.7, p_dot_offset=0.8, w_compound=6, n_compounds=(3, 5),
          prims=['uint8', 'uint16', 'uint32', 'int8', 'bool', 'string', 'varsize', 'uint32', 'uint32', 'uint64'], p_func=0.3, p_cond=0.1)),
   S('aligned optional', (60, 800), [('aligned_optional', 2)], dict(ALIGN, opt_align=True, p_opt=0.5)),
   S('packages', (60, 800), [('object', 2), ('sizes', 1), ('foreign', 1)], dict(ALIGN, **SPREAD), make=split_schema),
   S('wide', (60, 800), [('object', 1), ('sizes', 1)], dict(p_align=0.25, p_offset=0.2, p_ioffset=0.3))], rt=(1500, 20000))
P('C12', GEN + 'schemas with many optional and conditional fields; fields that are not stored hold junk when writing.',
  ['optional present', 'optional absent', 'condition true', 'condition false'],
  [S('optional', (250, 3500), [('object', 2), ('foreign', 1), ('reuse', 0.5)], OPTS),
   S('aligned optional', (40, 500), [('aligned_optional', 2)], dict(OPTS, p_align=0.3, opt_align=True)),
   S('packages', (50, 800), [('object', 2), ('foreign', 1)], dict(OPTS, **SPREAD), make=split_schema),
   S('wide', (60, 800), [('object', 2)], dict(p_opt=0.35, p_cond=0.3))])
P('C13', GEN + 'schemas of choices and unions, also with invalid tags and selectors.',
  ['choice case', 'choice default', 'choice empty', 'union first member', 'union later member', 'invalid union tag', 'invalid tag'],
  [S('members', (250, 3500), [('object', 2), ('foreign', 1), ('poison', 1), ('reuse', 0.5)], MEMBER),
   S('selector expressions', (80, 1200), [('object', 2), ('foreign', 1)], dict(MEMBER, p_sub=0.3, p_const_val=0.5, p_sel_expr=0.7,
     n_int_subs=(0, 2), n_int_consts=(1, 3))),
   S('packages', (80, 1200), [('object', 2), ('foreign', 1)], dict(MEMBER, p_sel_expr=0.3, **SPREAD), make=split_schema),
   S('packed members', (80, 1200), [('object', 1), ('foreign', 1)], dict(MEMBER, p_array=0.6, p_packed=0.8, w_compound=5))])
P('C14', GEN + 'schemas of enums and bitmasks, also with encoded values of no item.',
  ['enum', 'bitmask', 'invalid enum', 'constant'],
  [S('named', (250, 3500), [('object', 2), ('foreign', 1), ('poison', 2), ('consts', 1)], NAMED),
   S('computed values', (100, 1500), [('object', 2), ('foreign', 1), ('poison', 2), ('consts', 1)],
     dict(NAMED, p_sub=0.5, p_const_val=0.7, n_int_subs=(1, 3), n_int_consts=(1, 4))),
   S('packages', (80, 1200), [('object', 2), ('foreign', 1), ('poison', 1), ('consts', 1)], dict(NAMED, **SPREAD), make=split_schema),
   S('packed named', (60, 800), [('object', 1), ('foreign', 1), ('poison', 1)], dict(NAMED, p_array=0.7, p_packed=0.9))])
P('C15', GEN + 'schemas with parameterized types, arguments of every form, dynamic widths and lengths.',
  ['parameters', 'index argument', 'dynamic width'],
  [S('params', (150, 2500), [('object', 1), ('foreign', 2), ('sizes', 1)], PARAM),
   S('rich arguments', (150, 2500), [('object', 1), ('foreign', 2), ('sizes', 0.5)],
     dict(PARAM, expr_style='rich', expr_depth=2, p_cond=0.1, n_consts=(0, 2), n_bitmasks=(1, 1))),
   S('packed params', (80, 1200), [('object', 1), ('foreign', 1)], dict(PARAM, p_packed=0.8, p_array=0.6)),
   S('packages', (120, 1800), [('object', 1), ('foreign', 2), ('sizes', 0.5)], dict(PARAM, **SPREAD), make=split_schema)])
TEMPL = dict(prims=['uint8', 'uint16', 'uint32', 'bit', 'int8', 'int32', 'bool', 'string', 'varsize', 'varuint', 'float32', 'bytes'],
             n_enums=(1, 2), n_bitmasks=(0, 2), n_compounds=(3, 6), w_compound=6, p_sub=0.2, p_comp_sub=0.2, n_int_consts=(0, 2))
P('C16', GEN + 'some types of random compounds become template parameters; instances are made implicitly, by instantiate and by subtype, in '
  'one package or several, with basic types, named types and other instances as arguments; each instance behaves like the compound '
  'written out by hand.',
  ['several instances', 'compound as template argument', 'instance as template argument'],
  [S('templates', (200, 3000), [('object', 2), ('foreign', 1)], TEMPL, make=templ_schema, rounds=8),
   S('rich templates', (100, 1500), [('object', 2), ('foreign', 1)], dict(RICH, n_compounds=(3, 5), w_compound=6), make=templ_schema, rounds=8),
   S('short names', (80, 1200), [('object', 2), ('foreign', 1)], dict(TEMPL, short=True), make=templ_schema, rounds=8),
   S('packages', (150, 2000), [('object', 2), ('foreign', 1)], dict(TEMPL, split=True), make=templ_schema, rounds=8)])
P('C17', GEN + 'constants, functions, conditions, lengths and widths made of random expressions, judged by an evaluator of the zserio rules.',
  ['condition true', 'condition false', 'constant', 'dynamic width', 'function'],
  [S('expressions', (120, 1500), [('object', 2), ('consts', 1)], EXPRS),
   S('packages', (80, 1200), [('object', 2), ('consts', 1)], dict(RICH, **SPREAD), make=split_schema),
   S('rich expressions', (350, 6000), [('object', 3), ('foreign', 0.5), ('consts', 1)], RICH)])
P('C18', GEN + 'schemas spread over several packages: wildcard and single imports, cyclic imports, equal names in several packages, '
  'qualified names, subtype chains, constants in other packages, in random order.',
  ['equal names', 'qualified name', 'single import'],
  [S('packages', (350, 5000), [('object', 2), ('foreign', 1), ('consts', 1)], NAMES, make=split_schema, rounds=8),
   S('rich packages', (80, 1500), [('object', 1), ('foreign', 1), ('consts', 1)],
     dict(NAMES, expr_style='rich', p_func=0.8, n_consts=(1, 3), p_cond=0.3), make=split_schema, rounds=8),
   S('one package', (80, 1500), [('object', 2), ('foreign', 1), ('consts', 1)], NAMES, rounds=8)])
KW = dict(p_kw=0.7, p_sub=0.3, n_enums=(1, 2), n_bitmasks=(1, 2), p_func=0.5, p_cond=0.4, p_param=0.5)
P('C19', 'Random schemas (one package, several packages, templates, names which are Rust keywords or used by the generated code) are given to '
  'the generator by the library and the command line, from source trees with another order of entries, other white space, comments, file '
  'extensions and unrelated files, into new and used directories: the files are the same byte for byte, below every root module they compile. '
  'Non-trivial: two packages, templates, several types, or a source tree that differs.',
  ['several packages', 'template', 'other text', 'other decoys', 'other ext'], trees=[
   S('wide', (60, 1500), [], WIDE), S('names', (60, 1500), [], KW), S('packages', (80, 2000), [], dict(NAMES, p_kw=0.3), make=split_schema),
   S('templates', (50, 1000), [], TEMPL, make=templ_schema), S('template packages', (60, 1500), [], dict(TEMPL, split=True), make=templ_schema),
   S('short names', (40, 800), [], dict(TEMPL, short=True), make=templ_schema), S('rich', (40, 800), [], RICH)])
P('C20', RT + 'arrays with false length claims x allocation chunks. ' + GEN + 'false lengths and every chunk on generated types.',
  ['array length', 'chunk >1', 'chunk 0', 'true length'],
  [S('wide', (150, 2000), [('claims', 3)], dict(p_array=0.6)), S('packed', (60, 800), [('claims', 3)], PACKED),
   S('packages', (30, 500), [('claims', 3)], dict(SPREAD, p_array=0.6), make=split_schema)], rt=(3000, 40000))
P('C21', GEN + 'decoding into objects which hold other values, and sequences of objects in one stream.',
  ['target had another shape', 'object used again', '2+ objects'],
  [S('wide', (180, 3000), [('reuse', 2), ('sequence', 1)], WIDE), S('members', (80, 1200), [('reuse', 2), ('sequence', 1)], MEMBER),
   S('optional', (60, 1000), [('reuse', 2), ('sequence', 1)], OPTS),
   S('packages', (40, 600), [('reuse', 2), ('sequence', 1)], dict(SPREAD), make=split_schema)], rt=(1500, 20000))
P('C22', 'all integer types x values at powers of two and random; non-trivial: value > 1.', rt=(6000, 100000))
