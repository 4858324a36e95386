import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = ['src/util/BerView.cpp', 'src/ber_types/Real.cpp']
ASSUME = ['clang 18 -O1 IR semantics stand for the source (g++ -O3 build of the repository is assumed equivalent absent UB)', 'allocation never fails', 'iostream output is a sink']
def cov(f):
    t = open(V + '/harness/' + f).read()
    return re.findall(r'vf_cover\("([^"]+)"\)', t)
PROPS = {}
def P(prop, file, entry, bounds, **kw):
    kw.update(file=file, entry=entry, bounds=bounds)
    kw.setdefault('name', entry.replace('vf_', '', 1) + kw.pop('suffix', ''))
    PROPS.setdefault(prop, {'runs': []})['runs'].append(kw)
def entry_covers(f, e):
    """covers named inside one entry function (and in file-level helpers tagged by a comment 'covers for ENTRY')"""
    t = open(V + '/harness/' + f).read()
    m = re.search(r'extern "C" void %s\(\)\s*\{(.*?)^\}' % e, t, re.S | re.M)
    return re.findall(r'vf_cover\("([^"]+)"\)', m.group(1)) if m else []
def runs(prop, tier):
    rs = []
    for r in PROPS.get(prop, {'runs': []})['runs']:
        if r.get('tier', 'both') not in ('both', tier): continue
        r = dict(r)
        if tier == 'thorough': r.update(r.get('thorough', {}))
        r.setdefault('covers', entry_covers(r['file'], r['entry']))
        rs.append(r)
    return rs

P('C01', 'c01.cpp', 'vf_header', 'all classes, constructions, tags 0..2^63-1, lengths 0..2^64-1, buffers of 0..22 octets', jobs=8)
P('C02', 'c02.cpp', 'vf_safe', 'all byte strings of 0..9 octets, nesting depth 2', jobs=6, thorough=dict(defs=['-DNSAFE=12'], bounds='all byte strings of 0..12 octets, nesting depth 2', time=3000, jobs=8))
P('C02', 'c02.cpp', 'vf_safe_long', 'byte strings of 10..13 octets with a one-octet outer identifier', jobs=4, thorough=dict(defs=['-DNLONG=15'], bounds='byte strings of 10..15 octets with a one-octet outer identifier', time=3000))
P('C02', 'c02.cpp', 'vf_safe_iter', 'iteration over 10..11 octets whose first element uses a 4..8-octet length', jobs=4, covers=['first child valid', 'first child invalid'])
P('C02', 'c02.cpp', 'vf_safe_mutable', 'all byte strings of 0..8 octets, output room 0..10', jobs=4, thorough=dict(defs=['-DNIT=11'], bounds='all byte strings of 0..11 octets', time=3000))
P('C03', 'c02.cpp', 'vf_parse', 'all byte strings of 0..22 octets', jobs=8, thorough=dict(defs=['-DN3=48'], bounds='all byte strings of 0..48 octets', time=3000))
P('C04', 'c02.cpp', 'vf_children_kinds', 'content of 0..6 octets, all bytes: views that may be written through, containers', jobs=8, thorough=dict(defs=['-DNK=10'], bounds='content of 0..10 octets', time=3000))
P('C04', 'c02.cpp', 'vf_children', 'content of 0..8 octets, all bytes', jobs=8, thorough=dict(defs=['-DNIT=12'], bounds='content of 0..12 octets', time=3000))
NA = {}
for s, w in (('u', 'universal tag'), ('s', 'short context tag'), ('l', 'long-form tag'), ('d', 'explicit tag'), ('dl', 'two long-form tags')):
    P('C06', 'c06.cpp', 'vf_int_value_' + s, 'all 2^64 values, %s, buffer one short / exact / up to two octets more' % w, covers=['negative value', 'eight-octet value'])
    if s != 'l': P('C06', 'c06.cpp', 'vf_int_content_' + s, 'all contents of 1..10 octets, %s, all prior values' % w, covers=['content decoded', 'too long content refused'])
P('C06', 'c06.cpp', 'vf_foreign_int', 'all byte strings of 0..12 octets')
for s in ('bool_u', 'bool_l', 'bool_d', 'null_u', 'null_l', 'null_d', 'enum_u', 'enum_int', 'enum_d'):
    P('C07', 'c06.cpp', 'vf_' + s, s + ': all values', covers=[{'b': 'boolean', 'n': 'null', 'e': 'enumerated'}[s[0]]])
for s in ('bool', 'bool_d', 'null', 'null_d', 'enum'):
    P('C07', 'c06.cpp', 'vf_foreign_' + s, s + ': all byte strings of 0..7 octets', covers=['accepted', 'refused'])
P('C08', 'c08.cpp', 'vf_real_normal', 'all 2*2046*2^52 normal doubles', covers=['round trip'])
P('C08', 'c08.cpp', 'vf_real_other', 'all zeros, subnormals, infinities, NaNs')
P('C08', 'c08.cpp', 'vf_real_tagged', 'all 2^64 doubles under an explicit tag', covers=['round trip'])
P('C08', 'c08.cpp', 'vf_real_long', 'all 2^64 doubles under a long-form tag')
RC = ['exact value', 'not exactly representable']
P('C09', 'c08.cpp', 'vf_real_short_exp', 'all one- and two-octet exponents, bases, scale factors, signs; mantissas of 1, 2, 7, 8, 9 octets with up to one leading zero octet', covers=RC, jobs=8, thorough=dict(defs=['-DFULL', '-DNMANT=11'], time=3000, bounds='all one- and two-octet exponents, bases, scale factors, signs; mantissas of 1..11 octets with up to one leading zero octet'))
P('C09', 'c08.cpp', 'vf_real_long_exp', 'three-octet exponents and explicitly sized exponents of 1..5 octets, mantissas of 1..2 octets', covers=RC, jobs=4, thorough=dict(defs=['-DFULL'], time=3000, bounds='three-octet exponents and explicitly sized exponents of 1..5 octets, mantissas of 1..9 octets'))
P('C09', 'c08.cpp', 'vf_real_malformed', 'all malformed binary contents of 1..14 octets')
P('C09', 'c08.cpp', 'vf_real_through_type', 'all base-2 one-octet-exponent contents of 3..5 octets through the REAL type')
P('C09', 'c08.cpp', 'vf_real_special', 'all special-value contents of 0..4 octets')
P('C09', 'c08.cpp', 'vf_real_foreign', 'all byte strings of 0..6 octets', jobs=4)
P('C10', 'c10.cpp', 'vf_oid_first', 'lists of 0..3 arcs, all 64-bit values each', covers=['well-formed arcs', 'ill-formed arcs refused'])
P('C10', 'c10.cpp', 'vf_oid_arcs', 'lists of 3..5 arcs, first two 0..1 and 0..31, others 0..2^63-1', covers=['well-formed arcs'], jobs=4, thorough=dict(defs=['-DNARCS=6'], time=3000, jobs=8, bounds='lists of 3..6 arcs, first two 0..1 and 0..31, others 0..2^63-1'))
P('C10', 'c10.cpp', 'vf_oid_tagged', 'lists of 2..4 arcs under an explicit tag', covers=['well-formed arcs', 'ill-formed arcs refused'])
OC = ['malformed refused', 'well-formed content']
P('C10', 'c10.cpp', 'vf_oid_content', 'all contents of 0..7 octets', covers=OC, jobs=4, thorough=dict(defs=['-DNOID=11'], time=3000, jobs=8, bounds='all contents of 0..11 octets'))
P('C10', 'c10.cpp', 'vf_oid_long', 'one subidentifier of 7..11 octets, alone or after a one-octet one')
P('C10', 'c10.cpp', 'vf_oid_foreign', 'all byte strings of 0..7 octets')
P('C13', 'c13.cpp', 'vf_container_history', 'two containers, every history of 2 operations (11 kinds, content lengths 0, 3, 98, 127, 128, tags of 1..10 octets, 5 wire forms)', jobs=8, covers=['assign content', 'assign with identifier', 'resize', 'copy', 'move', 'failed decode', 'self copy'], thorough=dict(defs=['-DNSTEP=3', '-DNSIZE=3'], time=3000, bounds='two containers, every history of 3 operations (11 kinds, content lengths 3, 98, 128, tags of 1..10 octets, 5 wire forms)'))
for s in ('u', 'd', 'dl'):
    P('C14', 'c13.cpp', 'vf_fixed_' + s, 'typed storage %s: every history of 2 operations over two objects (10 kinds, content lengths 0, 3, 98, 127, 128, 5 wire forms)' % s, jobs=4, covers=['resize', 'copy', 'move', 'decode', 'failed decode', 'other identifier'], thorough=dict(defs=['-DNSTEP=3', '-DNSIZE=3'], time=3000, jobs=8, bounds='typed storage %s: every history of 3 operations over two objects (content lengths 3, 98, 128)' % s))
for s in ('small_u', 'small_dl'):
    P('C14', 'c13.cpp', 'vf_' + s, 'array storage %s: every history of 2 operations over two objects (10 kinds, content lengths 0, 3, 98, 99, 1, 2, 5 wire forms)' % s, jobs=2, defs=['-DNSIZE=9'], covers=['resize', 'copy', 'move', 'decode', 'failed decode', 'other identifier'], thorough=dict(defs=['-DNSTEP=3', '-DNSIZE=3'], time=3000, jobs=8, bounds='array storage %s: every history of 3 operations over two objects (content lengths 3, 98)' % s))
P('C14', 'c13.cpp', 'vf_fixed_u', 'vector storage, universal tag: every history of 3 operations over two objects (content lengths 3, 128)', jobs=8, suffix='_3', defs=['-DNSTEP=3', '-DNSIZE=2'], covers=['resize', 'copy', 'move', 'decode', 'failed decode', 'other identifier'], tier='quick')
P('C11', 'c11.cpp', 'vf_str_tags', 'sixteen string types under their universal tags, lengths 0, 1, 2, 98, 99, 126..129, first/middle/last octet arbitrary', covers=['string'], jobs=4)
P('C11', 'c11.cpp', 'vf_str_tagged', 'four tag shapes, lengths 0, 1, 2, 98, 99, 126..129', covers=['string'])
P('C11', 'c11.cpp', 'vf_str_history', 'two octet strings and one explicitly tagged string, every history of 3 operations (13 kinds, lengths 0, 2, 98, 128)', covers=['resize', 'history'], jobs=8, defs=['-DNSTEP=3'], thorough=dict(defs=['-DNSTEP=4'], jobs=8, time=3000, bounds='two octet strings and one explicitly tagged string, every history of 4 operations (13 kinds, lengths 0, 2, 98, 128)'))
P('C11', 'c11.cpp', 'vf_str_compare', 'all pairs of contents of 0..4 octets')
P('C11', 'c11.cpp', 'vf_str_foreign', 'all byte strings of 0..9 octets')
for s in 'ud':
    P('C12', 'c12.cpp', 'vf_time_set_' + s, 'all time points of years 1..9999, offsets -1439..1439 minutes, local time', models=['models.cpp', 'absl_models.cpp'], covers=['universal', 'with offset', 'local'])
    P('C12', 'c12.cpp', 'vf_time_content_' + s, 'all contents of 0..24 octets', models=['models.cpp', 'absl_models.cpp'], covers=['accepted', 'refused', 'time read', 'time refused'])
P('C12', 'c12.cpp', 'vf_time_foreign', 'all byte strings of 0..4, 12 and 13 octets', jobs=6, models=['models.cpp', 'absl_models.cpp'], covers=['accepted', 'refused', 'time refused'])
PROPS['C12']['assume'] = ['absl::FormatTime/ParseTime/time zones are replaced by an environment that renders a time as arbitrary digits in the requested shape and parses exactly that shape']
OPC = ['assign', 'reset', 'copy', 'move', 'self copy', 'decode', 'decode nothing', 'other element', 'iterator decode', 'through dereference']
for s, w, k in (('int', 'INTEGER', 3), ('tagged', 'explicitly tagged INTEGER', 3), ('str', 'OCTET STRING', 2)):
    OB = '%s, in-place and heap storage: every history of %d operations over two objects (12 kinds, %s integers, strings of 0 and 3 octets)'
    P('C15', 'c15.cpp', 'vf_optional_' + s, OB % (w, k, 'one-octet'), covers=OPC, jobs=4, defs=['-DNSTEP=%d' % k], thorough=dict(defs=['-DNSTEP=%d' % (k + 1), '-DWIDE'], jobs=8, time=3000, bounds=OB % (w, k + 1, 'two-octet')))
    P('C15', 'c15.cpp', 'vf_optional_' + s, OB % (w, k - 1, 'one-octet') + ', one or both holding a value at the start', covers=OPC, jobs=2, suffix='_held', defs=['-DSTART', '-DNSTEP=%d' % (k - 1)])
P('C15', 'c15.cpp', 'vf_optional_foreign', 'all byte strings of 0..6 octets', covers=['absent', 'present', 'refused'])
for s, w, k in (('int', 'INTEGER', 3), ('tagged', 'explicitly tagged INTEGER', 2), ('str', 'OCTET STRING', 2), ('bool', 'BOOLEAN', 3)):
    OB = '%s: every history of %d operations over two DEFAULT components (10 kinds, %s integers, strings of 0 and 3 octets)'
    P('C16', 'c16.cpp', 'vf_default_' + s, OB % (w, k, 'one-octet' if s != 'tagged' else 'two-octet'), covers=['default value', 'other value', 'decode', 'decode nothing', 'other element'], jobs=4, defs=['-DNSTEP=%d' % k] + ['-DWIDE'] * (s == 'tagged'), thorough=dict(defs=['-DNSTEP=%d' % (k + 1), '-DWIDE'], jobs=8, time=3000, bounds=OB % (w, k + 1, 'two-octet')))
P('C16', 'c16.cpp', 'vf_default_literal', 'string and integer literals')
P('C19', 'c19.cpp', 'vf_variant_history', 'three alternatives (number, string, type whose construction can throw), every history of 3 operations over two variants (10 kinds, all numbers, strings of 2 and 20 characters)', defs=['-DNSTEP=3'], jobs=8, thorough=dict(defs=['-DNSTEP=4'], time=3000, bounds='three alternatives, every history of 4 operations over two variants'))
P('C19', 'c19.cpp', 'vf_variant_choice', 'heap stored CHOICE, one history, all numbers')
for s, w in (('seq', 'SEQUENCE OF'), ('set', 'SET OF'), ('long', 'long-form tag'), ('double', 'explicit tag')):
    P('C17', 'c17.cpp', 'vf_of_' + s, '%s: lists of 0..7 one-octet integers, inline and heap storage, targets holding 0, 3 or 6 elements' % w, covers=['list'], jobs=2, thorough=dict(defs=['-DNEL=14'], time=3000, bounds='%s: lists of 0..14 one-octet integers, inline and heap storage' % w))
P('C17', 'c17.cpp', 'vf_of_strings', 'lists of 0..2 octet strings of 0..130 octets (content passing 127 octets)', covers=['list'], jobs=2)
P('C17', 'c17.cpp', 'vf_of_nested', 'lists of 0..2 lists of 0..2 integers')
P('C17', 'c17.cpp', 'vf_of_foreign', 'all byte strings of 0..8 octets', defs=['-DNB=8'], jobs=8, covers=['refused', 'wrong element', 'accepted', 'trailing octets'], thorough=dict(defs=['-DNB=11'], time=3000, bounds='all byte strings of 0..11 octets'))
GEN = dict(spec='gen.asn')
MM = dict(spec='gen.asn', models=['models.cpp', 'absl_models.cpp'])
GT = {'auto_leaf': 'AutoMod.Leaf', 'auto_pick': 'AutoMod.Pick', 'auto_rec': 'AutoMod.Rec', 'auto_col': 'AutoMod.Col', 'auto_top': 'AutoMod.Top', 'auto_manual': 'AutoMod.Manual', 'expl_seq': 'ExplMod.Seq', 'expl_seq2': 'ExplMod.Seq2', 'expl_bag': 'ExplMod.Bag', 'expl_bagext': 'ExplMod.BagExt', 'expl_nest': 'ExplMod.Nest', 'expl_ext': 'ExplMod.Ext', 'expl_derived': 'ExplMod.Derived', 'impl_seq': 'ImplMod.Seq', 'impl_seq2': 'ImplMod.Seq2'}
for s, t in GT.items():
    k = 2 if s == 'auto_top' else 3
    P('C25', 'c25.cpp', 'vf_' + s, '%s of specs/gen.asn: every presence/alternative choice, lists of 0..2, strings of 0 or 2, all one-octet leaf contents, %d levels' % (t, k), covers=['followed'], defs=['-DDEPTH=%d' % k], thorough=dict(defs=['-DDEPTH=4'], time=3000, bounds=t + ' of specs/gen.asn: every presence/alternative choice, lists of 0..2, strings of 0 or 2, all one-octet leaf contents, 4 levels'), **GEN)
P('C25', 'c25.cpp', 'vf_single', 'eleven tagged INTEGER, SEQUENCE and CHOICE types, all one-octet leaf contents', covers=['followed'], **GEN)
P('C25', 'c25.cpp', 'vf_triple', 'INTEGER under three explicit tags, all one-octet values', covers=['encoded'], **GEN)
G2 = dict(spec='gen2.asn', models=['models.cpp', 'absl_models.cpp'])
GT2 = {'pick': 'Auto.Pick', 'mixed': 'Expl.Mixed', 'mixedopt': 'Expl.MixedOpt', 'mixedopt2': 'Expl.MixedOpt2', 'high': 'Expl.High', 'highext': 'Expl.HighExt', 'extdef': 'Expl.ExtDef', 'extmid': 'Expl.ExtMid', 'empty': 'Expl.Empty', 'emptyext': 'Expl.EmptyExt', 'lists': 'Expl.Lists', 'holder': 'Impl.Holder', 'either': 'Impl.Either'}
CH2 = {'ch%d' % i: 'Expl.Ch%d' % i for i in range(4)}
G2B = '%s of specs/gen2.asn: every presence/alternative choice, lists of 0..2, strings of 0 or 2, all one-octet leaf contents'
COLT = {'cols': 'Expl.Cols', 'colset': 'Expl.ColSet', 'colof': 'Expl.ColOf', 'colseq': 'Expl.ColSeq'}
for s, t in {**GT2, **CH2, **COLT}.items():
    P('C25', 'c25.cpp', 'vf_' + s, G2B % t, covers=['followed'], defs=['-DGEN2'], **G2)
for s, t in (('u', 'untagged'), ('x', 'explicitly tagged'), ('i', 'IMPLICIT tagged'), ('auto', 'automatically tagged'), ('impl', 'tagged in an IMPLICIT TAGS module'), ('opt', 'untagged OPTIONAL')):
    P('C25', 'c25.cpp', 'vf_leaves_' + s, 'SEQUENCE of one %s component of each of 21 basic types: %s' % (t, 'every pair present' if s == 'opt' else 'every component in turn with arbitrary contents'), covers=['followed'], jobs=2, defs=['-DGEN2'], **G2)
PROPS['C25']['assume'] = ['absl::FormatTime/ParseTime/time zones are replaced by an environment that renders a time as arbitrary digits in the requested shape and parses exactly that shape']
GB = '%s of specs/gen.asn: every presence/alternative choice, lists of 0..2, strings of 0 or 2, all one-octet leaf contents, %d levels'
SEQS = [s for s in GT if s not in ('auto_pick', 'auto_col', 'expl_bag', 'expl_bagext', 'expl_nest')]
for s in SEQS:
    k = 2 if s == 'auto_top' else 3
    P('C20', 'c20.cpp', 'vf_' + s, GB % (GT[s], k), covers=['cycle'], defs=['-DDEPTH=%d' % k], thorough=dict(defs=['-DDEPTH=4'], time=3000, bounds=GB % (GT[s], 4)), **GEN)
P('C20', 'c20.cpp', 'vf_members_leaf', 'AutoMod.Leaf built and read through its members: all 64-bit numbers, strings of 0..3', **GEN)
P('C20', 'c20.cpp', 'vf_members_rec', 'AutoMod.Rec of 1..5 levels', **GEN)
P('C20', 'c20.cpp', 'vf_members_top', 'AutoMod.Top built and read through its members', **GEN)
P('C20', 'c20.cpp', 'vf_members_impl', 'ImplMod.Seq built and read through its members', **GEN)
P('C20', 'c20.cpp', 'vf_long', 'AutoMod.Top with one string of 90..254 octets at four places', **GEN)
for s, t in {**GT2, **COLT}.items():
    if s in ('mixedopt', 'cols', 'mixedopt2', 'extdef', 'extmid', 'empty', 'lists', 'holder'):
        P('C20', 'c20.cpp', 'vf_' + s, G2B % t, covers=['cycle'], defs=['-DGEN2'] + ['-DUNIFORM'] * (s == 'lists'), **G2)
for s, t in (('u', 'untagged'), ('x', 'explicitly tagged'), ('i', 'IMPLICIT tagged')):
    P('C20', 'c20.cpp', 'vf_leaves_' + s, 'SEQUENCE of one %s component of each of 21 basic types, every component in turn with arbitrary contents' % t, covers=['cycle'], defs=['-DGEN2'], **G2)
P('C20', 'c20.cpp', 'vf_long_ext', 'extensible SEQUENCE with DEFAULT and OPTIONAL components after a string of 0..257 octets', defs=['-DGEN2'], jobs=2, **G2)
P('C20', 'c20.cpp', 'vf_long_lists', 'SEQUENCE OF OCTET STRING with an element of 0..257 octets', defs=['-DGEN2'], **G2)
P('C20', 'c20.cpp', 'vf_many', 'nested lists of 41..86 elements', defs=['-DGEN2'], **G2)
PROPS['C20']['assume'] = PROPS['C25']['assume']
CHO = {'pick': 'AutoMod.Pick', 'alt': 'ExplMod.Alt', 'talt': 'ExplMod.TAlt', 'nest': 'ExplMod.Nest', 'la': 'Choice of BOOLEAN, INTEGER, OCTET STRING', 'lb': 'tagged heap-stored Choice of three tagged integers and BOOLEAN', 'lc': 'long-form tagged Choice of NULL and a tagged OCTET STRING'}
for s, t in CHO.items():
    P('C18', 'c18.cpp', 'vf_alt_' + s, '%s: every alternative after every other, one-octet leaves, lists of 0..2, strings of 0 or 2, 3 levels' % t, covers=['same alternative before', 'other alternative before'], jobs=2, thorough=dict(defs=['-DDEPTH=4'], time=3000), **GEN)
    P('C18', 'c18.cpp', 'vf_foreign_' + s, '%s: all byte strings of 0..6 octets' % t, covers=['accepted', 'refused'], jobs=2, thorough=dict(defs=['-DNB=8'], bounds='%s: all byte strings of 0..8 octets' % t, time=3000), **GEN)
P('C18', 'c18.cpp', 'vf_foreign_any', 'ANY: all byte strings of 0..5 octets', covers=['accepted', 'refused'], defs=['-DNB=5'], jobs=4, models=['models.cpp', 'absl_models.cpp'], thorough=dict(defs=['-DNB=7'], time=3000, bounds='ANY: all byte strings of 0..7 octets'), **GEN)
TIMEENV = ['absl::FormatTime/ParseTime/time zones are replaced by an environment that renders a time as arbitrary digits in the requested shape and parses exactly that shape']
PROPS['C18']['assume'] = TIMEENV
for s, t in {'mixed': 'Expl.Mixed', 'either': 'Impl.Either', 'colof': 'Expl.ColOf', 'colseq': 'Expl.ColSeq', **CH2}.items():
    P('C18', 'c18.cpp', 'vf_alt_' + s, '%s of specs/gen2.asn: every alternative after every other, one-octet leaves, strings of 0 or 2' % t, covers=['same alternative before', 'other alternative before'], defs=['-DGEN2'], **G2)
    P('C18', 'c18.cpp', 'vf_foreign_' + s, '%s of specs/gen2.asn: all byte strings of 0..5 octets' % t, covers=['accepted', 'refused'], jobs=2, defs=['-DGEN2', '-DNB=5'], thorough=dict(defs=['-DGEN2', '-DNB=7'], bounds='%s: all byte strings of 0..7 octets' % t, time=3000), **G2)
P('C18', 'c18.cpp', 'vf_components', 'CHOICE component of an IMPLICIT TAGS module imported from an AUTOMATIC TAGS module, every alternative', suffix='_2', defs=['-DGEN2'], **G2)
P('C18', 'c18.cpp', 'vf_components', 'five CHOICE components inside SEQUENCE and SET, every alternative', jobs=2, **GEN)
for s, t in {'col': 'AutoMod.Col', 'bag': 'ExplMod.Bag', 'bagext': 'ExplMod.BagExt'}.items():
    P('C21', 'c21.cpp', 'vf_order_' + s, '%s: every presence choice in every order, all one-octet leaves' % t, covers=['order'], jobs=8 if s == 'bag' else 2, **GEN)
    P('C21', 'c21.cpp', 'vf_missing_' + s, '%s: every mandatory component left out, remaining ones in every order' % t, covers=['missing'], **GEN)
    P('C21', 'c21.cpp', 'vf_duplicate_' + s, '%s: every component twice (equal or different contents), every order' % t, covers=['duplicate'], jobs=2, **GEN)
    P('C21', 'c21.cpp', 'vf_unknown_' + s, '%s: an element with any other identifier (tag numbers below 2^21) at every place' % t, covers=['unknown'], **GEN)
for s, t in {'high': 'Expl.High', 'highext': 'Expl.HighExt'}.items():
    P('C21', 'c21.cpp', 'vf_order_' + s, '%s (tag numbers up to 2097152): every presence choice in every order, all one-octet leaves' % t, covers=['order'], jobs=8 if s == 'high' else 2, defs=['-DGEN2'], **G2)
    P('C21', 'c21.cpp', 'vf_missing_' + s, '%s: every mandatory component left out, remaining ones in every order' % t, covers=['missing'], defs=['-DGEN2'], **G2)
    P('C21', 'c21.cpp', 'vf_duplicate_' + s, '%s: every component twice (equal or different contents), every order' % t, covers=['duplicate'], jobs=2, defs=['-DGEN2'], **G2)
    P('C21', 'c21.cpp', 'vf_unknown_' + s, '%s: an element with any other identifier (tag numbers below 2^21) at every place' % t, covers=['unknown'], defs=['-DGEN2'], **G2)
P('C21', 'c21.cpp', 'vf_unknown_emptyext', 'Expl.EmptyExt: an element with any identifier', covers=['unknown'], defs=['-DGEN2'], **G2)
AE = '%s: contents of up to %d elements with arbitrary one-octet identifiers (primitive or holding one element), and an optional stray octet'
for s, t in (('bagext', 'ExplMod.BagExt'), ('col', 'AutoMod.Col')):
    P('C21', 'c21.cpp', 'vf_arbitrary_' + s, AE % (t, 3), covers=['accepted', 'refused'], jobs=8, thorough=dict(defs=['-DNEL=4'], time=3000, bounds=AE % (t, 4)), **GEN)
F2 = '%s of specs/gen.asn, 2 levels%s, all one-octet leaf contents: %s'
for s, t in GT.items():
    cho = s in ('auto_pick', 'expl_nest')
    big = s in ('auto_top', 'expl_seq2', 'impl_seq', 'expl_seq')
    for e, w, c in (('mistag', 'every identifier at every level replaced by every other class and tag 0..30', 'wrong identifier'), ('prefix', 'every proper prefix', 'cut packet'),
                    ('missing', 'every mandatory component at every level left out', 'component missing'), ('inner_cut', 'every last component cut at every octet', 'cut component')):
        if cho and e in ('missing', 'inner_cut'): continue
        P('C24', 'c24.cpp', 'vf_%s_%s' % (e, s), F2 % (t, ' with all or no optional components, lists of 0..1' if big else '', w), covers=[c], jobs=4 if big else 2, defs=['-DUNIFORM'] if big else [], thorough=dict(defs=[], time=3000, bounds=F2 % (t, '', w)), **GEN)
for s, t in (('ext', 'ExplMod.Ext'), ('bagext', 'ExplMod.BagExt'), ('top', 'AutoMod.Top'), ('highext', 'Expl.HighExt'), ('extdef', 'Expl.ExtDef'), ('extmid', 'Expl.ExtMid'), ('emptyext', 'Expl.EmptyExt')):
    two = s in ('highext', 'extdef', 'extmid', 'emptyext')
    P('C24', 'c24.cpp', 'vf_additions_' + s, t + ' with one or two unknown additions of any class and tag number below 2^21 and 0..2 octets', jobs=2, covers=['additions'], **(dict(defs=['-DGEN2'], **G2) if two else GEN))
for s, t in {**GT2, **COLT}.items():
    if s in ('pick', 'empty', 'emptyext', 'extmid'): continue
    for e, w, c in (('mistag', 'every identifier at every level replaced by every other class and tag 0..30', 'wrong identifier'), ('prefix', 'every proper prefix', 'cut packet'),
                    ('missing', 'every mandatory component at every level left out', 'component missing'), ('inner_cut', 'every last component cut at every octet', 'cut component')):
        if s in ('mixed', 'either', 'colof', 'colseq') and e in ('missing', 'inner_cut'): continue
        P('C24', 'c24.cpp', 'vf_%s_%s' % (e, s), '%s of specs/gen2.asn, 2 levels%s, all one-octet leaf contents: %s' % (t, ' with all or no optional components, lists of 0..1' if s == 'lists' else '', w), covers=[c], jobs=2, defs=['-DGEN2'] + ['-DUNIFORM'] * (s == 'lists'), **G2)
LT5 = {'int': 'INTEGER', 'int_l': 'long-form tagged INTEGER', 'int_x': 'explicitly long-form tagged INTEGER', 'bool': 'BOOLEAN', 'bool_x': 'explicitly tagged BOOLEAN', 'null': 'NULL', 'null_x': 'explicitly tagged NULL', 'enum': 'ENUMERATED', 'enum_x': 'explicitly tagged ENUMERATED', 'real': 'REAL', 'real_x': 'explicitly tagged REAL', 'oid': 'OBJECT IDENTIFIER', 'oid_x': 'explicitly tagged OBJECT IDENTIFIER', 'oid_empty': 'OBJECT IDENTIFIER never assigned', 'octet': 'OCTET STRING', 'octet_l': 'long-form tagged OCTET STRING', 'octet_x': 'explicitly long-form tagged OCTET STRING', 'bits': 'BIT STRING', 'utf8_x': 'explicitly tagged UTF8String', 'time': 'GeneralizedTime', 'time_x': 'explicitly tagged UTCTime', 'opt': 'Optional INTEGER', 'opt_dyn': 'heap-stored Optional OCTET STRING', 'def_int': 'Default INTEGER', 'def_str': 'Default OCTET STRING', 'of': 'SEQUENCE OF INTEGER', 'of_x': 'explicitly tagged SEQUENCE OF INTEGER', 'of_str': 'SEQUENCE OF OCTET STRING', 'of_of': 'nested SEQUENCE OF', 'cho_x': 'explicitly tagged CHOICE', 'cho_u': 'untagged CHOICE', 'cho_l': 'long-form tagged CHOICE', 'any': 'ANY', 'container': 'BerContainer', 'wrap': 'headers put around contents of 0..200 octets at offsets 0..10'}
B5 = '%s: all numbers, strings of 0..258 octets (lengths around the length-octet limits), lists of 0..86 elements; every buffer size from 0 to three octets more than needed (for encodings over 40 octets: 0..7 and 12 less to 3 more)'
for s, t in LT5.items():
    P('C05', 'c05.cpp', 'vf_' + s, (B5 if s != 'wrap' else '%s, two octets of slack') % t, covers=[] if s == 'container' else ['encoded'], jobs=2, **MM)
for s, t in {**GT, 't4': 'ExplMod.Tagged4', 'talt': 'ExplMod.TAlt', 'tinner': 'ExplMod.TInner', **GT2}.items():
    if s in ('pick', 'extmid'): continue
    g2 = s in GT2
    for e, w in (('short', 'every presence/alternative choice, short leaves'), ('long', 'one string of 0..258 octets at each place')):
        if e == 'long' and s in ('auto_rec', 'auto_manual', 't4', 'tinner', 'expl_bagext', 'highext', 'empty', 'emptyext', 'holder', 'mixed', 'either', 'impl_seq2'): continue
        P('C05', 'c05.cpp', 'vf_%s_%s' % (e, s), '%s: %s; every buffer size from 0 to three octets more than needed (for encodings over 40 octets: 0..7 and 12 less to 3 more)' % (t, w), covers=['encoded', 'refused'], jobs=2, defs=['-DNLIB'] + ['-DGEN2'] * g2 + ['-DUNIFORM'] * (s in ('auto_top', 'expl_seq2', 'expl_seq', 'impl_seq', 'lists')), **(G2 if g2 else MM))
PROPS['C05']['assume'] = PROPS['C25']['assume']
LT = {'int': 'INTEGER', 'int_x': 'explicitly tagged INTEGER', 'bool': 'BOOLEAN', 'bool_x': 'explicitly tagged BOOLEAN', 'null': 'NULL', 'enum': 'ENUMERATED', 'enum_x': 'explicitly tagged ENUMERATED', 'real': 'REAL', 'real_x': 'explicitly tagged REAL', 'oid_x': 'explicitly tagged OBJECT IDENTIFIER', 'oid': 'OBJECT IDENTIFIER', 'octet': 'OCTET STRING', 'octet_x': 'explicitly tagged OCTET STRING', 'bits': 'BIT STRING', 'utf8': 'UTF8String', 'time': 'GeneralizedTime', 'opt': 'Optional INTEGER', 'opt_dyn': 'heap-stored Optional INTEGER', 'opt_str': 'heap-stored Optional tagged OCTET STRING', 'def_int': 'Default INTEGER', 'def_str': 'Default OCTET STRING', 'of': 'SEQUENCE OF INTEGER', 'of_dyn': 'heap-stored tagged SEQUENCE OF OCTET STRING', 'of_oid': 'SET OF OBJECT IDENTIFIER', 'choice': 'tagged heap-stored CHOICE', 'any': 'ANY'}
HEAVY = ('expl_seq',)
for prop, m in (('C22', 22), ('C23', 23), ('C32', 32)):
    for s, t in LT.items():
        n = {'any': 5, 'of_oid': 5, 'real': 5, 'oid': 5, 'octet_x': 6, 'oid_x': 5 if m == 23 else 6}.get(s, 7)
        LB = '%s: all byte strings of 0..%d octets' + (', into fresh and used targets' if m != 32 else '')
        P(prop, 'c23.cpp', 'vf_' + s, LB % (t, n), covers=['accepted', 'refused'], defs=['-DMODE=%d' % m, '-DNB=%d' % n], jobs=2, thorough=dict(defs=['-DMODE=%d' % m, '-DNB=%d' % (n + 2)], time=3000, bounds=LB % (t, n + 2)), **MM)
    if m == 32:
        for s in ('int', 'int_x', 'bool_x', 'enum_x', 'real_x', 'oid_x', 'octet_x', 'def_int', 'opt_str', 'bits'):
            P(prop, 'c23.cpp', 'vf_' + s, '%s: all byte strings of 0..6 octets, decoded into a target that holds a shorter or longer value' % LT[s], suffix='_used', covers=['accepted', 'refused'], defs=['-DMODE=32', '-DUSED', '-DNB=6'], jobs=2, **MM)
    for s, t in GT.items():
        CB = '%s of specs/gen.asn: X.690 encodings (mandatory or all components, every alternative) with %s octet%s at every place replaced by any value' + (', into fresh and used targets' if m != 32 else '')
        P(prop, 'c23.cpp', 'vf_corrupt_' + s, CB % (t, 'one', '') + (' (first or last alternative, used targets hold everything)' if s in HEAVY else ''), covers=['accepted', 'refused'], defs=['-DMODE=%d' % m] + (['-DLESS'] if s in HEAVY else []), jobs=4 if s in HEAVY else 2, thorough=dict(defs=['-DMODE=%d' % m, '-DNCORRUPT=2'], time=3000, bounds=CB % (t, 'two', 's')), **MM)
        if m == 22: P(prop, 'c23.cpp', 'vf_sound_' + s, GB % (t, 2) + ', into fresh and used targets', covers=['accepted'], defs=['-DMODE=22', '-DUNIFORM'], jobs=2, **MM)
        if m == 23: P(prop, 'c23.cpp', 'vf_octets_' + s, t + ': all byte strings of 0..5 octets', covers=['refused'], defs=['-DMODE=23', '-DNB=5'], jobs=2, thorough=dict(defs=['-DMODE=23', '-DNB=9'], time=3000, bounds=t + ': all byte strings of 0..9 octets'), **MM)
    for s, t in {**GT2, **COLT}.items():
        if s in ('pick', 'extmid'): continue
        CB = '%s of specs/gen2.asn: X.690 encodings (mandatory or all components, every alternative) with %s octet%s at every place replaced by any value' + (', into fresh and used targets' if m != 32 else '')
        P(prop, 'c23.cpp', 'vf_corrupt_' + s, CB % (t, 'one', ''), covers=['accepted', 'refused'], defs=['-DMODE=%d' % m, '-DGEN2'], jobs=2, thorough=dict(defs=['-DMODE=%d' % m, '-DGEN2', '-DNCORRUPT=2'], time=3000, bounds=CB % (t, 'two', 's')), **G2)
    PROPS[prop]['assume'] = TIMEENV
CC = dict(compiler=True, src=['src/compiler/CompilerTypes.cpp', 'src/compiler/Identifier.cpp', 'src/compiler/ResolveType.cpp'], models=['models.cpp', 'models_cc.cpp'], mem=3000)
CR = dict(CC, src=CC['src'] + ['src/compiler/ReorderAssignments.cpp', 'src/compiler/Dependencies.cpp'])
OB = ['ordered', 'refused', 'behind a pointer']
P('C26', 'c26.cpp', 'vf_graph1', '1..3 type assignments of every kind with one reference each, to any of them or to a missing one', covers=OB, jobs=8, time=280, thorough=dict(defs=['-DNASSIGN=4'], bounds='1..4 type assignments of every kind with one reference each, to any of them or to a missing one', time=3000, jobs=8), **CR)
P('C26', 'c26.cpp', 'vf_graph2', '3 type assignments, one of which is a SEQUENCE, SET or CHOICE with two members, others lists, SEQUENCEs or without reference, to any of them or to a missing one', covers=OB, jobs=8, time=280, thorough=dict(defs=['-DOTHERS=4'], bounds='3 type assignments, one of which is a SEQUENCE, SET or CHOICE with two members, to any of them or to a missing one', time=3000, jobs=8), **CR)
P('C26', 'c26.cpp', 'vf_forms', 'SEQUENCE, SET and CHOICE members which are tagged, lists, inline CHOICE or SEQUENCE types, mandatory or optional', covers=OB, jobs=4, thorough=dict(defs=['-DFORMMEMBERS=2'], bounds='SEQUENCE, SET and CHOICE with two members which are tagged, lists, inline CHOICE or SEQUENCE types, mandatory or optional', time=3000, jobs=8), **CR)
P('C26', 'c26.cpp', 'vf_external', '2 type assignments with up to two references of this and another module', covers=OB, jobs=4, **CR)
P('C26', 'c26.cpp', 'vf_values', '3 assignments of values, aliases, SEQUENCE and SET types with defaults naming values', covers=['ordered', 'refused'], jobs=4, **CR)
P('C27', 'c27.cpp', 'vf_modules', '1..3 modules with 0..2 imports each, of any of them or of a missing one', covers=['ordered', 'refused'], jobs=4, thorough=dict(defs=['-DNIMPORTS=3'], bounds='1..3 modules with 0..3 imports each, of any of them or of a missing one', time=3000, jobs=8), **CR)
P('C27', 'c27.cpp', 'vf_modules_wide', '4 modules with 0..1 imports each, of any of them or of a missing one', covers=['ordered', 'refused'], jobs=4, thorough=dict(defs=['-DNWIDE=2'], bounds='4 modules with 0..2 imports each, of any of them or of a missing one', time=3000, jobs=8), **CR)
P('C27', 'c27.cpp', 'vf_modules_names', '1..3 modules of any names, also equal ones, with 0..1 imports each', covers=['ordered', 'refused'], jobs=2, **CR)
CT = dict(CC, src=CR['src'] + ['src/compiler/TypeAsString.cpp', 'src/compiler/ValueAsString.cpp', 'src/compiler/ValueType.cpp', 'src/compiler/GenerateChoice.cpp', 'src/compiler/CppGeneration.cpp'])
AR = ['accepted', 'refused']
P('C30', 'c30.cpp', 'vf_names', '0..4 assignments of types and values with any two-letter names', covers=['duplicated', 'distinct'], jobs=2, **CR)
P('C30', 'c30.cpp', 'vf_ambiguous_sequence', 'SEQUENCE of 1..2 components: base types, tagged types, references to tagged types and CHOICEs of another module; mandatory, OPTIONAL or DEFAULT; any classes, tag numbers 0..9, modes and module defaults', covers=AR, jobs=8, **CT)
P('C30', 'c30.cpp', 'vf_ambiguous_sequence3', 'SEQUENCE of 3 components: base types or tagged types; mandatory, OPTIONAL or DEFAULT; any classes, tag numbers 0..9', covers=AR, jobs=8, thorough=dict(defs=['-DNCOMPONENTS=4'], bounds='SEQUENCE of 4 components: base types or tagged types; mandatory, OPTIONAL or DEFAULT; any classes, tag numbers 0..9', time=3000), **CT)
P('C30', 'c30.cpp', 'vf_ambiguous_set', 'SET of 1..2 components: base types, tagged types, references to tagged types and CHOICEs of another module; any classes, tag numbers 0..9, modes and module defaults', covers=AR, jobs=8, **CT)
P('C30', 'c30.cpp', 'vf_ambiguous_set3', 'SET of 3 components: base types or tagged types; any classes, tag numbers 0..9', covers=AR, jobs=8, **CT)
P('C30', 'c30.cpp', 'vf_undefined', 'references of any name to types and values of two modules, with and without a module name', covers=['found', 'refused'], **CT)
P('C30', 'c30.cpp', 'vf_recursive_choice', '1..2 CHOICE types and aliases which refer to each other with and without tags', covers=AR, jobs=2, **CT)
CL = dict(compiler=True, src=['src/compiler/CompilerTypes.cpp'], models=['models.cpp', 'models_cc.cpp'], mem=3000)
PR = dict(models=['models.cpp', 'models_os_raw.cpp', 'models_cc.cpp', 'absl_models.cpp'])
P('C31', 'c31.cpp', 'vf_any', 'all packets of 0..4 octets', jobs=8, time=200, thorough=dict(defs=['-DNANY=6'], bounds='all packets of 0..6 octets', time=3000), covers=['printed', 'boolean', 'integer'], **PR)
P('C31', 'c31.cpp', 'vf_content', 'primitive elements of every universal tag 0..30 with all contents of 0..5 octets', jobs=8, time=200, thorough=dict(defs=['-DNCONTENT=9'], bounds='primitive elements of every universal tag 0..30 with all contents of 0..9 octets', time=3000), covers=['printed', 'boolean', 'integer', 'real', 'object identifier', 'quotation mark or backslash', 'characters that cannot be printed'], **PR)
P('C31', 'c31.cpp', 'vf_nested', 'packets of 5..7 octets of nested short elements', jobs=8, time=200, thorough=dict(defs=['-DNNEST=7'], bounds='packets of 5..9 octets of nested short elements', time=3000), covers=['printed', 'several children', 'malformed child'], **PR)
P('C31', 'c31.cpp', 'vf_time', 'the forms of time texts with any one character replaced', jobs=4, covers=['printed', 'time'], **PR)
P('C31', 'c31.cpp', 'vf_header', 'identifiers of 3..10 octets of every class, length fields of 3..5 octets, 0..2 or 300 octets of content', jobs=4, **PR)
P('C31', 'c31.cpp', 'vf_deep', '620 nested elements in a symbolic run with 600 frames of call stack (200000 in the replay)', **PR)
P('C33', 'c33.cpp', 'vf_any', 'all texts of 0..2 characters', covers=['name', 'number', 'keyword or symbol'], jobs=8, thorough=dict(defs=['-DNANY=3'], bounds='all texts of 0..3 characters', time=3000), **CL)
P('C33', 'c33.cpp', 'vf_keyword', 'every keyword with any one character replaced or added', covers=['name', 'keyword or symbol'], jobs=8, time=200, **CL)
P('C33', 'c33.cpp', 'vf_identifier', 'names and field names of 2..5 letters, digits, hyphens and spaces', covers=['name'], jobs=8, thorough=dict(defs=['-DNIDENT=7'], bounds='names and field names of 2..7 letters, digits, hyphens and spaces', time=3000), **CL)
P('C33', 'c33.cpp', 'vf_reserved', 'every word C++ reserves with any one character replaced or added', covers=['name'], jobs=4, **CL)
P('C33', 'c33.cpp', 'vf_string', 'quotation mark and 0..6 characters', covers=['string'], jobs=4, thorough=dict(defs=['-DNSTR=10'], bounds='quotation mark and 0..10 characters', time=3000), **CL)
P('C33', 'c33.cpp', 'vf_line_comment', 'two hyphens, 0..6 characters, a name', covers=['name'], jobs=4, thorough=dict(defs=['-DNCOMMENT=9'], bounds='two hyphens, 0..9 characters, a name', time=3000), **CL)
P('C33', 'c33.cpp', 'vf_block_comment', 'opened block comment, 0..6 characters, a name', covers=['name'], jobs=4, thorough=dict(defs=['-DNCOMMENT=9'], bounds='opened block comment, 0..9 characters, a name', time=3000), **CL)
P('C33', 'c33.cpp', 'vf_number', 'all numbers of 1..19 digits with and without sign', covers=['number', 'refused'], jobs=4, thorough=dict(defs=['-DNDIGIT=22'], bounds='all numbers of 1..22 digits with and without sign', time=3000), **CL)
P('C33', 'c33.cpp', 'vf_number_end', 'a number followed by 1..3 characters of points, hyphens, digits, letters', covers=['number', 'keyword or symbol'], jobs=4, **CL)
P('C33', 'c33.cpp', 'vf_digit_string', 'apostrophe, 0..6 hexadecimal digits, apostrophe, any character', covers=['digit string'], jobs=4, thorough=dict(defs=['-DNHEX=12'], bounds='apostrophe, 0..12 hexadecimal digits, apostrophe, any character', time=3000), **CL)
P('C33', 'c33.cpp', 'vf_long_gap', '720 characters of blanks, line ends or comments in front of a name (399960 in the replay)', covers=['gap'], jobs=2, **CL)
P('C28', 'c28.cpp', 'vf_ids_leaf', 'every base type alone and under one tag of any class, number and mode, every module default', covers=['one tag', 'two tags'], **CC)
P('C28', 'c28.cpp', 'vf_ids_chain', 'base type or two-alternative CHOICE behind up to 3 tags and references within and across two modules; all classes, tag numbers, modes and module defaults', covers=['one tag', 'two tags', 'untagged choice'], thorough=dict(defs=['-DCHAIN=4'], bounds='the same behind up to 4 tags and references', time=2000, jobs=8), **CC)
P('C28', 'c28.cpp', 'vf_ids_choice', 'CHOICE of 1..2 alternatives (base types, tagged types, references to tagged types of either module; one of them a nested CHOICE, tagged, direct or referenced); all tags', covers=['untagged choice', 'refused'], jobs=8, thorough=dict(defs=['-DALLDEEP'], bounds='CHOICE of 1..2 alternatives which may both be nested CHOICEs; all tags', time=3000), **CC)
P('C28', 'c28.cpp', 'vf_ids_choice3', 'CHOICE of 3 alternatives (base types, tagged types, references to tagged types of either module); all tags', covers=['untagged choice', 'refused'], jobs=8, **CC)
P('C28', 'c28.cpp', 'vf_ids_automatic', 'components with an automatic tag: the alternatives above, all component indices', covers=['replaced or around a choice', 'explicit tag kept below'], **CC)
P('C28', 'c28.cpp', 'vf_resolve', 'CHOICE, SEQUENCE and ENUMERATED behind 1..4 tags and references within and across two modules', **CC)
P('C28', 'c28.cpp', 'vf_name', 'C++ names of all identifiers: every class, tag numbers 0..2^31-1, every universal tag, single, double and three alternatives', **CC)
FC = dict(compiler=True, src=['src/compiler/' + f + '.cpp' for f in ('CompilerTypes', 'CppGeneration', 'Dependencies', 'EncodeDecode', 'GenerateChoice', 'GenerateHelpers', 'Identifier', 'ObjectClass', 'Parameters', 'ReorderAssignments', 'ResolveType', 'TypeAsString', 'ValueAsString', 'ValueType')], models=['models.cpp', 'models_cc.cpp', 'models_os.cpp'], inc=['$REPO'], mem=4000, steps=100000000)
CV = 'as value assignment or DEFAULT, through type references and tags, in nested types: '
P('C29', 'c29.cpp', 'vf_integer', CV + 'all INTEGER values of 1..5 digits', jobs=4, thorough=dict(defs=['-DNDIGITS=7'], bounds=CV + 'all INTEGER values of 1..7 digits', time=3000), **FC)
P('C29', 'c29.cpp', 'vf_integer_limits', 'INTEGER values whose last two digits take every value, around 2^31, 2^32, 2^53, 2^63 and others', jobs=4, **FC)
P('C29', 'c29.cpp', 'vf_boolean', CV + 'both BOOLEAN values', **FC)
P('C29', 'c29.cpp', 'vf_string', CV + 'strings of 0..3 characters of any value but line ends', jobs=4, thorough=dict(defs=['-DNCHARS=5'], bounds=CV + 'strings of 0..5 characters of any value but line ends', time=3000), **FC)
P('C29', 'c29.cpp', 'vf_hex', CV + '0..5 hexadecimal digits for OCTET STRING and BIT STRING', jobs=8, time=200, thorough=dict(defs=['-DNHEXDIGITS=8'], bounds=CV + '0..8 hexadecimal digits', time=3000), **FC)
P('C29', 'c29.cpp', 'vf_bits', CV + '0..10 binary digits for OCTET STRING and BIT STRING', jobs=4, thorough=dict(defs=['-DNBITS=20'], bounds=CV + '0..20 binary digits', time=3000), **FC)
P('C29', 'c29.cpp', 'vf_oid', 'OBJECT IDENTIFIER values of 2..4 components by number, name or both, through type references and tags', jobs=8, time=200, **FC)
P('C29', 'c29.cpp', 'vf_reference', CV + 'references to values of any name and to enumeration items', jobs=4, **FC)
P('C34', 'c34.cpp', 'vf_root', 'enumerations of 1..4 items with and without numbers -9..9, extensible or not', covers=['numbered', 'refused'], jobs=8, time=200, thorough=dict(defs=['-DNITEMS=5'], bounds='enumerations of 1..5 items with and without numbers -9..9', time=3000), **FC)
P('C34', 'c34.cpp', 'vf_extended', 'enumerations of 1..2 items and 1..2 additional ones with and without numbers 0..9', covers=['numbered', 'refused'], jobs=8, time=200, thorough=dict(defs=['-DNITEMS=5'], bounds='enumerations of 1..4 items of which some are additional ones with and without numbers 0..9', time=3000), **FC)
P('C34', 'c34.cpp', 'vf_places', 'enumerations of 1..2 items and 0..1 additional one, assigned, tagged, in SEQUENCE and in SET OF SEQUENCE', covers=['numbered', 'refused'], jobs=4, **FC)
P('C34', 'c34.cpp', 'vf_large', 'numbers around 2^15 and 2^31', covers=['numbered'], **FC)
P('C34', 'c34.cpp', 'vf_by_reference', 'numbers given by a value reference', covers=['refused'], **FC)
EQ = ['same']
P('C35', 'c35.cpp', 'vf_components', 'COMPONENTS OF in SEQUENCE and SET types, by reference, alias, tag and in place, chained, at every place, with extension additions, under IMPLICIT and AUTOMATIC TAGS', covers=EQ, jobs=8, time=250, thorough=dict(defs=['-DFULL=1'], bounds='COMPONENTS OF in SEQUENCE and SET types, by reference, alias, tag and in place, chained, at every place, with extension additions, in both orders, in every tagging environment', time=3000), **FC)
P('C35', 'c35.cpp', 'vf_components_imported', 'COMPONENTS OF types of another module, every pair of tag defaults', covers=EQ, jobs=4, **FC)
P('C35', 'c35.cpp', 'vf_parameters', 'parameterized types with 1..3 parameters, seven bodies, eight uses', covers=EQ, jobs=8, time=250, thorough=dict(defs=['-DFULL=1'], bounds='parameterized types with 1..3 parameters of up to eight types, seven bodies, eight uses, every tag default, both orders', time=6000), **FC)
P('C35', 'c35.cpp', 'vf_tags', 'tags of nine kinds of types at seven places under every tag default', covers=EQ, jobs=8, **FC)
P('C35', 'c35.cpp', 'vf_automatic', 'automatic tags of SEQUENCE, SET and CHOICE types of 1..3 components of five kinds with 0..2 extension markers (SET: 1..2)', covers=EQ, jobs=8, time=250, thorough=dict(defs=['-DFULL=1'], bounds='automatic tags of SEQUENCE, SET and CHOICE types of 1..3 components of five kinds, optional or not, with 0..2 extension markers', time=3000), **FC)
P('C35', 'c35.cpp', 'vf_constraints', 'constraints and named numbers on sixteen types at six places', covers=EQ, jobs=8, **FC)
P('C35', 'c35.cpp', 'vf_class_fields', 'fields of information object classes of eight types at six places', covers=EQ, jobs=8, **FC)
DMG = ['accepted', 'refused']
for i in range(5):
    P('C36', 'c36.cpp', 'vf_character', 'specification %d of harness/c36.cpp with any one character replaced' % i, covers=DMG, jobs=8, time=200, suffix='_%d' % i, defs=['-DSPEC=%d' % i], **FC)
    P('C36', 'c36.cpp', 'vf_word', 'specification %d of harness/c36.cpp with any one word left out, doubled, exchanged with its neighbour or replaced by any other of its words or one of twelve odd ones' % i, covers=DMG, jobs=8, time=200, suffix='_%d' % i, defs=['-DSPEC=%d' % i], **FC)
P('C36', 'c36.cpp', 'vf_cut', 'five specifications cut at every character', covers=['refused'], jobs=8, time=100, **FC)
