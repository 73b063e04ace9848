"""The value classes of the library bindings: for each kind of value a library
can hold, its own predicates and accessors have a documented outcome (tables
below); the tests and accessors of the binding are interpreted for each such
kind and must report exactly one JSON kind, yield the stored value, and use no
accessor that the library forbids for that kind."""
from .. import ir
from ..ir import AnalysisError
from ..engine import *
from ..models import getf, setf, strv, val
from .kinds import TYPES, decide, relkey, F, Clause, Kind

J = T('J')
BV, IV, UV, DV, SV, AV, OV = T('bool'), T('int'), T('uint'), T('double'), T('text'), T('array'), T('object')
THROW = 'throw'
I63 = 9223372036854775807


class LK(Kind):
    """A kind of library value: preds maps (method[, template argument]) to
    the outcome, gets to the term returned (absent: forbidden)."""

    def __init__(self, name, typ, payload, preds, gets, rels=(), facts=(), dual=None, loose=()):
        Kind.__init__(self, name, typ, payload, rels, facts)
        self.preds, self.gets, self.dual, self.loose = preds, gets, dual, loose


def lib(tests, kinds):
    """tests: {predicate: kinds for which it is true}; kinds: [(name, JSON kind, payload, {accessor: term}, rels, facts, dual)]"""
    out = []
    for k in kinds:
        name, typ, payload, gets = k[:4]
        preds = {p: B(name in s) for p, s in tests.items()}
        kw = k[4] if len(k) > 4 else {}
        out.append(LK(name, typ, payload, preds, gets, **kw))
    return out


def small(t):
    return [(t, I(-2147483648), '=>'), (t, I(2147483647), '<=')]


def fin(v):
    return [(T('finite', DV), v)]


SIGNED = ('int',)
BOOST = lib({'is_null': ('null',), 'is_bool': ('bool',), 'is_int64': ('int',), 'is_uint64': ('uint', 'big'), 'is_double': ('double',), 'is_number': ('int', 'uint', 'big', 'double'),
             'is_string': ('string',), 'is_array': ('array',), 'is_object': ('object',), 'is_primitive': ('null', 'bool', 'int', 'uint', 'big', 'double', 'string'), 'is_structured': ('array', 'object')},
            [('null', 'Null', None, {}), ('bool', 'Bool', BV, {'get_bool': BV, 'as_bool': BV}), ('int', 'Integer', IV, {'get_int64': IV, 'as_int64': IV}),
             ('uint', 'Integer', UV, {'get_uint64': UV, 'as_uint64': UV}, dict(rels=[(UV, I(I63), '<=')])), ('big', 'Large', UV, {'get_uint64': UV, 'as_uint64': UV}, dict(rels=[(UV, I(I63), '>')])),
             ('double', 'Double', DV, {'get_double': DV, 'as_double': DV}), ('string', 'String', SV, {'get_string': SV, 'as_string': SV}),
             ('array', 'Array', AV, {'get_array': AV, 'as_array': AV}), ('object', 'Object', OV, {'get_object': OV, 'as_object': OV})])
RAPID = lib({'IsNull': ('null',), 'IsBool': ('bool',), 'IsTrue': (), 'IsFalse': (), 'IsObject': ('object',), 'IsArray': ('array',), 'IsString': ('string',),
             'IsNumber': ('int', 'int64', 'uint', 'uint64', 'big', 'double'), 'IsInt': ('int',), 'IsUint': ('uint',), 'IsInt64': ('int', 'int64', 'uint', 'uint64'), 'IsUint64': ('uint', 'uint64', 'big'), 'IsDouble': ('double',)},
            [('null', 'Null', None, {}), ('bool', 'Bool', BV, {'GetBool': BV}), ('int', 'Integer', IV, {'GetInt': IV, 'GetInt64': IV, 'GetDouble': T('dbl', IV)}, dict(rels=small(IV))),
             ('int64', 'Integer', IV, {'GetInt64': IV, 'GetDouble': T('dbl', IV)}, dict(rels=[(IV, I(-2147483648), '<')])), ('uint', 'Integer', UV, {'GetUint': UV, 'GetInt64': UV, 'GetUint64': UV, 'GetDouble': T('dbl', UV)}, dict(rels=[(UV, I(2147483647), '>'), (UV, I(4294967295), '<=')])),
             ('uint64', 'Integer', UV, {'GetInt64': UV, 'GetUint64': UV, 'GetDouble': T('dbl', UV)}, dict(rels=[(UV, I(4294967295), '>'), (UV, I(I63), '<=')])), ('big', 'Large', UV, {'GetUint64': UV, 'GetDouble': T('dbl', UV)}, dict(rels=[(UV, I(I63), '>')])),
             ('double', 'Double', DV, {'GetDouble': DV}), ('string', 'String', SV, {'GetString': T('chars', SV), 'GetStringLength': T('size', SV)}),
             ('array', 'Array', AV, {'Size': T('size', AV), 'GetArray': AV, 'Begin': ('iter', AV, I(0)), 'End': ('iter', AV, 'end')}),
             ('object', 'Object', OV, {'MemberCount': T('size', OV), 'MemberBegin': ('iter', OV, I(0)), 'MemberEnd': ('iter', OV, 'end'), 'GetObject': OV})])
JSON11 = lib({'is_null': ('null',), 'is_number': ('int', 'double'), 'is_bool': ('bool',), 'is_string': ('string',), 'is_array': ('array',), 'is_object': ('object',)},
             [('null', 'Null', None, {}), ('bool', 'Bool', BV, {'bool_value': BV}), ('int', 'Integer', IV, {'int_value': IV, 'number_value': T('dbl', IV)}, dict(dual=T('dbl', IV))),
              ('double', 'Double', DV, {'int_value': T('toint', DV), 'number_value': DV}, dict(rels=[(T('dbl', T('toint', DV)), DV, '<>')])), ('string', 'String', SV, {'string_value': SV}),
              ('array', 'Array', AV, {'array_items': AV}), ('object', 'Object', OV, {'object_items': OV})])
JSONCPP = lib({'isNull': ('null',), 'isBool': ('bool',), 'isInt': ('int',), 'isUInt': ('uint',), 'isInt64': ('int', 'int64', 'uint', 'uint64', 'integral'), 'isUInt64': ('uint', 'uint64', 'big'),
               'isIntegral': ('int', 'int64', 'uint', 'uint64', 'big', 'integral'), 'isDouble': ('int', 'int64', 'uint', 'uint64', 'big', 'double', 'integral'),
               'isNumeric': ('int', 'int64', 'uint', 'uint64', 'big', 'double', 'integral'), 'isString': ('string',), 'isArray': ('array',), 'isObject': ('object',), 'empty': ('null',)},
              [('null', 'Null', None, {'size': I(0)}), ('bool', 'Bool', BV, {'asBool': BV})] +
              [(n, 'Integer', v, dict({'asInt64': v, 'asLargestInt': v, 'asDouble': T('dbl', v)}, **g), dict(dual=T('dbl', v), rels=r)) for n, v, g, r in (
                  ('int', IV, {'asInt': IV}, small(IV)), ('int64', IV, {}, [(IV, I(-2147483648), '<')]), ('uint', UV, {'asUInt': UV, 'asUInt64': UV, 'asLargestUInt': UV}, [(UV, I(2147483647), '>'), (UV, I(4294967295), '<=')]),
                  ('uint64', UV, {'asUInt64': UV, 'asLargestUInt': UV}, [(UV, I(4294967295), '>'), (UV, I(I63), '<=')]))] +
              [('integral', 'Integer', T('trunc', DV), {'asInt64': T('trunc', DV), 'asLargestInt': T('trunc', DV), 'asDouble': DV}, dict(dual=DV)),
               ('big', 'Large', UV, {'asUInt64': UV, 'asLargestUInt': UV, 'asDouble': T('dbl', UV)}, dict(dual=T('dbl', UV), rels=[(UV, I(I63), '>')])),
               ('double', 'Double', DV, {'asDouble': DV}), ('string', 'String', SV, {'asString': SV}), ('array', 'Array', AV, {'size': T('size', AV)}), ('object', 'Object', OV, {'size': T('size', OV)})])
NLOH = lib({'is_null': ('null',), 'is_boolean': ('bool',), 'is_number': ('int', 'uint', 'big', 'double', 'nonfinite'), 'is_number_integer': ('int', 'uint', 'big'), 'is_number_unsigned': ('uint', 'big'),
            'is_number_float': ('double', 'nonfinite'), 'is_string': ('string',), 'is_array': ('array',), 'is_object': ('object',), 'is_primitive': ('null', 'bool', 'int', 'uint', 'big', 'double', 'nonfinite', 'string'),
            'is_structured': ('array', 'object'), 'is_discarded': (), 'is_binary': ()},
           [('null', 'Null', None, {'size': I(0)}), ('bool', 'Bool', BV, {('get', 'bool'): BV, 'size': I(1)}),
            ('int', 'Integer', IV, {('get', 'long'): IV, ('get', 'double'): T('dbl', IV), 'size': I(1)}), ('uint', 'Integer', UV, {('get', 'long'): UV, ('get', 'unsigned long'): UV, ('get', 'double'): T('dbl', UV), 'size': I(1)}, dict(rels=[(UV, I(I63), '<=')])),
            ('big', 'Large', UV, {('get', 'long'): T('wrapped', UV), ('get', 'unsigned long'): UV, ('get', 'double'): T('dbl', UV), 'size': I(1)}, dict(rels=[(UV, I(I63), '>')])),
            ('double', 'Double', DV, {('get', 'double'): DV, ('get', 'long'): T('trunc', DV), 'size': I(1)}, dict(facts=fin(True))),
            ('nonfinite', 'Null', None, {('get', 'double'): DV, 'size': I(1)}, dict(facts=fin(False))), ('string', 'String', SV, {('get', 'std::string'): SV, 'size': I(1)}),
            ('array', 'Array', AV, {'size': T('size', AV)}), ('object', 'Object', OV, {'size': T('size', OV)})])
PICO = lib({('is', 'picojson::null'): ('null',), ('is', 'bool'): ('bool',), ('is', 'long'): ('int',), ('is', 'double'): ('int', 'double'), ('is', 'std::string'): ('string',),
            ('is', 'array'): ('array',), ('is', 'object'): ('object',)},
           [('null', 'Null', None, {}), ('bool', 'Bool', BV, {('get', 'bool'): BV}), ('int', 'Integer', IV, {('get', 'long'): IV, ('get', 'double'): T('dbl', IV)}, dict(dual=T('dbl', IV))), ('double', 'Double', DV, {('get', 'double'): DV}),
            ('string', 'String', SV, {('get', 'std::string'): SV}), ('array', 'Array', AV, {('get', 'array'): AV}), ('object', 'Object', OV, {('get', 'object'): OV})])
POCO = lib({'isEmpty': ('null',), 'isBoolean': ('bool',), 'isInteger': ('bool', 'int', 'big'), 'isSigned': ('int', 'double'), 'isNumeric': ('bool', 'int', 'big', 'double'), 'isString': ('string',),
            ('type', 'array'): ('array',), ('type', 'object'): ('object',)},
           [('null', 'Null', None, {}), ('bool', 'Bool', BV, {('convert', 'bool'): BV, ('convert', 'long'): T('dbl', BV), ('convert', 'double'): T('dbl', BV)}),
            ('int', 'Integer', IV, {('convert', 'long'): IV, ('convert', 'double'): T('dbl', IV)}),
            ('double', 'Double', DV, {('convert', 'double'): DV}), ('string', 'String', SV, {('convert', 'std::string'): SV}),
            ('array', 'Array', AV, {('extract', 'array'): AV}), ('object', 'Object', OV, {('extract', 'object'): OV}), ('big', 'Large', UV, {('convert', 'double'): T('dbl', UV), ('convert', 'unsigned long'): UV})])
QT = lib({'isNull': ('null',), 'isBool': ('bool',), 'isDouble': ('int', 'double'), 'isString': ('string',), 'isArray': ('array',), 'isObject': ('object',), 'isUndefined': ()},
         [('null', 'Null', None, {}), ('bool', 'Bool', BV, {'toBool': BV}), ('int', 'Integer', IV, {'toInt': IV, 'toDouble': T('dbl', IV), 'toInteger': IV}, dict(dual=T('dbl', IV))),
          ('double', 'Double', DV, {'toDouble': DV, 'toInt': 'default', 'toInteger': 'default'}), ('string', 'String', SV, {'toString': SV}), ('array', 'Array', AV, {'toArray': AV}), ('object', 'Object', OV, {'toObject': OV})])
# QMetaType codes
QINTS = {'int': 2, 'uint': 3, 'long long': 4, 'unsigned long long': 5, 'long': 32, 'short': 33, 'char': 34, 'unsigned long': 35, 'unsigned short': 36, 'unsigned char': 37, 'signed char': 40, 'char16_t': 56, 'char32_t': 57}
QVAR = lib({'isNull': ('null',)},
           [('null', 'Null', None, {'typeId': I(0)}), ('bool', 'Bool', BV, {'typeId': I(1), 'toBool': BV})] +
           [(n, 'Integer', IV, {'typeId': I(c), 'toLongLong': IV, 'toInt': T('wrapped', IV) if n != 'int' else IV, 'toDouble': T('dbl', IV)}) for n, c in sorted(QINTS.items())] +
           [(n, 'Double', DV, {'typeId': I(c), 'toDouble': DV}) for n, c in (('double', 6), ('float', 38))] +
           [('string', 'String', SV, {'typeId': I(10), 'toString': SV}), ('array', 'Array', AV, {'typeId': I(9), 'toList': AV}), ('object', 'Object', OV, {'typeId': I(8), 'toMap': OV})])
YAML = lib({'IsNull': ('null',), 'IsScalar': ('scalar',), 'IsSequence': ('array',), 'IsMap': ('object',), 'IsDefined': ('null', 'scalar', 'array', 'object')},
           [('null', 'Null', None, {'size': I(0)}), ('scalar', 'String', SV, {('as', 'std::string'): SV, 'Scalar': SV, 'size': I(0)}, dict(loose=('Bool', 'Integer', 'Double'))), ('array', 'Array', AV, {'size': T('size', AV)}), ('object', 'Object', OV, {'size': T('size', OV)})])
TABLES = {'BoostJsonValue': BOOST, 'GenericRapidJsonValue': RAPID, 'Json11Value': JSON11, 'JsonCppValue': JSONCPP, 'NlohmannJsonValue': NLOH, 'PicoJsonValue': PICO,
          'PocoJsonValue': POCO, 'QtJsonValue': QT, 'QtVariantValue': QVAR, 'YamlCppValue': YAML}


def tag(c):
    """A short name of the first template argument."""
    t = (c.get('targs') or [''])[0]
    for n in ('Array', 'vector', 'array'):
        if n in t:
            return 'array'
    for n in ('Object', 'map', 'object'):
        if n in t:
            return 'object'
    if 'basic_string' in t:
        return 'std::string'
    return {'long long': 'long', 'int64_t': 'long'}.get(t, t)


class Value(Check):
    inline_depth = 12

    def __init__(self, prog, kind):
        self.p = prog
        self.k = kind
        self.bad = []

    def hook(self, E, st, c, this, args, node):
        n = c['n']
        if c.get('cls') == 'Var' and n == 'type' and this is not None and E.content(st, this) == J:
            return [(st, T('typeof', J))]
        if this is not None and this[0] in ('ptr', 't') and (E.content(st, this) if this[0] == 'ptr' else this) == J and not c.get('root'):
            k = self.k
            for key in ((n, tag(c)), n):
                if key in k.preds:
                    return [(st, k.preds[key])]
                if key in k.gets:
                    v = k.gets[key]
                    if v == 'default':
                        v = val(E, st, args[0]) if args else I(0)
                    return [(st, ptr(('sym', v)) if c.get('ret', '').endswith('&') and v[0] == 't' else v)]
            if n in self.known:
                self.bad.append((node.get('l'), n + ('<%s>' % tag(c) if c.get('targs') else ''), st))
                E.throw(st, S('library accessor'), node)
                return []
            return None
        if c.get('cls') == 'type_info' and n in ('operator==', 'operator!='):
            ab = [E.content(st, x) if x[0] == 'ptr' else x for x in ([this] if this is not None else []) + list(args)]
            if T('typeof', J) in ab:
                o = [x for x in ab if x != T('typeof', J)]
                t = tag({'targs': [o[0][2]]}) if o and o[0][0] == 't' and o[0][1] == 'typeid' and isinstance(o[0][2], str) else None
                if ('type', t) in self.k.preds:
                    v = self.k.preds[('type', t)]
                    return [(st, v if n == 'operator==' else E.neg(v))]
        if n in ('size', 'count', 'length') and this is not None:
            v = E.content(st, this) if this[0] == 'ptr' else this
            if v in (AV, OV, SV):
                return [(st, T('size', v))]
        if n in ('toStdString',) and this is not None and (E.content(st, this) if this[0] == 'ptr' else this) == SV:
            return [(st, SV)]
        if n == 'operator->' and args or n == 'operator->' and this is not None:
            v = E.content(st, this if this is not None else args[0])
            if v in (AV, OV):
                return [(st, ptr(('sym', v)))]
        if n == 'operator-' and len(args) == 2:
            a, b = (E.content(st, x) if x[0] == 'ptr' else x for x in args)
            if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1] and a[2] == 'end' and b[2] == I(0):
                return [(st, T('size', a[1]))]
        if n == 'contains' and this is not None and args:
            # membership in a constant list of type codes
            l, x = E.content(st, this), val(E, st, args[0])
            if l[0] == 't' and l[1] == 'new' and len(l) == 4:
                l = l[3]
            if l[0] == 'list' and x[0] == 'i':
                return [(st, B(x in l[1]))]
        if n in ('data', 'c_str') and this is not None and (E.content(st, this) if this[0] == 'ptr' else this) == SV:
            return [(st, T('chars', SV))]
        if c['sq'].startswith('std::basic_string::') and args and n in ('assign', 'basic_string', 'operator='):
            a = val(E, st, args[0])
            b = val(E, st, args[1]) if len(args) > 1 else None
            if a == T('chars', SV):
                # text up to the first null character unless the length is given
                r = SV if b == T('size', SV) else T('cut', SV)
                if n == 'basic_string':
                    return [(st, r)]
                if this is not None and this[0] == 'ptr':
                    st = st.copy()
                    E.storev(st, this[1], r, node)
                    return [(st, this)]
        if c['sq'] in ('std::isfinite', 'isfinite') and val(E, st, args[0]) == DV:
            f = st.facts.get(T('finite', DV))
            return [(st, B(f) if f is not None else T('finite', DV))]
        return None

    @property
    def known(self):
        out = set()
        for k in TABLES[self.cls]:
            for d in (k.preds, k.gets):
                for key in d:
                    out.add(key[0] if isinstance(key, tuple) else key)
        return out


def classes(prog):
    out = []
    for t, fs in sorted(prog.by_cls.items()):
        r = prog.records.get(t)
        if r and '/adapters/' in r['loc'] and r['n'] in TABLES:
            out.append((r['n'], t, [f for f in fs if f.get('body') is not None]))
    return out


def run(prog, cls, f, k, args):
    chk = Value(prog, k)
    chk.cls = cls
    E = Engine(prog, chk)
    E.floats = True
    E.unroll = True
    st = State()
    st.store[('sym', T('this'))] = obj(cls, m_value=J)
    k.init(st)
    st.facts[('rel', T('dbl', IV), T('dbl', IV))] = '='
    outs, thrown = E.run(f, st, ptr(('sym', T('this'))), args)
    return E, chk, outs, thrown


def values(res, tier):
    prog = ir.load()
    cs = classes(prog)
    res.need(len(cs), 'value classes of bindings')
    for cls, t, fs in cs:
        n = 0
        for f in fs:
            m = f['n']
            if m[:2] != 'is' and m[:3] != 'get':
                continue
            for k in TABLES[cls]:
                n += one(res, prog, cls, f, k)
        res.unit('%s: %d outcomes of tests and accessors over %d kinds of library value' % (cls, n, len(TABLES[cls])), n)


def holds(k, x, x_is):
    """Does kind k count as JSON kind x? None: either is fine."""
    if k.typ == 'Large':
        # beyond int64: a number, read as a double
        return True if x == 'Number' else None if x in ('Double', 'Integer') else False
    if k.loose and not x_is and x in k.loose:
        return None
    if x == 'Number':
        return k.typ in ('Integer', 'Double')
    if x == 'Double' and k.typ == 'Integer' and k.dual is not None:
        return None
    return k.typ == x


def one(res, prog, cls, f, k):
    m = f['n']
    sized = m in ('getArraySize', 'getObjectSize')
    opt = m.endswith('Optional')
    x = m[2:] if m[:2] == 'is' else m[3:-4] if sized else m[3:-8] if opt else m[3:]
    if x not in TYPES + ('Number',):
        return 0
    root = (('sym', T('out')), ()) if f['params'] else None
    who = '%s::%s' % (cls, m)

    def bad(clause, text, st):
        if st is not None and st.taint:
            res.undec('%s on %s: %s' % (who, k.name, text))
            return
        key = '%s: %s' % (who, clause) + (' (large)' if k.typ == 'Large' else '')
        res.violation(key, f['loc'], '%s for a library value of kind %s: %s' % (who, k.name, text), st.path() if st is not None else ())
    try:
        E, chk, outs, thrown = run(prog, cls, f, k, [('ptr', root)] if root else [])
    except AnalysisError as e:
        res.undec('%s on %s: %s' % (who, k.name, e))
        return 0
    for l, acc, s in chk.bad:
        bad('accessor', 'uses the accessor %s, which is not defined for it' % acc, s)
    if chk.bad:
        return 1
    for s, e in thrown:
        bad('exception', 'an exception is thrown', s)
    want = holds(k, x, m[:2] == 'is')
    for s, v in outs:
        if v[0] == 'ptr':
            v = E.content(s, v)
        if opt:
            v = getf(v, 'has') if v[0] == 'obj' else v
        for s2, b in decide(E, s, v):
            if b is None:
                res.undec('%s on %s: result not determined (%s)' % (who, k.name, show(v)[:80]))
                continue
            if want is not None and b != want:
                bad('result', 'the result is %s, not %s' % (str(b).lower(), str(want).lower()), s2)
            elif b and root:
                o = E.snap(s2, E.load(s2, root))
                good = [k.payload]
                if sized:
                    good = [T('size', k.payload)]
                elif x == 'Double':
                    good = [k.payload if k.typ == 'Double' else k.dual, T('dbl', k.payload)]
                if o is not None and o[0] == 't' and o[1] == 'dist' and o[2][0] == 'iter' and o[2][2] == 'end' and o[3][2] == I(0):
                    o = T('size', o[2][1])
                if o == T('chars', SV):
                    o = T('cut', SV)
                if want is None and k.loose:
                    continue
                wrong = lambda t: t in (UNDEF, T('out')) or t[0] == 't' and t[1] in ('cut', 'wrapped', 'toint')
                if o not in good and o is not None and o[0] == 't' and k.payload is not None and mentions(o, lambda t: t == k.payload) and not mentions(o, wrong):
                    res.undec('%s on %s: yields %s' % (who, k.name, show(o)[:80]))
                elif o not in good:
                    bad('value', 'yields %s instead of %s' % (show(o)[:80], show(good[0])[:60]), s2)
            elif b and opt:
                pass
    return 1
