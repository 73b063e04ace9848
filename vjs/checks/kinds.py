"""The conversion layer of an adapter (BasicAdapter and the self-contained
string adapter), analysed over a finite domain of value kinds: each kind is a
set of facts about the stored value; every member function is interpreted for
each kind and its outcome compared with the conversion table."""
from ..ir import AnalysisError
from ..engine import *
from ..models import call_model, coll_method, getf, setf, strv, val

INT, DBL, STRV = T('INT'), T('DBL'), T('STR')
BIG = 9223372036854775808.0
TYPES = ('Null', 'Bool', 'Integer', 'Double', 'String', 'Array', 'Object')


def relkey(a, b, rel):
    if repr(a) > repr(b):
        return ('rel', b, a), rel.translate(str.maketrans('<>', '><'))
    return ('rel', a, b), rel


class Kind:
    def __init__(self, name, typ, payload=None, rels=(), facts=(), **flags):
        self.name, self.typ, self.payload, self.rels, self.facts = name, typ, payload, rels, facts
        self.flags = flags

    def get(self, k):
        return self.flags.get(k)

    def init(self, st, sub=lambda v: v):
        for a, b, rel in self.rels:
            k, r = relkey(sub(a), b if b != a else sub(b), rel)
            st.facts[k] = r
        for a, v in self.facts:
            st.facts[sub(a)] = v


def F(x):
    return ('f', float(x))


def dbl(name, rels, integral, finite=True):
    fin = [(DBL, DBL, '=')] if finite is True else []
    return Kind(name, 'Double', DBL, [(DBL, F(c), r) for c, r in rels] + fin, [(T('finite', DBL), finite), (T('nan', DBL), finite is None), (T('isinf', DBL), finite is False)]
                if finite is not None else [(T('finite', DBL), False), (T('nan', DBL), True), (T('isinf', DBL), False)], integral=integral, finite=finite is True)


def text(name, **flags):
    fs = [(T('eq', *sorted((S(c), STRV), key=repr)), False) for c in ('', 'true', 'false', 'null')]
    return Kind(name, 'String', STRV, [(T('size', STRV), I(0), '>')], fs, **flags)


KINDS = [
    Kind('null', 'Null'),
    Kind('true', 'Bool', TRUE), Kind('false', 'Bool', FALSE),
    Kind('an integer', 'Integer', INT),
    dbl('an integral double', [(-BIG, '>'), (BIG, '<')], True),
    dbl('a fractional double', [(-BIG, '>'), (BIG, '<')], False),
    dbl('the double 2^63', [(BIG, '=')], True),
    dbl('the double -2^63', [(-BIG, '=')], True),
    dbl('a double above 2^63', [(BIG, '>')], True),
    dbl('a double below -2^63', [(-BIG, '<')], True),
    dbl('positive infinity', [(BIG, '>')], True, False),
    dbl('negative infinity', [(-BIG, '<')], True, False),
    dbl('not-a-number', [(BIG, 'u'), (-BIG, 'u'), (0, 'u')], False, None),
    Kind('the empty string', 'String', S('')),
    Kind('the string "true"', 'String', S('true')), Kind('the string "false"', 'String', S('false')),
    text('a string holding an integer', num=True, int=True, lead=True),
    text('a string holding a non-integral number', num=True, lead=True, rest='x+'),
    text('a string holding an integer and a decimal point', num=True, lead=True, rest='x'),
    text('an integer followed by a character', lead=True, rest='x'),
    text('an integer followed by more text', lead=True, rest='x+'),
    text('an integer followed by a space', lead=True, rest=' '),
    text('an integer followed by spaces', lead=True, rest=' +'),
    text('another string'),
    Kind('an empty array', 'Array', ('list', ())), Kind('a non-empty array', 'Array', T('arr'), [(T('size', T('arr')), I(0), '>')], n=True),
    Kind('an empty object', 'Object', ('list', ())), Kind('a non-empty object', 'Object', T('objv'), [(T('size', T('objv')), I(0), '>')], n=True),
]
# NaN compares unordered with itself
for k in KINDS:
    if k.name == 'not-a-number':
        k.rels.append((DBL, DBL, 'u'))
    elif k.typ == 'Double' and not k.get('finite'):
        k.rels.append((DBL, DBL, '='))


def empty_str(k):
    return k.typ == 'String' and k.payload == S('')


def empty(k, t):
    return k.typ == t and not k.get('n')


def intlike(k):
    return k.typ == 'Double' and k.get('finite') and k.get('integral') and not any(c == F(BIG) and r in '=>' or c == F(-BIG) and r == '<' for _, c, r in k.rels)


def is_(k, x):
    return k.typ == x or x == 'Number' and k.typ in ('Integer', 'Double')


def convertible(k, x):
    """asX succeeds"""
    t, p = k.typ, k.payload
    if x == 'Bool':
        return t == 'Bool' or p in (S('true'), S('false'))
    if x in ('Double', 'Number'):
        return t in ('Integer', 'Double') or bool(k.get('num'))
    if x == 'Integer':
        return t == 'Integer' or intlike(k) or t == 'String' and bool(k.get('int'))
    if x == 'String':
        return not k.get('n')
    if x == 'Array':
        return t == 'Array' or empty(k, 'Object') or empty_str(k)
    if x == 'Object':
        return t == 'Object' or empty(k, 'Array') or empty_str(k)
    if x == 'Null':
        return t == 'Null' or empty_str(k)


def maybe(k, x):
    t = k.typ
    if free(k, x):
        return None
    if x == 'String':
        return not k.get('n')
    if x == 'Array':
        return t == 'Array' or empty(k, 'Object')
    if x == 'Object':
        return t == 'Object' or empty(k, 'Array')
    return convertible(k, x)


def free(k, x):
    """Conversions left to the adapter, as long as test and conversion agree."""
    return x in ('Array', 'Object') and empty_str(k) or x == 'String' and k.typ == 'Null'


def converted(k, x, sub=lambda v: v):
    """Acceptable results of asX, or None when not prescribed."""
    t, p = k.typ, k.payload
    p = sub(p) if p is not None else None
    if t == x:
        return (p,)
    if x == 'Bool':
        return (B(p == S('true')),)
    if x == 'Double':
        return (T('dbl', p),) if t == 'Integer' else (T('num', p),)
    if x == 'Number':
        return (T('dbl', p),) if t == 'Integer' else (p,)
    if x == 'Integer':
        return (T('trunc', p), T('ipart', p)) if t == 'Double' else (T('intof', p),)
    if x == 'String':
        if t == 'Bool':
            return (S('true' if p == TRUE else 'false'),)
        if t in ('Null', 'Array', 'Object'):
            return (S(''),)
        return None
    return None


class Layer(Check):
    """this->m_value is a value of one kind; streams and number parsing are
    interpreted on the text classes."""
    inline_depth = 24

    def __init__(self, prog, kind, root):
        self.p = prog
        self.k = kind
        self.root = root
        self.obls = 0
        self.casts = []

    def conts(self, c):
        """Container and iterator classes of the binding."""
        t = c.get('clst')
        r = self.p.records.get(t) if t else None
        return bool(r) and '/adapters/' in r['loc'] and ('terator' in r['n'] or r['n'].endswith('Array') or r['n'].endswith('Object'))

    def is_value(self, c):
        t = c.get('clst')
        r = self.p.records.get(t) if t else None
        return bool(r) and '/adapters/' in r['loc'] and r['n'].endswith('Value') and not r['n'].endswith('FrozenValue')

    def on_cast(self, E, st, node, v):
        if node.get('ck') == 'FloatingToIntegral' and v == DBL and not intlike(self.k):
            self.casts.append((node.get('l'), st.path()))

    def hook(self, E, st, c, this, args, node):
        n, sq = c['n'], c['sq']
        if self.is_value(c) and (this is None or E.content(st, this) == T('V')) and n != c.get('cls'):
            return self.value_call(E, st, n, args, node)
        if n == 'parseDouble':
            return self.parsed(E, st, strv(E, st, args[0]), args[1], node, 'num')
        r = self.stream(E, st, c, n, this, args, node)
        if r is not None:
            return r
        if sq in ('std::isfinite', 'std::isnan', 'std::isinf', 'isfinite', 'isnan', 'isinf'):
            v = val(E, st, args[0])
            if v == DBL:
                return [(st, B(st.facts[T({'isfinite': 'finite', 'isnan': 'nan', 'isinf': 'isinf'}[n], v)]))]
        if n in ('modf', 'modfl', 'fmod', 'floor', 'trunc', 'ceil', 'round', 'rint', 'nearbyint') and args and val(E, st, args[0]) == DBL:
            st = st.copy()
            integral = self.k.get('integral')
            if n == 'modf':
                if args[1][0] == 'ptr':
                    E.storev(st, args[1][1], T('ipart', DBL), node)
            if n in ('modf', 'fmod'):
                if integral and self.k.get('finite'):
                    return [(st, F(0))]
                return [(st, self.distinct(st, T('frac', DBL), F(0)))]
            if integral:
                return [(st, DBL)]
            return [(st, self.distinct(st, T('ipart', DBL), DBL))]
        if self.conts(c):
            return self.container(E, st, c, n, this, args, node)
        return None

    def distinct(self, st, a, b):
        k, r = relkey(a, b, '<>u')
        st.facts[k] = r
        return a

    def container(self, E, st, c, n, this, args, node):
        if n == c.get('cls'):
            return [(st, ('list', ()))] if not args else [(st, val(E, st, args[0]))]
        if this is not None and n in ('begin', 'end', 'cbegin', 'cend', 'find', 'size', 'empty'):
            return coll_method(E, st, c, this, n, args, node, 'std::map' if c['cls'].endswith('Object') else 'std::vector')
        return None

    def parsed(self, E, st, s, out, node, how):
        if s[0] == 's':
            ok = False
        elif s == STRV:
            ok = bool(self.k.get(how))
        else:
            return None
        st = st.copy()
        if ok and out[0] == 'ptr':
            E.storev(st, out[1], T('num' if how == 'num' else 'intof', s), node)
        return [(st, B(ok))]

    # a text stream: src, what is left ('all', 'rest', 'none'), state
    def stream(self, E, st, c, n, this, args, node):
        cls = c.get('cls') or ''
        if n == cls and 'stringstream' in cls and args:
            return [(st, obj('istream', src=E.snap(st, strv(E, st, args[0])), left=S('all'), ok=TRUE))]
        free = this is None and n == 'operator>>' and len(args) == 2
        if free:
            this, args = args[0], args[1:]
        if this is None or this[0] != 'ptr':
            return None
        v = E.content(st, this)
        if v[0] != 'obj' or v[1] != 'istream':
            return None
        src, left, ok = getf(v, 'src'), getf(v, 'left')[1], getf(v, 'ok')
        k = self.k
        if src != STRV and src[0] != 's':
            return None
        st = st.copy()
        if left == 'all' and not (n == 'operator>>' and not free):
            # before a number was read: the whole text
            left = 'x+' if src == STRV or len(src[1]) > 1 else 'x' if src != S('') else ''
        take = lambda l: l if l[1:] == '+' else ''
        if n == 'operator>>' and args and args[0][0] == 'ptr' and not free:
            good = ok == TRUE and left == 'all' and src == STRV and bool(k.get('lead'))
            if good:
                left = k.get('rest') or ''
                E.storev(st, args[0][1], T('intof', src), node)
            else:
                ok, left = FALSE, left if left != 'all' else 'x+'
        elif free:
            if args[0][0] != 'ptr' or not (c.get('targs') or [''])[0].startswith('char') or 'basic_string' in str(c.get('ret', '')) + str(c.get('ptypes', '')):
                return None
            # extraction of a character skips blanks
            if left[:1] == ' ':
                left = ''
            if not (ok == TRUE and left):
                ok = FALSE
            else:
                left = take(left)
                E.storev(st, args[0][1], T('char', src), node)
        elif n == 'get' or n == 'peek' or n == 'eof':
            if n == 'eof':
                return [(st, B(left == ''))]
            if n == 'peek':
                return [(st, I(ord(left[0])) if left else I(-1))]
            r = I(ord(left[0])) if ok == TRUE and left else I(-1)
            if not (ok == TRUE and left):
                ok = FALSE
            else:
                left = take(left)
                if args and args[0][0] == 'ptr':
                    E.storev(st, args[0][1], T('char', src), node)
            if not args:
                E.storev(st, this[1], obj('istream', src=src, left=S(left), ok=ok), node)
                return [(st, r)]
        elif n == 'operator!' or n == 'fail':
            return [(st, B(ok == FALSE))]
        elif n in ('operator bool', 'good'):
            return [(st, B(ok == TRUE))]
        elif n in ('imbue', 'unsetf'):
            return [(st, this)]
        else:
            return None
        E.storev(st, this[1], obj('istream', src=src, left=S(left), ok=ok), node)
        return [(st, this)]

    def value_call(self, E, st, n, args, node):
        return kind_call(self, E, st, self.k, n, args, node)


def kind_call(chk, E, st, k, n, args, node, sub=lambda v: v):
    """The contract of a binding's value class (and of the adapter tests)."""
    if n[:2] == 'is' and n[2:] in TYPES + ('Number',):
        return [(st, B(is_(k, n[2:])))]
    if n in ('getArraySize', 'getObjectSize'):
        if k.typ != n[3:-4]:
            return [(st, FALSE)]
        st = st.copy()
        p = sub(k.payload)
        E.storev(st, args[0][1], I(len(p[1])) if p[0] == 'list' else T('size', p), node)
        return [(st, TRUE)]
    if n in ('getArrayOptional', 'getObjectOptional'):
        if k.typ != n[3:-8]:
            return [(st, obj('opt', has=FALSE))]
        return [(st, obj('opt', has=TRUE, val=sub(k.payload)))]
    if n[:3] == 'get' and n[3:] in TYPES and args:
        if k.typ != n[3:]:
            return [(st, FALSE)]
        st = st.copy()
        E.storev(st, args[0][1], sub(k.payload), node)
        return [(st, TRUE)]
    if n == 'freeze':
        return [(st, T('frozen', T('V')))]
    if n == 'hasStrictTypes':
        return [(st, T('strict-types'))]
    return None


def layers(prog):
    """(adapter name, class type, {method: [function]})"""
    out = []
    for t, fs in prog.by_cls.items():
        r = prog.records.get(t)
        if not r or not fs:
            continue
        base = r['n'] == 'BasicAdapter'
        own = r['n'].endswith('Adapter') and '/adapters/' in r['loc'] and any(f['n'] == 'maybeInteger' and f.get('body') is not None for f in fs)
        if not base and not own:
            continue
        d = {}
        for f in fs:
            if f.get('body') is not None:
                d.setdefault(f['n'], []).append(f)
        name = t.split('<')[1].split(',')[0].split('::')[-1] if base else r['n']
        out.append((name, r['n'], t, d))
    return sorted(out)


def this_of(prog, name, own, kind):
    """An abstract adapter of the given kind."""
    fields = [f['n'] for f in prog.records[name]['fields']]
    return fields


def run(prog, layer, f, kind, args=(), chk=None, prep=None):
    name, cls, t, d = layer
    chk = chk or Layer(prog, kind, f)
    E = Engine(prog, chk)
    E.floats = True
    E.unroll = True
    st = State()
    this = ptr(('sym', T('this')))
    v = T('V') if cls == 'BasicAdapter' else kind.payload
    st.store[('sym', T('this'))] = obj(cls, m_value=v)
    kind.init(st)
    if prep:
        prep(st)
    outs, thrown = E.run(f, st, this, list(args))
    return E, chk, outs, thrown


def outcome(E, outs, root):
    """[(state, returned, value of the out-parameter)]"""
    res = []
    for s, v in outs:
        o = E.load(s, root) if root else None
        if v[0] == 'ptr':
            v = E.content(s, v)
        res.append((s, E.snap(s, v), E.snap(s, o) if o is not None else None))
    return res


class Clause:
    def __init__(self, res, layer):
        self.res, self.layer = res, layer
        self.n = 0

    def bad(self, f, kind, clause, text, st):
        if st is not None and st.taint:
            self.res.undec('%s::%s on %s: %s' % (self.layer[0], f['n'], kind.name, text))
            return
        who = '%s::%s' % (self.layer[1], f['n'])
        self.res.violation('%s: %s' % (who, clause), f['loc'], '%s in %s, value is %s: %s' % (who, self.layer[0], kind.name, text), st.path() if st is not None else [])


def is_bool(v):
    return v in (TRUE, FALSE)


def decide(E, s, v):
    """Settle a lazy boolean under the facts of s: [(state, bool or None)]"""
    if is_bool(v):
        return [(s, v == TRUE)]
    if v[0] in ('top', 'undef'):
        return [(s, None)]
    try:
        return list(E.truth(s, v))
    except AnalysisError:
        return [(s, None)]


def conversions(res, tier):
    from .. import ir
    prog = ir.load()
    ls = layers(prog)
    res.need(len(ls), 'adapter classes')
    for layer in ls:
        name, cls, t, d = layer
        cl = Clause(res, layer)
        kinds = KINDS if cls == 'BasicAdapter' else [k for k in KINDS if k.typ == 'String']
        for m in sorted(d):
            fs = d[m]
            for f in fs:
                for k in kinds:
                    one(cl, prog, layer, f, k)
        res.unit('%s (%s): %d outcomes of conversion functions over %d kinds of value' % (name, cls, cl.n, len(kinds)), cl.n)


def one(cl, prog, layer, f, k):
    m = f['n']
    x = m[2:] if m[:2] in ('is', 'as') else m[5:] if m[:5] == 'maybe' else m[3:] if m[:3] == 'get' else None
    if x not in TYPES + ('Number', 'ArraySize', 'ObjectSize'):
        return
    args = []
    root = None
    if f['params']:
        root = (('sym', T('out')), ())
        args = [('ptr', root)]
    try:
        E, chk, outs, thrown = run(prog, layer, f, k, args)
    except AnalysisError as e:
        cl.res.undec('%s::%s on %s: %s' % (layer[0], m, k.name, e))
        return
    for l, tr in chk.casts:
        s = State()
        cl.bad(f, k, 'cast', 'a double outside the range of int64_t is cast to an integer', s)
    outs = outcome(E, outs, root)
    cl.n += 1
    # expectation
    if m[:2] == 'is':
        return verdicts(cl, E, f, k, outs, thrown, is_(k, x), 'test')
    if m[:5] == 'maybe':
        if maybe(k, x) is None:
            return
        return verdicts(cl, E, f, k, outs, thrown, maybe(k, x), 'test')
    if x in ('ArraySize', 'ObjectSize'):
        ok = is_(k, x[:-4])
        want = (I(len(k.payload[1])) if k.payload[0] == 'list' else T('size', k.payload),) if ok else None
    elif m[:2] == 'as':
        ok = convertible(k, x)
        if free(k, x):
            if not claims(prog, layer, x, k):
                return
        want = converted(k, x) if ok else None
    else:
        ok = is_(k, x)
        want = converted(k, x) if ok else None
    if root is None:
        if ok:
            for s, e in thrown:
                cl.bad(f, k, 'success', 'an exception is thrown although the conversion is possible', s)
        else:
            for s, v, o in outs:
                cl.bad(f, k, 'failure', 'a value (%s) is returned although the conversion is impossible' % show(v)[:60], s)
        vals = [(s, v) for s, v, o in outs] if ok else []
    else:
        verdicts(cl, E, f, k, outs, thrown, ok, 'success' if ok else 'failure')
        vals = [(s, o) for s, v, o in outs if v != FALSE] if ok else []
    for s, v in vals:
        value(cl, E, f, k, x, s, v, want)


def claims(prog, layer, x, k):
    """Does the layer's own maybeX possibly hold for kind k?"""
    for f in layer[3].get('maybe' + x, ()):
        try:
            E, chk, outs, thrown = run(prog, layer, f, k)
        except AnalysisError:
            return False
        for s, v in outs:
            if any(b for _, b in decide(E, s, v)):
                return True
    return False


def value(cl, E, f, k, x, s, v, want):
    if v is not None and v[0] == 'obj' and v[1] and v[1].endswith(('Array', 'Object')) and v == obj(v[1]):
        v = ('list', ())
    if v is not None and v[0] == 't' and v[1] == 'new' and len(v) == 3:
        v = ('list', ())
    if v is not None and v[0] == 'obj' and v[1] == 'opt':
        v = getf(v, 'val')
    if x in ('Array', 'Object') and want is None:
        want = (('list', ()),)
    if v is None or v[0] in ('top',):
        cl.res.undec('%s on %s: value not determined' % (f['n'], k.name))
        return
    if want is not None:
        if v in want or (v[0] == 'list' and ('list', ()) in want and not v[1]):
            return
        cl.bad(f, k, 'value', 'the result is %s, not %s' % (show(v)[:80], ' or '.join(show(w) for w in want)), s)
        return
    if k.payload is not None and mentions(v, lambda t: t == k.payload):
        return
    cl.bad(f, k, 'value', 'the result %s does not depend on the value' % show(v)[:80], s)


def verdicts(cl, E, f, k, outs, thrown, want, clause):
    for s, e in thrown:
        cl.bad(f, k, clause, 'an exception is thrown', s)
    for s, v, o in outs:
        for s2, b in decide(E, s, v):
            if b is None:
                cl.res.undec('%s::%s on %s: result not determined' % (cl.layer[0], f['n'], k.name))
            elif b != want:
                cl.bad(f, k, clause, 'the result is %s, not %s' % (str(b).lower(), str(want).lower()), s2)


# --------------------------------------------------------------- deep equality
OTHER = T('OTHER')


def other(v):
    """The corresponding payload of the second value."""
    if v[0] == 't':
        if v[1] in ('INT', 'DBL', 'STR', 'arr', 'objv') and len(v) == 2:
            return v + ('b',)
        return tuple(other(x) if isinstance(x, tuple) else x for x in v)
    if v[0] == 'list':
        return ('list', tuple(other(x) for x in v[1]))
    return v


def containers(n):
    """Array and object kinds with n elements, as first and as second value."""
    a = tuple(T('el', 'a', I(i)) for i in range(n))
    b = tuple(T('el', 'b', I(i)) for i in range(n))
    m = tuple(obj('pair', first=T('key', I(i)), second=T('el', 'b', I(i))) for i in range(n))
    ob = T('members')
    fl = {'n': n} if n else {}
    name = 'of %d elements' % n
    return [(Kind('an array ' + name, 'Array', ('list', a), **fl), Kind('an array ' + name, 'Array', ('list', b), **fl)),
            (Kind('an object ' + name.replace('elements', 'members'), 'Object', ob if n else ('list', ()), [(T('size', ob), I(n), '=')] if n else [], **fl),
             Kind('an object ' + name.replace('elements', 'members'), 'Object', ('list', m), **fl))]


class Equal(Layer):
    def __init__(self, prog, kind, kind2, root, strict, cl):
        Layer.__init__(self, prog, kind, root)
        self.k2, self.strict, self.cl = kind2, strict, cl

    def hook(self, E, st, c, this, args, node):
        n = c['n']
        if n == 'equalTo' and E.frames:
            return self.nested(E, st, this, args, node)
        if this is not None and this[0] == 'ptr' and E.content(st, this) == OTHER and c.get('cls') == 'Adapter':
            return self.other_call(E, st, n, args, node)
        cls = c.get('cls')
        r = self.p.records.get(c.get('clst')) if c.get('clst') else None
        if r and '/adapters/' in r['loc'] and n == cls and r['n'].endswith(('Adapter', 'Value')) and len(args) == 1:
            return [(st, E.snap(st, val(E, st, args[0])))]
        return Layer.hook(self, E, st, c, this, args, node)

    def nested(self, E, st, this, args, node):
        a = E.snap(st, E.content(st, this))
        b = E.snap(st, E.content(st, args[0]))
        s = val(E, st, args[1]) if len(args) > 1 else UNDEF
        st = st.copy()
        st.mon[('cmp', a, b, s)] = True
        return [(st, T('eqv', *sorted((a, b), key=repr)))]

    def other_call(self, E, st, n, args, node):
        k = self.k2
        if n[:2] == 'is' and n[2:] in TYPES + ('Number',):
            return [(st, B(is_(k, n[2:])))]
        if n[:5] == 'maybe':
            m = maybe(k, n[5:])
            return [(st, B(m) if m is not None else T('other-maybe', n[5:]))]
        if n in ('getArraySize', 'getObjectSize'):
            ok, want = k.typ == n[3:-4], (I(len(k.payload[1])),) if k.typ == n[3:-4] else None
        elif n[:2] == 'as' or n[:3] == 'get':
            x = n[2:] if n[:2] == 'as' else n[3:]
            if x not in TYPES + ('Number',):
                return None
            ok = convertible(k, x) if n[:2] == 'as' else is_(k, x)
            want = converted(k, x, other) if ok else None
            if ok and want is None:
                want = (T('text of', other(k.payload)),)
        elif n in ('applyToArray', 'applyToObject'):
            x = n[7:]
            if not maybe(k, x):
                return [(st, FALSE)]
            if k.typ != x:
                return [(st, TRUE)]
            return self.apply(E, st, k.payload[1], x, args[0], node)
        else:
            return None
        if args:
            st = st.copy()
            if ok and args[0][0] == 'ptr':
                E.storev(st, args[0][1], want[0], node)
            return [(st, B(ok))]
        if not ok:
            E.throw(st, S('std::runtime_error'), node)
            return []
        return [(st, want[0])]

    def apply(self, E, st, elems, x, fn, node):
        v = E.content(st, fn) if fn[0] == 'ptr' else fn
        if v[0] == 'obj':
            # the callback keeps its state between calls
            st = st.copy()
            root = ('sym', T('callback'))
            st.store[root] = v
            fn = ptr(root)
        cur, out = [st], []
        for e in elems:
            nxt = []
            for s in cur:
                vals = [ptr(('sym', getf(e, 'first'))), ptr(('sym', getf(e, 'second')))] if x == 'Object' else [ptr(('sym', e))]
                for s2, v in E.call_value(s, fn, vals, node):
                    for s3, t in E.truth(s2, E.content(s2, v) if v[0] == 'ptr' else v):
                        (nxt.append(s3) if t else out.append((s3, FALSE)))
            cur = nxt
        return out + [(s, TRUE) for s in cur]


def relation(E, s, a, b, flt):
    k, r = E.rel_set(s, a, b, flt)
    return True if r == '=' else False if '=' not in r else None


def expected(E, s, k1, k2, strict):
    """Are the two values equal, as far as the facts of s tell? None: not established."""
    t1, t2 = k1.typ, k2.typ
    num = ('Integer', 'Double')
    if t1 in num and t2 in num:
        a, b = k1.payload, other(k2.payload)
        if t1 == t2 == 'Integer':
            return relation(E, s, a, b, False)
        x = T('dbl', a) if t1 == 'Integer' else a
        y = T('dbl', b) if t2 == 'Integer' else b
        r = relation(E, s, x, y, True)
        if r is None and t1 != t2:
            d, i = (a, b) if t1 == 'Double' else (b, a)
            kd = k1 if t1 == 'Double' else k2
            if not intlike(kd):
                return False
            for z in (T('trunc', d), T('ipart', d)):
                r = relation(E, s, z, i, False)
                if r is not None:
                    return r
        return r
    if t1 != t2:
        return False
    if t1 == 'Null':
        return True
    if t1 == 'Bool':
        return k1.payload == k2.payload
    if t1 == 'String':
        a, b = k1.payload, other(k2.payload)
        if a[0] == 's' and b[0] == 's':
            return a == b
        f = s.facts.get(T('eq', *sorted((a, b), key=repr)))
        if f is None and (a[0] == 's' or b[0] == 's'):
            return False
        return f
    n1, n2 = len(k1.payload[1]) if k1.payload[0] == 'list' else k1.get('n'), len(k2.payload[1])
    if n1 != n2:
        return False
    res = True
    for i in range(n1):
        b = T('el', 'b', I(i))
        if t1 == 'Array':
            a = k1.payload[1][i]
        else:
            key = T('key', I(i))
            h = s.facts.get(T('has', k1.payload, key))
            if h is False:
                return False
            a = T('.', 'second', T('elem', k1.payload, T('find', key)))
            if h is None:
                res = None
        f = s.facts.get(T('eqv', *sorted((a, b), key=repr)))
        if f is False:
            return False
        if f is None:
            res = None
    return res


def exact(k1, k2):
    """Pairs whose lenient comparison is the strict one."""
    t = k1.typ
    if t != k2.typ:
        return t in ('Integer', 'Double') and k2.typ in ('Integer', 'Double')
    if t == 'String':
        return not any(k.get('num') or k.payload[0] == 's' for k in (k1, k2))
    return True


def equality(res, tier):
    from .. import ir
    prog = ir.load()
    ls = layers(prog)
    res.need(len(ls), 'adapter classes')
    deep = tier == 'thorough'
    conts = [p for n in range(0, 4 if deep else 3) for p in containers(n)]
    firsts = [k for k in KINDS if k.typ not in ('Array', 'Object')] + [a for a, _ in conts]
    seconds = [k for k in KINDS if k.typ not in ('Array', 'Object')] + [b for _, b in conts]
    done = 0
    for layer in ls:
        name, cls, t, d = layer
        if cls == 'BasicAdapter':
            done += 1
            if done > 1 and not deep:
                continue
        cl = Clause(res, layer)
        for f in d.get('equalTo', ()):
            for k1 in firsts:
                if cls != 'BasicAdapter' and k1.typ != 'String':
                    continue
                for k2 in seconds:
                    for strict in (True, False):
                        equal_one(cl, prog, layer, f, k1, k2, strict)
        res.unit('%s (%s)::equalTo: %d pairs of kinds, strict and lenient' % (name, cls, cl.n), cl.n)


def equal_one(cl, prog, layer, f, k1, k2, strict):
    chk = Equal(prog, k1, k2, f, strict, cl)
    mode = 'strict' if strict else 'lenient'
    pair = Kind('%s compared with %s, %s types' % (k1.name, k2.name, mode), k1.typ)
    try:
        E, chk, outs, thrown = run(prog, layer, f, k1, [ptr(('sym', OTHER)), B(strict)], chk, lambda st: k2.init(st, other))
    except AnalysisError as e:
        cl.res.undec('%s::equalTo, %s: %s' % (layer[0], pair.name, e))
        return
    cl.n += 1
    for s, e in thrown:
        cl.bad(f, pair, 'exception', 'an exception is thrown', s)
    for s, v in outs:
        for key in s.mon:
            if key[0] == 'cmp' and key[3] != B(strict):
                cl.bad(f, pair, 'strictness', 'nested values are compared with strictness %s' % show(key[3]), s)
        for s2, b in decide(E, s, E.content(s, v) if v[0] == 'ptr' else v):
            if b is None:
                cl.res.undec('%s::equalTo, %s: result not determined' % (layer[0], pair.name))
                continue
            want = expected(E, s2, k1, k2, strict)
            if strict or exact(k1, k2):
                if want != b:
                    cl.bad(f, pair, 'verdict', 'the values are %s but the result is %s' % (
                        {True: 'equal', False: 'different', None: 'not completely compared'}[want], str(b).lower()), s2)
            elif want is True and not b:
                cl.bad(f, pair, 'verdict', 'the values are equal but the result is false', s2)


# ----------------------------------------------------------------- traversal
class Visit(Equal):
    def hook(self, E, st, c, this, args, node):
        if c['sq'] == '<function-value>' or c['n'] == 'operator()' and this is not None and E.content(st, this) == T('callback'):
            vs = tuple(E.snap(st, E.content(st, a) if a[0] == 'ptr' else a) for a in args)
            st = st.copy()
            i = st.mon.get('calls', 0)
            st.mon['calls'] = i + 1
            st.mon[('call', i)] = vs
            return [(st, T('accepts', I(i)))]
        return Equal.hook(self, E, st, c, this, args, node)


def traversal(res, tier):
    from .. import ir
    prog = ir.load()
    for layer in layers(prog):
        name, cls, t, d = layer
        cl = Clause(res, layer)
        kinds = [k for k in KINDS if k.typ not in ('Array', 'Object')]
        for n in range(0, 3):
            for (a, b), c in zip(containers(n), ('Array', 'Object')):
                kinds.append(a if c == 'Array' else Kind(a.name, 'Object', b.payload, **a.flags))
        for x in ('Array', 'Object'):
            for f in d.get('applyTo' + x, ()):
                for k in kinds:
                    if cls == 'BasicAdapter' or k.typ == 'String':
                        visit_one(cl, prog, layer, f, k, x)
        res.unit('%s (%s): %d traversals' % (name, cls, cl.n), cl.n)


def visit_one(cl, prog, layer, f, k, x):
    chk = Visit(prog, k, k, f, True, cl)
    try:
        E, chk, outs, thrown = run(prog, layer, f, k, [T('callback')], chk)
    except AnalysisError as e:
        cl.res.undec('%s::%s on %s: %s' % (layer[0], f['n'], k.name, e))
        return
    cl.n += 1
    for s, e in thrown:
        cl.bad(f, k, 'exception', 'an exception is thrown', s)
    elems = k.payload[1] if k.typ == x else ()
    for s, v in outs:
        for s2, b in decide(E, s, v):
            if b is None:
                cl.res.undec('%s::%s on %s: result not determined' % (layer[0], f['n'], k.name))
                continue
            want = True
            if k.typ != x:
                m = maybe(k, x)
                want = b if m is None else m
            calls = s2.mon.get('calls', 0)
            ok = True
            for i in range(calls):
                e = elems[i] if i < len(elems) else None
                args = s2.mon[('call', i)]
                if e is None or (args != (e,) if x == 'Array' else args != (getf(e, 'first'), getf(e, 'second'))):
                    ok = False
                a = s2.facts.get(T('accepts', I(i)))
                if a is False:
                    want = False
                    if i + 1 < calls:
                        cl.bad(f, k, 'early exit', 'the traversal continues after the callback returned false', s2)
            if not ok:
                cl.bad(f, k, 'argument', 'the callback receives %s' % ', '.join(show(a) for i in range(calls) for a in s2.mon[('call', i)])[:150], s2)
            if want and b and calls != len(elems):
                cl.bad(f, k, 'coverage', 'the callback is called for %d of %d elements' % (calls, len(elems)), s2)
            elif want != b:
                cl.bad(f, k, 'verdict', 'the result is %s, not %s' % (str(b).lower(), str(want).lower()), s2)
