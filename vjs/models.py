"""Models of standard-library operations for the abstract interpreter.

Dispatch is on the qualified name of the callee and on the shape of the
abstract values involved, never on the text of the calling code.
Strings are kept as flattened concatenations so that differently written but
equal constructions have equal abstract values.
"""
from .engine import (NULL, UNDEF, TRUE, FALSE, I, B, S, T, ptr, obj, getf, setf)
from .ir import strip_targs

STRING = ('std::basic_string', 'std::basic_string_view')
SEQ = ('std::vector', 'std::deque', 'std::list', 'std::array', 'std::initializer_list')
ASSOC = ('std::map', 'std::set', 'std::unordered_map', 'std::unordered_set', 'std::multimap', 'std::multiset')
OPT = ('std::optional',)
UP = ('std::unique_ptr', 'std::shared_ptr')


def owner(c):
    t = c.get('clst')
    if not t:
        return ''
    return strip_targs(t).replace('std::__cxx11::', 'std::')


# ------------------------------------------------------------------- strings
def cat(a, b):
    """Concatenation in normal form."""
    parts = []
    for v in (a, b):
        parts.extend(v[2:] if v[0] == 't' and v[1] == 'cat' else (v,))
    out = []
    for p in parts:
        if p[0] == 'i' and 0 < p[1] < 256:
            p = S(chr(p[1]))
        if p == S(''):
            continue
        if p[0] in ('top', 'undef'):
            return ('top', 'string')
        if out and out[-1][0] == 's' and p[0] == 's':
            out[-1] = S(out[-1][1] + p[1])
        else:
            out.append(p)
    if not out:
        return S('')
    return out[0] if len(out) == 1 else ('t', 'cat') + tuple(out)


def str_size(v):
    if v[0] == 's':
        return I(len(v[1].encode('utf8', 'surrogatepass')))
    if v[0] == 'list':
        return I(len(v[1]))
    if v[0] == 't' and v[1] == 'new' and len(v) == 3:
        return I(0)
    if v[0] == 'top':
        return v
    return T('size', v)


def is_empty(E, s, v):
    n = str_size(v)
    if n[0] == 'i':
        return B(n[1] == 0)
    return E.compare(s, '==', n, I(0), False, True)


def str_eq(E, s, a, b):
    if a[0] in ('top', 'undef') or b[0] in ('top', 'undef'):
        return ('top', 'streq')
    if a == b:
        return TRUE
    if a[0] == 's' and b[0] == 's':
        return B(a[1] == b[1])
    if a == S(''):
        a, b = b, a
    if b == S(''):
        return is_empty(E, s, a)
    return T('eq', *sorted((a, b), key=repr))


def val(E, s, v):
    """Contents of a reference argument."""
    return E.content(s, v) if v[0] == 'ptr' else v


def indexed(s, coll, i):
    """The current character of a traversal by index is its element."""
    k = s.mon.get(('ixv', coll))
    return 'elem' if k is not None and k[1] == i else '[]'


def strv(E, s, v):
    v = val(E, s, v)
    if v[0] == 'ptr':
        v = E.snap(s, v)
    return v


def setthis(E, s, this, v, n):
    if this is not None and this[0] == 'ptr':
        E.storev(s, this[1], v, n)


# ---------------------------------------------------------------- collections
def as_coll(E, s, v):
    if v[0] == 'ptr':
        v = E.content(s, v)
    if v[0] == 'undef':
        return ('top', 'undef-collection')
    if v[0] == 'obj':
        return E.snap(s, v)
    return v


def is_alloc(t):
    return 'llocator' in t and not t.startswith('std::basic_string') and not t.startswith('const std::basic_string') \
        and not t.startswith('std::vector') and not t.startswith('const std::vector') and not t.startswith('std::map')


def ctor_model(E, s, c, vals, n):
    o = owner(c)
    if not o.startswith('std::'):
        return None
    ps = c.get('params', [])
    vs = [v for i, v in enumerate(vals) if not (i < len(ps) and is_alloc(ps[i].split('<')[0]) and 'std::basic_string' != ps[i][:17])]
    # drop allocator arguments
    vs = []
    for i, v in enumerate(vals):
        p = ps[i] if i < len(ps) else ''
        head = p.replace('const ', '').split('<')[0]
        if head.endswith('llocator') or p.endswith('allocator_type &') or 'CustomAllocator' == head.split('::')[-1]:
            continue
        vs.append(v)
    if o in STRING:
        if not vs:
            return [(s, S(''))]
        if len(vs) == 1:
            return [(s, strv(E, s, vs[0]))]
        p0 = ps[0]
        if len(vs) == 2:
            a, b = strv(E, s, vs[0]), val(E, s, vs[1])
            if p0.endswith('char *') or p0.endswith('char *const'):
                if b == str_size(a):
                    return [(s, a)]
                return [(s, T('prefix', a, b))]
            if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1] and a[2] == I(0) and b[2] == 'end':
                return [(s, a[1])]
        return [(s, T('substr', *[E.snap(s, val(E, s, v)) for v in vs]))]
    if o in OPT:
        if not vs:
            return [(s, obj('opt', has=FALSE))]
        p0 = strip_targs(ps[0]).replace('const ', '')
        v = val(E, s, vs[0])
        if 'nullopt' in p0:
            return [(s, obj('opt', has=FALSE))]
        if p0.startswith('std::optional'):
            return [(s, v)]
        return [(s, obj('opt', has=TRUE, val=v))]
    if o in UP:
        if not vs:
            return [(s, obj('uptr', p=NULL))]
        v = vs[0]
        if 'unique_ptr' in ps[0] or 'shared_ptr' in ps[0]:
            v = val(E, s, v)
            if vs[0][0] == 'ptr' and ps[0].endswith('&&'):
                s = s.copy()
                E.storev(s, vs[0][1], obj('uptr', p=NULL), n)
            return [(s, v)]
        if v[0] == 'ptr' and ps[0].endswith('&'):
            v = E.content(s, v)
        if 'nullptr_t' in ps[0]:
            v = NULL
        extra = {}
        if len(vs) > 1:
            extra['deleter'] = E.snap(s, val(E, s, vs[1]))
        return [(s, obj('uptr', p=v, **extra))]
    if o == 'std::pair':
        if len(vs) == 2:
            return [(s, obj('pair', first=val(E, s, vs[0]), second=val(E, s, vs[1])))]
        if len(vs) == 1:
            return [(s, val(E, s, vs[0]))]
        return None
    if o == 'std::function':
        if not vs or 'nullptr_t' in ps[0]:
            return [(s, NULL)]
        return [(s, val(E, s, vs[0]))]
    if o in SEQ + ASSOC:
        if not vs:
            return [(s, T('new', o))]
        v = val(E, s, vs[0])
        if v[0] == 'list' and len(vs) <= 2:
            return [(s, ('list', tuple(E.snap(s, val(E, s, x)) if x[0] == 'ptr' else x for x in v[1])))]
        if len(vs) == 2:
            w = val(E, s, vs[1])
            if v[0] == 'iter' and w[0] == 'iter' and v[1] == w[1] and v[2] == I(0) and w[2] == 'end':
                return [(s, T('copyof', v[1]))]
        if o == 'std::map' or o == 'std::set' or o.startswith('std::unordered'):
            if len(vs) == 1 and 'less' in ps[0]:
                return [(s, T('new', o))]
        return None
    if o.endswith('iterator') or '_iterator' in o:
        if len(vs) == 1:
            return [(s, val(E, s, vs[0]))]
    return None


def iter_shape(E, s, v):
    v = val(E, s, v)
    return v if v[0] == 'iter' else None


def op_model(E, s, n, c, op, vals):
    sq = c['sq'].replace('std::__cxx11::', 'std::')
    o = owner(c)
    if c.get('cls') == 'DerefProxy' and op == '->':
        inner = E.content(s, vals[0]) if vals[0][0] == 'ptr' else vals[0]
        if vals[0][0] == 'ptr' and inner[0] == 'obj' and getf(inner, 'm_ref') != UNDEF:
            return [(s, ('ptr', (vals[0][1][0], vals[0][1][1] + ('m_ref',))))]
        return [(s, inner if inner[0] == 'ptr' else vals[0])]
    it = iter_shape(E, s, vals[0]) if vals else None
    if it is not None:
        if op == '*' and len(vals) == 1:
            E.check_deref(s, it, n)
            return [(s, elemval(E, s, n, c, it))]
        if op == '->':
            E.check_deref(s, it, n)
            return [(s, E.elem_ptr(s, it))]
        if op in ('==', '!=') and len(vals) == 2:
            j = iter_shape(E, s, vals[1])
            if j is not None:
                r = ('itereq', it, j)
                return [(s, r if op == '==' else E.neg(r))]
            return [(s, ('top', 'itercmp'))]
        if op in ('++', '--') and vals[0][0] == 'ptr':
            s = s.copy()
            if op == '++':
                E.storev(s, vals[0][1], E.iter_next(s, it), n)
            else:
                E.storev(s, vals[0][1], ('iter', it[1], E.add(it[2], -1)) if it[2] != 'end' else ('iter', it[1], T('last')), n)
            return [(s, it if len(vals) == 2 else vals[0])]
        if op in ('+', '-') and len(vals) == 2:
            k = val(E, s, vals[1])
            if k[0] == 'i' and it[2] != 'end':
                return [(s, ('iter', it[1], E.add(it[2], k[1] if op == '+' else -k[1])))]
            if k[0] == 'iter':
                if k[1] == it[1] and E.lpos(it) is not None and E.lpos(k) is not None:
                    return [(s, I(E.lpos(it) - E.lpos(k)))]
                if k[1] == it[1] and k[2] == I(0) and it[2] != 'end':
                    return [(s, it[2])]
                return [(s, T('dist', it, k))]
            if it[2] == I(0) and op == '+':
                return [(s, ('iter', it[1], k))]
            return [(s, ('iter', it[1], T('pos', T(op, ('top', 'iter') if it[2] == 'end' else it[2], k))))]
        if op == '+=' and len(vals) == 2 and vals[0][0] == 'ptr':
            k = val(E, s, vals[1])
            s = s.copy()
            if it[2] == I(0):
                p = k
            elif k[0] == 'i' and it[2] != 'end':
                p = E.add(it[2], k[1])
            else:
                p = T('pos', T('+', it[2], k))
            E.storev(s, vals[0][1], ('iter', it[1], p), n)
            return [(s, vals[0])]
        if op == '=':
            s = s.copy()
            E.storev(s, vals[0][1], val(E, s, vals[1]), n)
            return [(s, vals[0])]
    if op == '=' and len(vals) == 2 and not c.get('root') and vals[0][0] == 'ptr':
        s = s.copy()
        ps = c.get('params', [''])
        v = vals[1]
        if o in STRING:
            v = strv(E, s, v)
        elif o in OPT:
            p0 = strip_targs(ps[0]).replace('const ', '')
            v = val(E, s, v)
            if 'nullopt' in p0:
                v = obj('opt', has=FALSE)
            elif not p0.startswith('std::optional'):
                v = obj('opt', has=TRUE, val=v)
        elif o in UP:
            src = v
            v = NULL if 'nullptr_t' in ps[0] else val(E, s, v)
            if v == NULL:
                v = obj('uptr', p=NULL)
            elif ps[0].endswith('&&') and src[0] == 'ptr':
                E.storev(s, src[1], obj('uptr', p=NULL), n)
        elif o.startswith('std::') or iter_shape(E, s, v) is not None:
            v = val(E, s, v)
        else:
            return None
        E.storev(s, vals[0][1], v, n)
        return [(s, vals[0])]
    if op == '=' and c.get('root') and len(vals) == 2 and vals[0][0] == 'ptr':
        f = E.p.functions.get(c['id'])
        if f is not None and f.get('defaulted') and f.get('body') is None:
            s = s.copy()
            E.storev(s, vals[0][1], val(E, s, vals[1]), n)
            return [(s, vals[0])]
        return None
    if o in OPT or (sq.startswith('std::optional')):
        if op == '*':
            return [(s, opt_ref(E, s, vals[0], n))]
        if op == '->':
            return [(s, opt_ref(E, s, vals[0], n))]
    if o in UP:
        p = getf(val(E, s, vals[0]), 'p')
        if op == '*' and p[0] != 'ptr':
            E.check_deref(s, p, n)
        if op == '->':
            return [(s, p)]
        if op == '*':
            return [(s, p if p[0] == 'ptr' else ptr(('deref', p)))]
    if sq == 'std::operator+' and len(vals) == 2:
        return [(s, cat(strv(E, s, vals[0]), strv(E, s, vals[1])))]
    if sq.startswith('std::basic_string::operator'):
        if op == '+=':
            s = s.copy()
            if vals[0][0] == 'ptr':
                E.storev(s, vals[0][1], cat(strv(E, s, vals[0]), strv(E, s, vals[1])), n)
            return [(s, vals[0])]
        if op == '[]':
            return [(s, ptr(('sym', T(indexed(s, strv(E, s, vals[0]), val(E, s, vals[1])), strv(E, s, vals[0]), val(E, s, vals[1])))))]
    if sq in ('std::operator==', 'std::operator!=') and len(vals) == 2:
        a, b = val(E, s, vals[0]), val(E, s, vals[1])
        if any('basic_string' in p for p in c.get('params', ())) and 'nullptr_t' not in str(c.get('params')):
            r = str_eq(E, s, a, b)
        elif 'nullptr_t' in str(c.get('params')) or a[0] == 'obj' and a[1] == 'uptr':
            x = getf(a, 'p') if a[0] == 'obj' and a[1] == 'uptr' else a
            y = getf(b, 'p') if b[0] == 'obj' and b[1] == 'uptr' else b
            if 'nullptr_t' in str(c['params'][1]):
                y = NULL
            if 'nullptr_t' in str(c['params'][0]):
                x = NULL
            r = E.compare(s, '==', x, y)
        elif a[0] in ('top', 'undef') or b[0] in ('top', 'undef'):
            r = ('top', 'eq')
        elif a == b:
            r = TRUE
        else:
            r = T('eq', *sorted((E.snap(s, a), E.snap(s, b)), key=repr))
        return [(s, r if op == '==' else E.neg(r))]
    if o == 'std::function' and op == '()':
        return E.call_value(s, val(E, s, vals[0]), vals[1:], n)
    if op == '()' and vals:
        v = val(E, s, vals[0])
        if v[0] in ('clo', 'bind', 'fn'):
            return E.call_value(s, v, vals[1:], n)
        return None
    if o in SEQ + ASSOC and op == '[]':
        coll = as_coll(E, s, vals[0])
        k = E.snap(s, val(E, s, vals[1]))
        if coll[0] == 'list' and k[0] == 'i' and 0 <= k[1] < len(coll[1]):
            return [(s, ptr(('sym', coll[1][k[1]])))]
        if o in SEQ:
            return [(s, ptr(('sym', T('elem', coll, k))))]
        return [(s, ptr(('sym', T('[]', coll, k))))]
    if sq in ('std::operator<<', 'std::basic_ostream::operator<<', 'std::operator>>', 'std::basic_istream::operator>>'):
        # streams: keep what was written
        s = s.copy()
        if op == '<<' and vals[0][0] == 'ptr':
            E.storev(s, vals[0][1], T('<<', E.snap(s, val(E, s, vals[0])), E.snap(s, val(E, s, vals[1]))) if len(repr(E.load(s, vals[0][1]))) < 2000 else T('stream'), n)
            return [(s, vals[0])]
        if op == '>>' and vals[1][0] == 'ptr':
            E.storev(s, vals[1][1], T('read', E.snap(s, val(E, s, vals[0]))), n)
            return [(s, vals[0])]
    return None


def elemval(E, s, n, c, it):
    p = E.elem_ptr(s, it)
    if c['ret'].endswith('&'):
        return p
    return E.load(s, p[1])


def opt_ref(E, s, v, n):
    x = val(E, s, v)
    E.check_deref(s, T('opt', x), n)
    if x[0] == 'obj' and v[0] == 'ptr':
        return ('ptr', (v[1][0], v[1][1] + ('val',)))
    w = getf(x, 'val') if x[0] == 'obj' else T('val', x)
    return w if w[0] == 'ptr' else ptr(('sym', w))


IDENT = {'std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof', 'std::__addressof', 'std::begin', 'std::end'}


def call_model(E, s, c, this, vals, n):
    sq = c['sq'].replace('std::__cxx11::', 'std::')
    o = owner(c)
    name = c['n']
    if sq in IDENT:
        if sq in ('std::begin', 'std::end'):
            return coll_method(E, s, c, vals[0], name, [], n, '')
        return [(s, vals[0])]
    if c.get('root'):
        if c.get('cls') == 'DerefProxy':
            return [(s, this)]
        return None
    if this is not None and o in STRING:
        return string_method(E, s, c, this, name, vals, n)
    if this is not None and o in OPT:
        v = val(E, s, this)
        if name in ('has_value', 'operator bool'):
            if v[0] == 'obj':
                h = getf(v, 'has')
                return [(s, h if h != UNDEF else ('top', 'opt'))]
            return [(s, v if v[0] == 'top' else T('has', v))]
        if name in ('value', 'operator*', 'operator->'):
            return [(s, opt_ref(E, s, this, n))]
        if name == 'value_or':
            return [(s, T('value_or', E.snap(s, v), E.snap(s, val(E, s, vals[0]))))]
        if name == 'reset':
            s = s.copy()
            setthis(E, s, this, obj('opt', has=FALSE), n)
            return [(s, UNDEF)]
        if name == 'emplace' and len(vals) == 1:
            s = s.copy()
            setthis(E, s, this, obj('opt', has=TRUE, val=val(E, s, vals[0])), n)
            return [(s, opt_ref(E, s, this, n))]
        if name == 'operator=':
            return op_model(E, s, n, c, '=', [this] + vals)
        return None
    if this is not None and o in UP or (this is not None and o.startswith('std::__uniq_ptr') or o.startswith('std::__shared_ptr')):
        v = val(E, s, this)
        p = getf(v, 'p')
        if name in ('get', 'operator->'):
            return [(s, p)]
        if name == 'operator bool':
            return [(s, E.neg(E.compare(s, '==', p, NULL)))]
        if name == 'release':
            s = s.copy()
            setthis(E, s, this, setf(v, 'p', NULL), n)
            h = getattr(E.check, 'on_release', None)
            if h:
                h(E, s, p, n)
            return [(s, p)]
        if name == 'reset':
            s = s.copy()
            np = vals[0] if vals else NULL
            h = getattr(E.check, 'on_reset', None)
            if h:
                h(E, s, v, n)
            setthis(E, s, this, setf(v, 'p', np), n)
            return [(s, UNDEF)]
        if name == 'swap':
            s = s.copy()
            w = val(E, s, vals[0])
            setthis(E, s, this, w, n)
            E.storev(s, vals[0][1], v, n)
            return [(s, UNDEF)]
        if name == 'operator=':
            return op_model(E, s, n, c, '=', [this] + vals)
        return None
    if this is not None and o == 'std::function':
        if name == 'operator bool':
            v = val(E, s, this)
            return [(s, B(v != NULL) if v[0] in ('null', 'clo', 'fn', 'bind', 'obj') else T('nonnull', v))]
        if name == 'operator()':
            return E.call_value(s, val(E, s, this), vals, n)
    if this is not None and (o in SEQ or o in ASSOC):
        return coll_method(E, s, c, this, name, vals, n, o)
    if this is not None and this[0] == 'iter' or (this is not None and val(E, s, this)[0] == 'iter'):
        op = name.replace('operator', '')
        r = op_model(E, s, n, c, op, [this] + vals)
        if r is not None:
            return r
    if sq == 'std::to_string':
        v = val(E, s, vals[0])
        if v[0] == 'i':
            return [(s, S(str(v[1])))]
        if v[0] in ('top', 'ge'):
            return [(s, ('top', 'to_string'))]
        return [(s, T('str', v))]
    if sq in ('std::make_optional',):
        return [(s, obj('opt', has=TRUE, val=val(E, s, vals[0])))]
    if sq in ('std::make_pair',):
        return [(s, obj('pair', first=val(E, s, vals[0]), second=val(E, s, vals[1])))]
    if sq in ('std::make_unique', 'std::make_shared'):
        t = strip_targs((c.get('targs') or ['?'])[0])
        return [(s, obj('uptr', p=T('mknew', t, *[E.snap(s, val(E, s, v)) for v in vals])))]
    if sq == 'std::bind':
        args = []
        for v in vals[1:]:
            w = val(E, s, v)
            if w[0] == 't' and w[1] == 'global' and 'placeholders::_' in str(w[2]):
                args.append(('ph', int(str(w[2]).split('_')[-1])))
            else:
                args.append(v if v[0] == 'ptr' and v[1][0][0] != 'tmp' else w)
        f = val(E, s, vals[0])
        return [(s, ('bind', f, tuple(args)))]
    if sq == 'std::swap' and len(vals) == 2 and vals[0][0] == 'ptr' and vals[1][0] == 'ptr':
        s = s.copy()
        a, b = val(E, s, vals[0]), val(E, s, vals[1])
        E.storev(s, vals[0][1], b, n)
        E.storev(s, vals[1][1], a, n)
        return [(s, UNDEF)]
    if sq in ('std::max', 'std::min') and len(vals) == 2:
        a, b = val(E, s, vals[0]), val(E, s, vals[1])
        pt = c['params'][0]
        out = []
        for s2, less in E.truth(s, E.compare(s, '<', a, b, 'double' in pt, 'unsigned' in pt)):
            pick = vals[1] if less == (sq == 'std::max') else vals[0]
            out.append((s2, pick if pick[0] == 'ptr' else ptr(('sym', pick))))
        return out
    if sq == 'std::distance' and len(vals) == 2:
        a, b = val(E, s, vals[0]), val(E, s, vals[1])
        if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1] and a[2] == I(0):
            return [(s, str_size(a[1]) if b[2] == 'end' else b[2])]
        return [(s, ('top', 'distance'))]
    if sq in ('std::next', 'std::prev', 'std::advance'):
        it = iter_shape(E, s, vals[0])
        k = val(E, s, vals[1]) if len(vals) > 1 else I(1)
        if it is not None:
            if sq == 'std::next':
                return op_model(E, s, n, c, '+', [it, k])
            if sq == 'std::prev':
                return op_model(E, s, n, c, '-', [it, k])
            return op_model(E, s, n, c, '+=', [vals[0], k])
    if sq in ('std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::find_if_not', 'std::for_each', 'std::find', 'std::count', 'std::count_if'):
        r = algorithm(E, s, c, sq, vals, n)
        if r is not None:
            return r
    if sq == 'strlen':
        return [(s, str_size(strv(E, s, vals[0])))]
    return None


def algorithm(E, s, c, sq, vals, n):
    a, b = iter_shape(E, s, vals[0]), iter_shape(E, s, vals[1])
    if a is None or b is None or a[1] != b[1] or b[2] != 'end':
        return None
    if sq == 'std::find':
        if a[2] != I(0):
            return None
        return [(s, ('iter', a[1], T('find', E.snap(s, val(E, s, vals[2])))))]
    if sq == 'std::count':
        if a[2] != I(0):
            return None
        x = E.snap(s, val(E, s, vals[2]))
        return [(s2, ('ge', 1) if t else I(0)) for s2, t in E.truth(s, T('has', a[1], x))]
    pred = val(E, s, vals[2])
    short = sq.split('::')[1]
    if short == 'count_if':
        return None

    def body(h, ep, it):
        res = []
        for s2, v in E.call_value(h, pred, [ep], n):
            if short == 'for_each':
                res.append((s2, None))
                continue
            for s3, t in E.truth(s2, E.boolish(s2, E.content(s2, v) if v[0] == 'ptr' else v)):
                stop = {'any_of': t, 'none_of': t, 'find_if': t, 'all_of': not t, 'find_if_not': not t}[short]
                res.append((s3, ('hit', it) if stop else None))
        return res
    out = []
    for s2, sig in E.iterate(s, n['nid'], a[1], a[2], body):
        if short == 'for_each':
            out.append((s2, pred))
        elif short in ('find_if', 'find_if_not'):
            out.append((s2, ('iter', a[1], 'end') if sig == 'end' else sig[1]))
        else:
            out.append((s2, B((sig != 'end') == (short == 'any_of'))))
    return out


def string_method(E, s, c, this, name, vals, n):
    v = strv(E, s, this)
    if name in ('c_str', 'data', 'operator basic_string_view'):
        return [(s, v)]
    if name in ('size', 'length'):
        return [(s, str_size(v))]
    if name == 'empty':
        return [(s, is_empty(E, s, v))]
    if name in ('append', 'push_back') and len(vals) == 1:
        s = s.copy()
        setthis(E, s, this, cat(v, strv(E, s, vals[0])), n)
        return [(s, this)]
    if name == 'clear':
        s = s.copy()
        setthis(E, s, this, S(''), n)
        return [(s, UNDEF)]
    if name in ('assign', 'operator=') and len(vals) == 1:
        s = s.copy()
        setthis(E, s, this, strv(E, s, vals[0]), n)
        return [(s, this)]
    if name == 'compare' and len(vals) == 1:
        return [(s, T('strcmp', v, strv(E, s, vals[0])))]
    if name in ('begin', 'cbegin'):
        return [(s, ('iter', v, I(0)))]
    if name in ('end', 'cend'):
        return [(s, ('iter', v, 'end'))]
    if name in ('reserve', 'shrink_to_fit'):
        return [(s, UNDEF)]
    if name in ('operator[]', 'at'):
        return [(s, ptr(('sym', T(indexed(s, v, val(E, s, vals[0])), v, val(E, s, vals[0])))))]
    if name == 'substr':
        args = [val(E, s, x) for x in vals]
        if args and args[0] == I(0) and len(args) == 1:
            return [(s, v)]
        return [(s, T('substr', v, *args))]
    return None


def coll_method(E, s, c, this, name, vals, n, o):
    coll = as_coll(E, s, this)
    ret_ref = c.get('ret', '').endswith('&')
    if name in ('begin', 'cbegin'):
        return [(s, ('iter', coll, I(0)))]
    if name in ('end', 'cend'):
        return [(s, ('iter', coll, 'end'))]
    if name == 'size':
        return [(s, str_size(coll))]
    if name == 'empty':
        return [(s, is_empty(E, s, coll))]
    if name in ('find', 'count', 'contains') and vals:
        k = E.snap(s, val(E, s, vals[0]))
        if name == 'find':
            return [(s, ('iter', coll, T('find', k)))]
        has = FALSE if E.known_empty(s, coll) else T('has', coll, k)
        if name == 'contains':
            return [(s, has)]
        out = []
        for s2, t in E.truth(s, has):
            out.append((s2, I(1 if t else 0)))
        return out
    if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push') and vals:
        s = s.copy()
        x = E.snap(s, val(E, s, vals[0]) if vals[0][0] == 'ptr' and c['params'] and c['params'][0].endswith('&') or True and vals[0][0] == 'ptr' else vals[0])
        setthis(E, s, this, push(coll, x), n)
        return [(s, ptr(('sym', x)) if ret_ref else UNDEF)]
    if name in ('insert', 'emplace') and len(vals) in (1, 2) and o in ASSOC:
        s = s.copy()
        if len(vals) == 1:
            v = val(E, s, vals[0])
            k = E.snap(s, getf(v, 'first')) if v[0] == 'obj' and v[1] == 'pair' else E.snap(s, v)
            x = E.snap(s, v)
        else:
            k = E.snap(s, val(E, s, vals[0]))
            x = obj('pair', first=k, second=E.snap(s, val(E, s, vals[1])))
        setthis(E, s, this, push(coll, x), n)
        return [(s, obj('pair', first=('iter', coll, T('find', k)), second=E.neg(T('has', coll, k)) if not E.known_empty(s, coll) else TRUE))]
    if name in ('back', 'front'):
        if coll[0] == 't' and coll[1] == 'push' and name == 'back':
            x = coll[3]
            return [(s, ptr(('sym', x)))]
        E.check_deref(s, ('iter', coll, I(0)), n)
        return [(s, ptr(('sym', T(name, coll))))]
    if name in ('pop_back', 'pop_front'):
        s = s.copy()
        if coll[0] == 't' and coll[1] == 'push' and name == 'pop_back':
            setthis(E, s, this, coll[2], n)
        else:
            setthis(E, s, this, T(name, coll), n)
        return [(s, UNDEF)]
    if name == 'clear':
        s = s.copy()
        setthis(E, s, this, T('new', o), n)
        return [(s, UNDEF)]
    if name in ('at', 'operator[]') and vals and o in ('std::map', 'std::unordered_map'):
        k = E.snap(s, val(E, s, vals[0]))
        has = FALSE if E.known_empty(s, coll) else T('has', coll, k)
        at = ptr(('sym', T('.', 'second', T('elem', coll, T('find', k)))))
        if name == 'at':
            out = []
            for s2, t in E.truth(s, has):
                if t is False:
                    E.throw(s2, ('exc', 'std::out_of_range', S('map::at')), n)
                else:
                    out.append((s2, at))
            return out
        if s.facts.get(has) is True:
            return [(s, at)]
    if name in ('at', 'operator[]') and vals:
        return [(s, ptr(('sym', T('elem' if o in SEQ else '[]', coll, E.snap(s, val(E, s, vals[0]))))))]
    if name in ('reserve', 'shrink_to_fit'):
        return [(s, UNDEF)]
    if name == 'operator=':
        s = s.copy()
        v = val(E, s, vals[0])
        setthis(E, s, this, v, n)
        return [(s, this)]
    return None


def push(coll, x):
    if coll[0] == 't' and coll[1] == 'push' and len(repr(coll)) > 1500:
        return ('top', 'collection')
    return T('push', coll, x)
