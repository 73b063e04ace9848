"""Arrays, objects, their iterators and frozen values of every binding: a
container holding n elements (n = 0..2, thorough 3) is traversed symbolically;
positions, sizes, lookups and the element an iterator denotes are compared
with the container the library holds."""
import re
from .. import ir
from ..ir import AnalysisError
from ..engine import *
from ..models import getf, setf, strv, val
from .bindings import tag, J, AV, OV, SV, TABLES, LK
from .kinds import Clause, Kind, decide

NAME = T('name')
LIB = ('JsonArray', 'x')


def key(i):
    return T('key', I(i))


def el(i):
    return T('el', I(i))


def arr(n):
    return ('list', tuple(el(i) for i in range(n)))


def member(i):
    return obj('pair', first=key(i), second=el(i), name=key(i), value=el(i))


def objv(n):
    return ('list', tuple(member(i) for i in range(n)))


def eqt(a, b):
    return T('eq', *sorted((a, b), key=repr))


class Cont(Check):
    inline_depth = 12

    def __init__(self, prog, v):
        self.p = prog
        self.v = v            # the library container
        self.bad = []

    def lib(self, E, st, x):
        """The library container x denotes."""
        v = E.content(st, x) if x[0] == 'ptr' else x
        return v if v == self.v else None

    def ref(self, c, v):
        return ptr(('sym', v)) if c.get('ret', '').rstrip().endswith('&') else v

    def chars(self, E, st, x):
        v = val(E, st, x)
        return v[2] if v[0] == 't' and v[1] == 'chars' else v if v[0] == 's' else None

    def hook(self, E, st, c, this, args, node):
        n, sq = c['n'], c['sq']
        own = sq.startswith('valijson::')
        if own and n == 'equalTo' and this is not None:
            st = st.copy()
            st.mon['equalTo'] = (E.snap(st, E.content(st, this)), E.snap(st, E.content(st, args[0]) if args[0] != ptr(('sym', T('other'))) else T('other')), val(E, st, args[1]))
            return [(st, T('equal'))]
        if own and n == 'copy' and len(args) == 3:
            st = st.copy()
            E.storev(st, args[1][1], E.content(st, args[0]), node)
            return [(st, TRUE)]
        if own and n == 'PropertyTreeValue' and len(args) == 1:
            return [(st, obj('PropertyTreeValue', m_value=args[0]))]
        if own:
            return None
        if this is not None:
            t = E.content(st, this) if this[0] == 'ptr' else this
            if n == 'operator->' and t[0] == 't' and t[1] == '&':
                return [(st, ptr(('sym', t[2])))]
            if n == 'operator->' and t[0] == 'ptr' and c.get('cls') == 'proxy':
                return [(st, t)]
            v = self.lib(E, st, this)
            if v is not None and v[0] == 'list':
                if n in ('begin', 'cbegin', 'constBegin', 'Begin', 'MemberBegin', 'ordered_begin'):
                    return [(st, ('iter', v, I(0)))]
                if n in ('end', 'cend', 'constEnd', 'End', 'MemberEnd', 'not_found'):
                    return [(st, ('iter', v, 'end'))]
                if n in ('size', 'Size', 'MemberCount', 'count', 'length'):
                    return [(st, I(len(v[1])))]
                if n in ('array_items', 'object_items', 'toArray', 'toObject', 'toList', 'toMap', 'get', 'as_array', 'as_object', 'get_array', 'get_object', 'extract', 'operator->', 'operator*'):
                    w = tag(c) if n in ('get', 'extract') else n
                    isobj = bool(v[1]) and v[1][0][0] == 'obj' and not self.cls.startswith('PropertyTree')
                    if v[1] and ('rray' in w or 'List' in w) and isobj or ('bject' in w or 'Map' in w) and v[1] and not isobj:
                        return [(st, ptr(('sym', ('list', ()))))]
                    return [(st, ptr(('sym', v)))]
                if n in ('empty', 'isEmpty'):
                    return [(st, B(not v[1]))]
                if n in ('find', 'FindMember', 'constFind', 'isMember', 'contains') and args:
                    k = self.text(E, st, args[0])
                    out, cur = [], [st]
                    for i in range(len(v[1])):
                        nxt = []
                        for s in cur:
                            for s2, b in E.truth(s, eqt(k, key(i))):
                                if b:
                                    out.append((s2, ('iter', v, I(i)) if n not in ('isMember', 'contains') else TRUE))
                                else:
                                    nxt.append(s2)
                        cur = nxt
                    return out + [(s, ('iter', v, 'end') if n not in ('isMember', 'contains') else FALSE) for s in cur]
                if n in ('is_array', 'is_object', 'isArray', 'isObject', 'IsArray', 'IsObject', 'IsSequence', 'IsMap'):
                    return [(st, B(('rray' in n or 'Seq' in n) == (not v[1] or v[1][0][0] != 'obj')))]
            if t[0] == 'iter':
                e = E.content(st, E.elem_ptr(st, t)) if t[2] != 'end' else T('past the end')
                if n in ('key', 'name') and e[0] == 'obj':
                    return [(st, self.ref(c, getf(e, 'first')))]
                if n == 'value' and e[0] == 'obj':
                    return [(st, ptr(('sym', getf(e, 'second'))))]
                if n == 'operator*' and e[0] == 'obj' and self.cls.startswith('JsonCpp'):
                    return [(st, ptr(('sym', getf(e, 'second'))))]
            if t[0] == 'obj' and t[1] == 'pair' and n in ('operator->', 'operator*'):
                return [(st, this)]
            if t[0] == 'obj' and t[1] == 'pair' and n in ('key', 'key_c_str'):
                return [(st, self.ref(c, getf(t, 'first')))]
            if t[0] == 'obj' and t[1] == 'pair' and n == 'value':
                return [(st, ptr(('sym', getf(t, 'second'))))]
            if t[0] == 't' and t[1] in ('key', 'el') and n.startswith('operator ') and not args:
                return [(st, t)]
            if t[0] == 't' and t[1] in ('key', 'name'):
                if n in ('asString', 'toStdString', 'as', 'get', 'str', 'Scalar', 'operator basic_string', 'to_string'):
                    return [(st, t)]
                if n in ('GetString', 'data', 'c_str', 'asCString'):
                    return [(st, T('chars', t))]
                if n in ('GetStringLength', 'size', 'length'):
                    return [(st, T('size', t))]
        r = self.strings(E, st, c, this, args, node)
        if r is not None:
            return r
        if sq == 'YAML::Clone' and args:
            return [(st, E.content(st, args[0]) if args[0][0] == 'ptr' else args[0])]
        return None

    def text(self, E, st, x):
        v = E.content(st, x) if x[0] == 'ptr' else x
        c = self.chars(E, st, x)
        return T('cut', c) if c is not None and c[0] == 't' else v

    def strings(self, E, st, c, this, args, node):
        n, sq = c['n'], c['sq']
        last = c['sq'].split('::')[-1]
        isnew = last == sq.split('::')[-2] if '::' in sq else False
        if (isnew or last in ('StringRef',)) and args and 'basic_string::' not in sq and (len(args) == 1 or last == 'StringRef' or E.content(st, args[0])[:2] == ('t', 'chars')):
            # a library string, view or value made from a name
            v = E.content(st, args[0]) if args[0][0] == 'ptr' else args[0]
            if v[0] == 't' and v[1] in ('name', 'key', 'cut'):
                return [(st, v)]
            if v[0] == 't' and v[1] == 'chars':
                return [(st, v[2] if len(args) > 1 and val(E, st, args[1]) == T('size', v[2]) else T('cut', v[2]))]
        if last in ('fromStdString',):
            return [(st, E.content(st, args[0]) if args[0][0] == 'ptr' else args[0])]
        ops = ([this] if this is not None else []) + list(args)
        if n in ('operator==', 'operator!=') and len(ops) == 2:
            a, b = (E.content(st, x) if x[0] == 'ptr' else x for x in ops)
            if all(x[0] == 't' and x[1] in ('key', 'name', 'cut') for x in (a, b)):
                t = eqt(a, b)
                return [(st, t if n == 'operator==' else E.neg(t))]
        if last in ('strcmp', 'strncmp', 'memcmp') and len(args) >= 2:
            a, b = self.chars(E, st, args[0]), self.chars(E, st, args[1])
            if a is not None and b is not None:
                k = val(E, st, args[2]) if len(args) > 2 else None
                if last == 'memcmp' and k is not None and k in (T('size', a), T('size', b)):
                    t = eqt(a, b)
                else:
                    t = T('equal up to a null character', *sorted((a, b), key=repr))
                out = []
                for s, y in E.truth(st, t):
                    out.extend([(s, I(0))] if y else [(s, I(1)), (s.copy(), I(-1))])
                return out
        if n == 'compare' and this is not None and len(args) == 1:
            a, b = (E.content(st, x) if x[0] == 'ptr' else x for x in ops)
            if all(x[0] == 't' and x[1] in ('key', 'name', 'cut') for x in (a, b)):
                return [(s, x) for s, y in E.truth(st, eqt(a, b)) for x in ((I(0),) if y else (I(1), I(-1)))]
        if sq.startswith('std::basic_string::') and n in ('basic_string', 'assign', 'operator=') and args:
            a = self.chars(E, st, args[0])
            if a is not None and a[0] == 't':
                k = val(E, st, args[1]) if len(args) > 1 else None
                r = a if k == T('size', a) else T('cut', a)
                if n == 'basic_string':
                    return [(st, r)]
                if this is not None and this[0] == 'ptr':
                    st = st.copy()
                    E.storev(st, this[1], r, node)
                    return [(st, this)]
        return None


def parts(v):
    """All values inside v."""
    yield v
    if v[0] == 'obj':
        if v[2] is not None:
            yield from parts(v[2])
        for _, x in v[3]:
            if isinstance(x, tuple):
                for y in parts(x):
                    yield y


def inner(E, st, v, depth=0):
    """v with references replaced by what they denote."""
    if v is None or depth > 8:
        return v
    if v[0] == 'ptr' and v[1] is not None:
        return inner(E, st, E.snap(st, E.content(st, v)), depth + 1)
    if v[0] == 't' and v[1] == '&':
        return inner(E, st, v[2], depth + 1)
    if v[0] == 'obj':
        return ('obj', v[1], inner(E, st, v[2], depth + 1), tuple((k, inner(E, st, x, depth + 1) if isinstance(x, tuple) else x) for k, x in v[3]))
    return v


def position(E, st, v):
    v = inner(E, st, v)
    out = [x for x in parts(v) if x[0] == 'iter']
    return out[0] if len(out) == 1 else None


def canon(v, n):
    """position as a number"""
    if v is None:
        return None
    p = v[2]
    return n if p == 'end' else p[1] if p[0] == 'i' else None


class Unit:
    def __init__(self, res, prog, name, t, fs):
        self.res, self.prog, self.name, self.t, self.fs, self.n = res, prog, name, t, fs, 0
        r = prog.records[t]
        self.fields = [f['n'] for f in r.get('fields', [])]

    def method(self, n, arity=0):
        return [f for f in self.fs if f['n'] == n and len(f['params']) == arity]

    def bad(self, f, clause, text, st=None):
        if st is not None and st.taint:
            self.res.undec('%s::%s: %s' % (self.name, f['n'], text))
            return
        self.res.violation('%s::%s: %s' % (self.name, f['n'], clause), f['loc'], '%s::%s %s' % (self.name, f['n'], text), st.path() if st is not None else ())

    def undec(self, f, text):
        self.res.undec('%s::%s: %s' % (self.name, f['n'], text))

    def run(self, f, field, args=(), prep=None, lib=None):
        chk = Cont(self.prog, lib)
        chk.cls = self.name
        E = Engine(self.prog, chk)
        E.unroll = True
        st = State()
        this = ('sym', T('this'))
        if field is not None:
            st.store[this] = obj(self.name, **{k: field if k == self.field() else T(k) for k in self.fields})
        if prep:
            prep(st)
        try:
            outs, thrown = E.run(f, st, ptr(this), list(args))
        except AnalysisError as e:
            self.undec(f, str(e))
            return E, [], []
        self.n += 1
        return E, outs, thrown

    def field(self):
        for k in self.fields:
            if 'alloc' not in k:
                return k


def units(prog, pat):
    for t, fs in sorted(prog.by_cls.items()):
        r = prog.records.get(t)
        if r and '/adapters/' in r['loc'] and re.search(pat, r['n']) and not r['n'].startswith('StdString'):
            if r.get('fields'):
                yield r['n'], t, [f for f in fs if f.get('body') is not None]


def containers(res, tier):
    prog = ir.load()
    done = 0
    top = 4 if tier == 'thorough' else 3
    for name, t, fs in units(prog, r'(Array|Object)$'):
        u = Unit(res, prog, name, t, fs)
        is_obj = name.endswith('Object')
        for n in range(top):
            v = objv(n) if is_obj else arr(n)
            for m, want in (('begin', 0), ('end', n)):
                for f in u.method(m):
                    E, outs, thrown = u.run(f, v, lib=v)
                    for s, e in thrown:
                        u.bad(f, 'exception', 'throws', s)
                    for s, r in outs:
                        p = position(E, s, r)
                        if p is None or p[1] != v:
                            u.undec(f, 'result %s' % show(inner(E, s, r))[:100])
                        elif canon(p, n) != want:
                            u.bad(f, 'position', 'yields position %s in a container of %d elements, not %d' % (canon(p, n), n, want), s)
            for f in u.method('size'):
                E, outs, thrown = u.run(f, v, lib=v)
                for s, e in thrown:
                    u.bad(f, 'exception', 'throws', s)
                for s, r in outs:
                    r = E.content(s, r) if r[0] == 'ptr' else r
                    if r[0] != 'i':
                        u.undec(f, 'result %s' % show(r)[:100])
                    elif r != I(n):
                        u.bad(f, 'size', 'yields %s for a container of %d elements' % (show(r), n), s)
            for f in u.method('find', 1):
                def prep(st):
                    for i in range(n):
                        for j in range(i):
                            st.facts[eqt(key(i), key(j))] = False
                E, outs, thrown = u.run(f, v, [ptr(('sym', NAME))], prep, lib=v)
                for s, e in thrown:
                    u.bad(f, 'exception', 'throws', s)
                for s, r in outs:
                    p = canon(position(E, s, r), n)
                    if p is None:
                        u.undec(f, 'result %s' % show(inner(E, s, r))[:100])
                        continue
                    known = [s.facts.get(eqt(NAME, key(i))) for i in range(n)]
                    for i in range(n):
                        if known[i] is None and '=' not in E.rel_set(s, T('size', NAME), T('size', key(i)), False, True)[1]:
                            known[i] = False
                    if p < n and known[p] is not True:
                        u.bad(f, 'wrong member', 'yields a member whose complete name was not found equal to the requested one', s)
                    if p == n and any(k is not False for k in known):
                        u.bad(f, 'absent', 'reports a member as absent although its name was not found different from the requested one', s)
        res.unit('%s: begin, end, size%s over 0 to %d elements (%d runs)' % (name, ', find' if is_obj else '', top - 1, u.n), u.n)
        done += 1
    res.need(done, 'array and object classes of bindings')
    iterators(res, tier, prog)
    frozen(res, tier, prog)
    copies(res, tier, prog)
    trees(res, tier, prog)


def iterators(res, tier, prog):
    for name, t, fs in units(prog, r'Iterator$'):
        u = Unit(res, prog, name, t, fs)
        is_obj = 'Object' in name
        n = 4
        v = objv(n) if is_obj or name.startswith('PropertyTree') else arr(n)
        it = lambda p: ('iter', v, 'end' if p == 'end' else I(p))
        fld = u.field()
        two = ('sym', T('other'))
        for f in u.fs:
            m, ps = f['n'], f['params']
            if m == 'operator*' and not ps:
                for p in range(n):
                    E, outs, thrown = u.run(f, it(p), lib=v)
                    for s, e in thrown:
                        u.bad(f, 'exception', 'throws', s)
                    for s, r in outs:
                        r = inner(E, s, r)
                        ps_ = list(parts(r))
                        els = {x for x in ps_ if x[0] == 't' and x[1] == 'el'}
                        if els and els != {el(p)}:
                            u.bad(f, 'element', 'at position %d denotes %s' % (p, ', '.join(map(show, els))), s)
                        elif not els:
                            u.undec(f, 'result %s' % show(r)[:120])
                        if is_obj:
                            k = getf(r, 'first') if r[0] == 'obj' else None
                            if k is not None and k[0] == 't' and (k[1] in ('cut',) or k[1] == 'key' and k != key(p)):
                                u.bad(f, 'name', 'at position %d names the member %s' % (p, show(k)), s)
                            elif k != key(p):
                                u.undec(f, 'name %s' % (show(k)[:80] if k else None))
            elif m in ('operator==', 'operator!=') and len(ps) == 1:
                for a in (0, 1, 2):
                    for b in (0, 1, 2, 'end'):
                        E, outs, thrown = u.run(f, it(a), [ptr(two)], lambda st: st.store.__setitem__(two, obj(name, **{fld: it(b)})), lib=v)
                        for s, r in outs:
                            for s2, x in decide(E, s, r):
                                if x is None:
                                    u.undec(f, 'result %s' % show(r)[:80])
                                elif x != ((a == b) == (m == 'operator==')):
                                    u.bad(f, 'comparison', 'is %s for the positions %s and %s' % (str(x).lower(), a, b), s2)
            elif m in ('operator++', 'operator--', 'advance', 'difference'):
                d = 1 if m == 'operator++' else -1
                steps = [None] if m != 'advance' else ([0, 1, 2] if 'Yaml' in name else [-2, -1, 0, 1, 2])
                if m == 'difference':
                    continue
                post = m != 'advance' and len(ps) == 1
                if post and m == 'operator--':
                    post = None         # declared with a dummy parameter but used either way
                for k in steps:
                    E, outs, thrown = u.run(f, it(2), [I(k)] if m == 'advance' else [I(0)] * len(ps), lib=v)
                    want = 2 + (k if m == 'advance' else d)
                    for s, r in outs:
                        p = canon(position(E, s, E.snap(s, E.content(s, ptr(('sym', T('this')))))), n)
                        if p is None:
                            u.undec(f, 'position after it')
                        elif p != want:
                            u.bad(f, 'step', 'moves from position 2 to %s, not %s' % (p, want), s)
                        if m != 'advance':
                            q = canon(position(E, s, r), n)
                            if q is None:
                                u.undec(f, 'result')
                            elif post is not None and q != (2 if post else want):
                                u.bad(f, 'result', 'yields position %s, not %s' % (q, 2 if post else want), s)
        res.unit('%s: %d runs' % (name, u.n), u.n)


def frozen(res, tier, prog):
    for name, t, fs in units(prog, r'FrozenValue$'):
        u = Unit(res, prog, name, t, fs)
        other = ptr(('sym', T('other')))
        for f in u.fs:
            if f['n'] == 'equalTo':
                for strict in (TRUE, FALSE):
                    E, outs, thrown = u.run(f, J, [other, strict])
                    for s, e in thrown:
                        u.bad(f, 'exception', 'throws', s)
                    for s, r in outs:
                        c = s.mon.get('equalTo')
                        if c is None:
                            u.bad(f, 'comparison', 'does not compare the stored value', s)
                            continue
                        if c[2] != strict:
                            u.bad(f, 'strictness', 'compares with strictness %s instead of %s' % (show(c[2]), show(strict)), s)
                        a, b = inner(E, s, c[0]), inner(E, s, c[1])
                        if J not in list(parts(a)) and J not in list(parts(b)):
                            u.undec(f, 'compared value %s' % show(a)[:80])
                        elif T('other') not in (a, b) and T('other') not in list(parts(b)) + list(parts(a)):
                            u.undec(f, 'compared value %s' % show(b)[:80])
                        for s2, x in E.truth(s, r) if r[0] != 'ptr' else ():
                            pass
                        if r != T('equal'):
                            for s2, x in decide(E, s, r):
                                y = s2.facts.get(T('equal'))
                                if x is None or y is None:
                                    u.bad(f, 'result', 'ignores the comparison', s2) if x is not None else u.undec(f, 'result')
                                elif x != y:
                                    u.bad(f, 'result', 'is %s where the comparison is %s' % (x, y), s2)
            elif f['n'] == 'clone':
                E, outs, thrown = u.run(f, J)
                for s, r in outs:
                    x = inner(E, s, r)
                    if r[0] == 'ptr' and r[1] is None:
                        u.bad(f, 'copy', 'yields a null pointer', s)
                    elif not any(p == J for p in parts(x)):
                        u.undec(f, 'result %s' % show(x)[:120])
        res.unit('%s: %d runs' % (name, u.n), u.n)


# ------------------------------------------------------------ deep copies
class Copy(Cont):
    def __init__(self, prog, k, fn):
        Cont.__init__(self, prog, k.payload if k.typ in ('Array', 'Object') else None)
        self.k, self.fn, self.cls = k, fn, 'GenericRapidJson'

    def hook(self, E, st, c, this, args, node):
        n = c['n']
        if c['sq'].startswith('valijson::'):
            return Cont.hook(self, E, st, c, this, args, node)
        if this is not None:
            t = E.content(st, this) if this[0] == 'ptr' else this
            if t == J:
                for d in (self.k.preds, self.k.gets):
                    if n in d:
                        v = d[n]
                        return [(st, v)]
            if n[:3] == 'Set' or n in ('PushBack', 'AddMember') or n == 'operator=' and this[0] == 'ptr' and this[1][0] == ('sym', T('dest')):
                cur = t
                vals = [E.snap(st, E.content(st, a) if a[0] == 'ptr' else a) for a in args]
                st = st.copy()
                if n == 'SetObject' or n == 'SetArray':
                    new = T(n[3:])
                elif n == 'SetNull':
                    new = T('Null')
                elif n == 'SetString':
                    a = vals[0]
                    if a[0] == 't' and a[1] == 'chars':
                        a = a[2] if len(vals) > 1 and vals[1] == T('size', a[2]) else T('cut', a[2])
                    new = T('String', a)
                elif n in ('PushBack', 'AddMember') and cur[0] == 't':
                    new = cur + (tuple(vals[:2]) if n == 'AddMember' else vals[0],)
                else:
                    new = T(n[3:], *vals[:1])
                if this[0] == 'ptr':
                    E.storev(st, this[1], new, node)
                return [(st, this)]
            if n == 'GetType':
                return [(st, I(self.k.code))]
        return Cont.hook(self, E, st, c, this, args, node)


def copies(res, tier, prog):
    """A frozen RapidJSON value is a deep copy."""
    from .bindings import RAPID
    codes = {'null': 0, 'string': 5}
    for name, t, fs in units(prog, r'^GenericRapidJsonFrozenValue$'):
        u = Unit(res, prog, name, t, fs)
        for f in u.fs:
            if f['n'] != 'copy' or len(f['params']) != 3:
                continue
            cases = []
            for k in RAPID:
                if k.typ in ('Null', 'String', 'Integer', 'Large', 'Double'):
                    want = {'Null': T('Null'), 'String': T('String', SV)}.get(k.typ)
                    cases.append((k, codes.get(k.name, 6), want, k.payload))
            import copy as cp
            for b in (False, True):
                k = cp.copy([k for k in RAPID if k.name == 'bool'][0])
                k.preds = dict(k.preds, IsTrue=B(b), IsFalse=B(not b))
                k.gets = {'GetBool': B(b)}
                cases.append((k, 2 if b else 1, T('Bool', B(b)), B(b)))
            for n in range(0, 3):
                a = cp.copy([k for k in RAPID if k.name == 'array'][0])
                a.payload = arr(n)
                a.gets = {}
                cases.append((a, 4, T('Array', *[el(i) for i in range(n)]), None))
                o = cp.copy([k for k in RAPID if k.name == 'object'][0])
                o.payload = objv(n)
                o.gets = {}
                cases.append((o, 3, T('Object', *[(key(i), el(i)) for i in range(n)]), None))
            for k, code, want, payload in cases:
                k = cp.copy(k)
                k.code = code
                chk = Copy(prog, k, f)
                E = Engine(prog, chk)
                E.unroll = True
                st = State()
                dest = ('sym', T('dest'))
                st.store[dest] = UNDEF
                src = k.payload if k.typ in ('Array', 'Object') else J
                if k.typ in ('Array', 'Object'):
                    # type tests on the list itself
                    chk.hook = lambda E, st, c, this, args, node, chk=chk, k=k, src=src: (
                        [(st, I(k.code))] if c['n'] == 'GetType' and this is not None and E.content(st, this) == src else
                        [(st, k.preds[c['n']])] if c['n'] in k.preds and this is not None and E.content(st, this) == src else Copy.hook(chk, E, st, c, this, args, node))
                k.init(st)
                try:
                    outs, thrown = E.run(f, st, None, [ptr(('sym', src)), ptr(dest), ptr(('sym', T('allocator')))])
                except AnalysisError as e:
                    u.undec(f, str(e))
                    continue
                u.n += 1
                for s, e in thrown:
                    u.bad(f, 'exception', 'throws for a value of kind ' + k.name, s)
                for s, r in outs:
                    for s2, x in decide(E, s, r):
                        if x is False:
                            u.bad(f, 'result', 'reports failure for a value of kind ' + k.name, s2)
                    d = E.snap(s, E.load(s, (dest, ())))
                    if d == want:
                        continue
                    if want is None and d[0] == 't' and len(d) == 3 and d[2] == payload and (k.typ == 'Double') == (d[1] in ('Double', 'Float')):
                        if narrow(d[1], k.name):
                            u.bad(f, 'copy', 'stores a value of kind %s as %s' % (k.name, d[1]), s)
                        continue
                    if want is None and d[0] == 't' and len(d) == 3 and k.typ == 'Large' and d[1] == 'Uint64':
                        continue
                    if d == UNDEF or d[0] == 't' and d[1] in ('Null', 'Bool', 'String', 'Array', 'Object', 'Int', 'Uint', 'Int64', 'Uint64', 'Double', 'Float'):
                        u.bad(f, 'copy', 'makes %s of a value of kind %s' % (show(d)[:100], k.name), s)
                    else:
                        u.undec(f, 'copy of %s: %s' % (k.name, show(d)[:80]))
        res.unit('%s::copy: %d kinds of value' % (name, u.n), u.n)


def narrow(setter, kind):
    ok = {'Int': ('int',), 'Uint': ('uint',), 'Int64': ('int', 'int64', 'uint', 'uint64'), 'Uint64': ('uint', 'uint64', 'big'), 'Double': ('double',)}
    return kind not in ok.get(setter, ())


# --------------------------------------------------------- property trees
class Tree(Check):
    inline_depth = 12

    def __init__(self, prog, data, kids):
        self.p, self.data, self.kids = prog, data, kids

    def hook(self, E, st, c, this, args, node):
        n = c['n']
        if c['sq'].startswith('valijson::') or this is None:
            return None
        t = E.content(st, this) if this[0] == 'ptr' else this
        if t == self.kids:
            if n == 'data':
                return [(st, ptr(('sym', T('data'))))]
            if n in ('empty',):
                return [(st, B(not self.kids[1]))]
            if n in ('begin', 'ordered_begin'):
                return [(st, ('iter', self.kids, I(0)))]
            if n in ('end', 'not_found'):
                return [(st, ('iter', self.kids, 'end'))]
            if n == 'size':
                return [(st, I(len(self.kids[1])))]
            if n in ('get_value', 'get_value_optional'):
                return [(st, T('data'))]
        if t == T('data') and n in ('empty', 'size', 'length'):
            return [(st, B(not self.data) if n == 'empty' else I(5 if self.data else 0))]
        if t[0] == 't' and t[1] in ('key', 'nokey') and n in ('empty', 'size', 'length'):
            return [(st, B(t[1] == 'nokey') if n == 'empty' else I(3 if t[1] == 'key' else 0))]
        return None


def trees(res, tier, prog):
    """A property tree is a string, an array (no child is named) or an object."""
    for name, t, fs in units(prog, r'^PropertyTreeValue$'):
        u = Unit(res, prog, name, t, fs)
        ctors = [f for f in u.fs if f['n'] == 'PropertyTreeValue' and len(f['params']) == 1 and 'PropertyTreeValue' not in f['params'][0]['t']]
        for f in ctors:
            for data in (False, True):
                for ks in ((), (0,), (1,), (0, 0), (0, 1), (1, 0), (1, 1)):
                    if data and ks:
                        continue
                    kids = ('list', tuple(obj('pair', first=key(i) if k else T('nokey', I(i)), second=el(i)) for i, k in enumerate(ks)))
                    chk = Tree(prog, data, kids)
                    E = Engine(prog, chk)
                    E.unroll = True
                    st = State()
                    this = ptr(('sym', T('this')))
                    st.store[this[1][0]] = obj(name, **{k: UNDEF for k in u.fields})
                    want = 'String' if data else 'Object' if 1 in ks else 'Array'
                    what = 'a tree with%s text and %d children%s' % ('' if data else 'out', len(ks), ' of which some are named' if 1 in ks else '')
                    try:
                        outs, thrown = E.run(f, st, this, [ptr(('sym', kids))])
                    except AnalysisError as e:
                        u.undec(f, str(e))
                        continue
                    for s, e in thrown:
                        u.bad(f, 'exception', 'throws for ' + what, s)
                    for s, _ in outs:
                        for g in u.fs:
                            m = g['n']
                            if m[:2] == 'is' and m[2:] in ('Array', 'Object', 'String', 'Bool', 'Null', 'Integer', 'Double', 'Number'):
                                E2 = Engine(prog, chk)
                                E2.unroll = True
                                try:
                                    os_, th = E2.run(g, s, this, [])
                                except AnalysisError as e:
                                    u.undec(g, str(e))
                                    continue
                                u.n += 1
                                for s2, r in os_:
                                    for s3, b in decide(E2, s2, r):
                                        if b is None:
                                            u.undec(g, 'result %s' % show(r)[:80])
                                        elif b != (m[2:] == want):
                                            u.bad(g, 'kind', 'is %s for %s' % (str(b).lower(), what), s3)
                            if m in ('getArrayOptional', 'getObjectOptional', 'getString', 'getArraySize', 'getObjectSize', 'getBool', 'getDouble', 'getInteger'):
                                x = m[3:].replace('Optional', '').replace('Size', '')
                                E2 = Engine(prog, chk)
                                E2.unroll = True
                                out = ('sym', T('out'))
                                try:
                                    os_, th = E2.run(g, s, this, [ptr(out)] if g['params'] else [])
                                except AnalysisError as e:
                                    u.undec(g, str(e))
                                    continue
                                u.n += 1
                                for s2, e in th:
                                    u.bad(g, 'exception', 'throws for ' + what, s2)
                                for s2, r in os_:
                                    if m.endswith('Optional'):
                                        r = getf(r, 'has') if r[0] == 'obj' else r
                                    for s3, b in decide(E2, s2, r):
                                        if b is None:
                                            u.undec(g, 'result %s' % show(r)[:80])
                                        elif b != (x == want):
                                            u.bad(g, 'result', 'is %s for %s' % (str(b).lower(), what), s3)
                                        elif b and g['params']:
                                            o = E2.snap(s3, E2.load(s3, (out, ())))
                                            good = T('data') if x == 'String' else I(len(ks))
                                            if o[0] == 'obj' and o[2] is not None and x == 'String':
                                                o = o[2]
                                            if o != good:
                                                (u.undec(g, 'yields %s' % show(o)[:80]) if o[0] != 'i' and o != UNDEF else u.bad(g, 'value', 'yields %s for %s' % (show(o)[:80], what), s3))
        res.unit('%s: %d outcomes over 10 shapes of tree' % (name, u.n), u.n)
