"""A disjunctive abstract interpreter over the exported program.

Abstract state = store (location -> abstract value tree), facts (atomic
predicates over symbolic terms that have been assumed on this path), and a
monitor (a finite typestate supplied by a check).  Loops are run to a fixpoint
over state identity with widening, callee bodies are interpreted in place,
library calls are modelled or opaque.  No program code is executed and no
solver is used: predicates are uninterpreted except for orderings.
"""
import re
import sys
from .ir import strip_targs, AnalysisError

sys.setrecursionlimit(20000)

NULL = ('null',)
UNDEF = ('undef',)
TRUE = ('b', True)
FALSE = ('b', False)


def I(n):
    return ('i', n)


def B(b):
    return ('b', bool(b))


def S(s):
    return ('s', s)


def T(op, *a):
    return ('t', op) + a


def isconst(v):
    return v[0] in ('i', 'b', 's', 'f')


def ptr(root, path=()):
    return ('ptr', (root, path))


def obj(cls, base=None, **kw):
    return ('obj', cls, base, tuple(sorted(kw.items())))


def getf(v, name):
    if v[0] == 'obj':
        for n, x in v[3]:
            if n == name:
                return x
        if v[2] is not None:
            return getf(v[2], name)
        return UNDEF
    return T('.', name, v)


def setf(v, name, x):
    if v[0] == 'obj':
        d = dict(v[3])
        d[name] = x
        return ('obj', v[1], v[2], tuple(sorted(d.items())))
    if v == UNDEF:
        return ('obj', None, None, ((name, x),))
    return ('obj', None, v, ((name, x),))


def mentions(v, pred):
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if pred(x):
                return True
            stack.extend(x)
    return False


def show(v, depth=0):
    if depth > 6:
        return '..'
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return '()'
    k = v[0]
    if k in ('i', 'b', 'f'):
        return str(v[1])
    if k == 's':
        return repr(v[1])
    if k == 'null':
        return 'nullptr'
    if k == 'ptr':
        (r, p) = v[1]
        return '&' + show(r, depth + 1) + ''.join('.' + str(x) for x in p)
    if k == 'obj':
        return '%s{%s}' % (v[1] or '', ', '.join('%s=%s' % (n, show(x, depth + 1)) for n, x in v[3]))
    if k == 't':
        if v[1] == '.':
            return show(v[3], depth + 1) + '.' + str(v[2])
        return '%s(%s)' % (v[1], ', '.join(show(x, depth + 1) for x in v[2:]))
    return '(' + ' '.join(show(x, depth + 1) for x in v) + ')'


class State:
    __slots__ = ('store', 'facts', 'mon', 'taint', 'trace')

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.mon = {}
        self.taint = frozenset()
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.mon = dict(self.mon)
        s.taint = self.taint
        s.trace = self.trace
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), frozenset(self.mon.items()), self.taint)

    def note(self, where, what):
        self.trace = (self.trace, (where, what))

    def path(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Frame:
    __slots__ = ('depth', 'this', 'fn', 'refs', 'ctl')

    def __init__(self, depth, this, fn):
        self.depth = depth
        self.this = this
        self.fn = fn
        self.refs = set()


NARROW = ('int', 'unsigned int', 'short', 'unsigned short', 'signed char', 'unsigned char', 'char')
UINT64 = ('unsigned long', 'unsigned long long', 'uint64_t', 'std::uint64_t')
INT64 = ('long', 'long long', 'int64_t', 'std::int64_t')
RANGE = {}
for _n, _b, _s in (('signed char', 8, 1), ('char', 8, 1), ('unsigned char', 8, 0), ('short', 16, 1), ('unsigned short', 16, 0), ('int', 32, 1), ('unsigned int', 32, 0)):
    RANGE[_n] = (-(1 << _b - 1), (1 << _b - 1) - 1) if _s else (0, (1 << _b) - 1)
for _n in ('uint8_t', 'uint16_t', 'uint32_t', 'int8_t', 'int16_t', 'int32_t'):
    _b = int(_n.strip('uint_'))
    RANGE[_n] = RANGE['std::' + _n] = (0, (1 << _b) - 1) if _n[0] == 'u' else (-(1 << _b - 1), (1 << _b - 1) - 1)
for _n in INT64:
    RANGE[_n] = (-(1 << 63), (1 << 63) - 1)
for _n in UINT64:
    RANGE[_n] = (0, (1 << 64) - 1)


def closed(n):
    """Does expression n refer to no local, parameter or object?"""
    if isinstance(n, dict):
        if n.get('k') == 'this' or n.get('k') == 'ref' and n.get('dk') not in ('enum', 'global', 'fn', 'function', 'static'):
            return False
        return all(closed(x) for x in n.values())
    if isinstance(n, list):
        return all(closed(x) for x in n)
    return True


class TooBig(AnalysisError):
    pass


class Check:
    """Per-property hooks. Subclassed by the rules."""
    inline_depth = 30

    def hook(self, E, st, c, this, args, node):
        """Return list of (state, value) to override a call, or None."""
        return None

    def assume(self, E, st, atom, val):
        """Called after a fact was added; return False when infeasible."""
        return True

    def elem(self, E, st, coll, pos):
        return [(st, None)]

    def elems_end(self, E, st, coll, pos):
        return True

    def iter_left(self, E, st, coll, pos, evs):
        pass

    def iter_done(self, E, st, coll, pos):
        pass

    def on_cast(self, E, st, node, v):
        pass

    def maythrow(self, E, st, c, node):
        return None

    def no_inline(self, c):
        return False

    def merge(self, E, st):
        return st

    def on_delete(self, E, st, v, node):
        pass

    def on_unwind(self, E, st, fr):
        pass

    def on_write(self, E, st, loc, v, node):
        pass


PURE_METHODS = {'c_str', 'data', 'str'}


class Engine:
    floats = False          # keep integer-to-floating conversions visible

    def __init__(self, prog, check, max_states=60000):
        self.p = prog
        self.check = check
        self.frames = []
        self.exc = [[]]
        self.cur_exc = []
        self.steps = 0
        self.max_steps = 3000000
        self.max_states = max_states
        self.fns = set()
        self.unmodelled = {}
        self.sites = 0
        self.dtor_classes = set()
        self.identity = getattr(check, 'identity', None)
        self.scope = getattr(check, 'on_scope_exit', None)
        self.loopc = None
        self.unroll = False         # loops are followed without widening (concrete bounds only)

    # ---------------------------------------------------------------- store
    def load(self, st, loc):
        root, path = loc
        v = st.store.get(root)
        if v is None:
            v = self.default(st, root)
        for f in path:
            v = getf(v, f)
        return v

    def default(self, st, root):
        k = root[0]
        if k == 'sym':
            return root[1]
        if k == 'deref':
            return T('*', root[1])
        if k == 'g':
            return self.global_value(st, root)
        if k == 'obj':
            return T(root[1])
        return UNDEF

    def global_value(self, st, root):
        v = self.p.vars.get('v%d' % root[1])
        if v and v.get('const') and v.get('init') is not None:
            ini = v['init']
            if 'cv' in ini:
                return self.cv(ini)
            if ini.get('k') == 'str':
                return S(ini['v'])
        return T('global', root[2], root[1])

    def storev(self, st, loc, v, node=None):
        root, path = loc
        self.check.on_write(self, st, loc, v, node)
        if not path:
            st.store[root] = v
            return
        cur = st.store.get(root)
        if cur is None:
            cur = self.default(st, root)
        st.store[root] = self._upd(cur, path, v)

    def _upd(self, cur, path, v):
        if not path:
            return v
        return setf(cur, path[0], self._upd(getf(cur, path[0]), path[1:], v))

    def content(self, st, v):
        """Value of an lvalue pointer, or the value itself."""
        if v[0] == 'ptr':
            return self.load(st, v[1])
        return v

    def snap(self, st, v, d=0):
        """Deep snapshot (no live pointers)."""
        if v[0] == 'ptr':
            if d > 4:
                return T('&...')
            c = self.load(st, v[1])
            return T('&', self.snap(st, c, d + 1))
        if v[0] == 'obj':
            if d > 6:
                return T('obj...')
            return ('obj', v[1], v[2], tuple((n, self.snap(st, x, d + 1)) for n, x in v[3]))
        if v[0] == 'clo':
            return ('clo', v[1], tuple((k, self.snap(st, x, d + 1)) for k, x in v[2]))
        return v

    def taint(self, st, why):
        st.taint = st.taint | {why}

    # ------------------------------------------------------------- branching
    def bounds(self, st, t):
        lo, hi = None, None      # (value, strict)
        for a, f in st.facts.items():
            if a[0] != 'rel':
                continue
            if a[1] == t and isconst(a[2]) and a[2][0] in 'if':
                c, rel = a[2][1], f
            elif a[2] == t and isconst(a[1]) and a[1][0] in 'if':
                c, rel = a[1][1], f.translate(str.maketrans('<>', '><'))
            else:
                continue
            yield c, rel

    def rel_set(self, st, a, b, flt=False, uns=False):
        """Possible orderings of a vs b given the facts; canonical key."""
        if isconst(a) and isconst(b) and a[0] in 'ibf' and b[0] in 'ibf':
            x, y = a[1], b[1]
            if x != x or y != y:
                return None, 'u'
            return None, '<' if x < y else '>' if x > y else '='
        if a == b and not flt:
            return None, '='
        # counters
        for x, y, flip in ((a, b, False), (b, a, True)):
            lo = self.lower(st, x)
            if lo is not None and y[0] == 'i':
                if y[1] < lo:
                    return None, '<' if flip else '>'
        swap = repr(a) > repr(b)
        if swap:
            a, b = b, a
        k = ('rel', a, b)
        s = st.facts.get(k)
        if s is None:
            s = '<=>' + ('u' if flt else '')
            if not flt:
                # unsigned / size lower bound
                for x, y, lt, gt in ((a, b, '<', '>'), (b, a, '>', '<')):
                    lo = self.lower(st, x)
                    if lo is None and uns:
                        lo = 0
                    if lo is not None and y[0] == 'i' and y[1] <= lo:
                        s = s.replace(lt, '')
            # combine with bounds against other constants
            for x, y, flip in ((a, b, False), (b, a, True)):
                if isconst(y) and y[0] in 'if':
                    poss = set(s)
                    for c, rel in self.bounds(st, x):
                        # x rel c ; want x ? y
                        al = set()
                        for r in rel:
                            if r == 'u':
                                al.add('u')
                            elif r == '=':
                                al.add('<' if c < y[1] else '>' if c > y[1] else '=')
                            elif r == '<':
                                if c <= y[1]:
                                    al.add('<')
                                else:
                                    al |= set('<=>')
                            elif r == '>':
                                if c >= y[1]:
                                    al.add('>')
                                else:
                                    al |= set('<=>')
                        if flip:
                            al = {{'<': '>', '>': '<'}.get(z, z) for z in al}
                        poss &= al
                    s = ''.join(z for z in '<=>u' if z in poss)
        if swap:
            return ('swap', k), s.translate(str.maketrans('<>', '><'))
        return ('id', k), s

    def lower(self, st, v):
        if v[0] == 'ge':
            return v[1]
        if v[0] == 't':
            if v[1] == 'idx':
                b = v[3]
                return b[1] if b[0] == 'i' else None
            if v[1] == 'size':
                return 0
            if v[1] == 'add' and v[3][0] == 'i':
                l = self.lower(st, v[2])
                return None if l is None else l + v[3][1]
        return None

    OPS = {'<': '<', '<=': '<=', '>': '>', '>=': '=>', '==': '=', '!=': '<>u'}

    def compare(self, st, op, a, b, flt=False, uns=False):
        """A boolean value for a op b (lazy)."""
        a, b = self.norm(a), self.norm(b)
        if b[0] == 't' and b[1] == 'strcmp':
            a, b = b, a
        if a[0] == 't' and a[1] == 'strcmp' and b == I(0) and op in ('==', '!='):
            from .models import str_eq
            r = str_eq(self, st, a[2], a[3])
            return r if op == '==' else self.neg(r)
        if a[0] in ('top',) or b[0] in ('top',):
            return ('top', 'cmp')
        if a[0] == 'b' and b[0] != 'b':
            a, b = b, a
        if b[0] == 'b' and op in ('==', '!='):
            r = a
            if a[0] == 'b':
                return B((a[1] == b[1]) == (op == '=='))
            if b[1] != (op == '=='):
                r = self.neg(a)
            return r
        # pointers
        if self.identity and op in ('==', '!='):
            r = self.identity(a, b)
            if r is not None:
                return B(r == (op == '=='))
        if a == NULL or b == NULL or (a[0] == 'ptr' or b[0] == 'ptr'):
            x, y = (a, b)
            if x == NULL:
                x, y = y, x
            if y == NULL:
                if x == NULL:
                    r = TRUE
                elif x[0] == 'ptr':
                    r = FALSE
                else:
                    r = self.neg(self.nonnull(x))
            elif x[0] == 'ptr' and y[0] == 'ptr':
                if x == y and x[1][0][0] == 'sym' and x[1][0][1][0] in 'si':
                    # two objects of equal value, or one: not distinguished
                    self.taint(st, 'identity of elements')
                r = B(x == y)
            else:
                r = T('eqp', *sorted((x, y), key=repr))
            return r if op == '==' else self.neg(r)
        # strings
        if (a[0] == 's' or b[0] == 's'):
            if op in ('==', '!='):
                if a[0] == 's' and b[0] == 's':
                    return B((a[1] == b[1]) == (op == '=='))
                r = T('eq', *sorted((a, b), key=repr))
                return r if op == '==' else self.neg(r)
        # iterators
        if a[0] == 'iter' and b[0] == 'iter':
            r = ('itereq', a, b)
            return r if op == '==' else self.neg(r)
        ops = self.OPS[op]
        k, s = self.rel_set(st, a, b, flt, uns)
        yes = [z for z in s if z in ops]
        no = [z for z in s if z not in ops]
        if not no:
            return TRUE
        if not yes:
            return FALSE
        if a[0] == 'ge' or b[0] == 'ge':
            return ('top', 'counter')
        return ('rel', ops, a, b, flt, uns)

    def nonnull(self, x):
        return T('nonnull', x)

    def norm(self, v):
        return v

    def neg(self, v):
        if v[0] == 'b':
            return B(not v[1])
        if v[0] == 'not':
            return v[1]
        return ('not', v)

    def truth(self, st, v):
        """Fork on a boolean value -> [(state, bool)]."""
        k = v[0]
        if k == 'not':
            return [(s, not b) for s, b in self.truth(st, v[1])]
        if k == 'b':
            return [(st, v[1])]
        if k == 'i' or k == 'f':
            return [(st, v[1] != 0)]
        if k == 'null':
            return [(st, False)]
        if k in ('ptr', 's', 'clo', 'fn'):
            return [(st, True)]
        if k == 'ge':
            if v[1] > 0:
                return [(st, True)]
            v = ('top', 'counter')
            k = 'top'
        if k == 'rel':
            _, ops, a, b, flt, uns = v
            key, s = self.rel_set(st, a, b, flt, uns)
            yes = ''.join(z for z in s if z in ops)
            no = ''.join(z for z in s if z not in ops)
            out = []
            for sub, val in ((yes, True), (no, False)):
                if not sub:
                    continue
                n = st.copy()
                if key is not None:
                    f = sub.translate(str.maketrans('<>', '><')) if key[0] == 'swap' else sub
                    n.facts[key[1]] = f
                    if not self.check.assume(self, n, key[1], f):
                        continue
                out.append((n, val))
            return out
        if k == 'itereq':
            return self.iter_truth(st, v[1], v[2])
        if k == 'top':
            out = []
            for val in (True, False):
                n = st.copy()
                self.taint(n, 'unmodelled:' + str(v[1]))
                out.append((n, val))
            return out
        if k == 'and' or k == 'or':
            out = []
            for s, b in self.truth(st, v[1]):
                if b == (k == 'or'):
                    out.append((s, b))
                else:
                    out.extend(self.truth(s, v[2]))
            return out
        if k == 'undef':
            n1 = st.copy()
            self.taint(n1, 'undef')
            n2 = n1.copy()
            return [(n1, True), (n2, False)]
        if k == 't':
            return self.atom(st, v)
        if k == 'obj':
            h = getf(v, 'has')
            if h != UNDEF:
                return self.truth(st, h)
            p = getf(v, 'p')
            if p != UNDEF:
                return self.truth(st, p)
        return self.truth(st, ('top', 'bool-of-' + k))

    def atom(self, st, a):
        if a in st.facts:
            return [(st, st.facts[a])]
        if a[1] == 'eq':
            # equality with distinct string constants is exclusive
            x, y = a[2], a[3]
            for p, q in ((x, y), (y, x)):
                if q[0] == 's':
                    for f, val in st.facts.items():
                        if val is True and f[0] == 't' and f[1] == 'eq' and p in f[2:]:
                            o = f[2] if f[3] == p else f[3]
                            if o[0] == 's' and o != q:
                                return [(st, False)]
        out = []
        for val in (True, False):
            n = st.copy()
            n.facts[a] = val
            if self.check.assume(self, n, a, val):
                out.append((n, val))
        return out

    def assume_true(self, st, v, want=True):
        return [s for s, b in self.truth(st, v) if b == want]

    # -------------------------------------------------------------- iterators
    def known_empty(self, st, coll):
        if coll[0] == 't' and coll[1] == 'new' and len(coll) == 3:
            return True
        if coll[0] == 'list':
            return not coll[1]
        if coll[0] in ('top', 'undef', 's', 'iter'):
            return False
        k, s = self.rel_set(st, T('size', coll), I(0), False, True)
        return s == '='

    def lpos(self, it):
        """The position of an iterator into an explicit list, if known."""
        if it[1][0] not in ('list', 's'):
            return None
        return len(it[1][1]) if it[2] == 'end' else it[2][1] if it[2][0] == 'i' else None

    def iter_truth(self, st, a, b):
        """it1 == it2"""
        if a == b:
            return [(st, True)]
        if a[1] != b[1]:
            n1, n2 = st.copy(), st.copy()
            for n in (n1, n2):
                self.taint(n, 'iterators of different collections')
            return [(n1, True), (n2, False)]
        p, q = self.lpos(a), self.lpos(b)
        if p is not None and q is not None:
            return [(st, p == q)]
        if a[2] == 'end':
            a, b = b, a
        if b[2] != 'end':
            return self.truth(st, T('eqiter', *sorted((a, b), key=repr)))
        coll, pos = a[1], a[2]
        if any(k[0] == 'pend' and k[1] == coll for k in st.mon):
            st = st.copy()
            self.flush_iter(st, lambda k: k[1] == coll)
        if pos[0] == 't' and pos[1] == 'find':
            key = pos[2]
            if self.known_empty(st, coll):
                return [(st, True)]
            r = T('has', coll, key)
            return [(s, not t) for s, t in self.truth(st, r)]
        if coll[0] == 'list':
            if pos[0] == 'i':
                return [(st, pos[1] >= len(coll[1]))]
        at = T('at', coll, pos)
        if at in st.facts:
            return [(st, False)]
        if pos != I(0) and not (pos[0] == 't' and pos[1] in ('find', 'last')) and pos[0] != 'top':
            k, rs = self.rel_set(st, pos, T('size', coll), False, True)
            if rs == '=':
                return [(st, True)]
            if rs == '<':
                n = st.copy()
                out = []
                for s2, kind in self.check.elem(self, n, coll, pos):
                    s2.facts[at] = kind if kind is not None else True
                    out.append((s2, False))
                return out
        out = []
        # end of the collection
        n = st.copy()
        ok = True
        if pos == I(0):
            ss = self.assume_true(n, self.compare(n, '==', T('size', coll), I(0), False, True))
            ok = bool(ss)
            if ss:
                n = ss[0]
        if ok and self.check.elems_end(self, n, coll, pos):
            out.append((n, True))
        if self.known_empty(st, coll):
            return out
        n = st.copy()
        ss = [n]
        if pos == I(0):
            ss = self.assume_true(n, self.compare(n, '!=', T('size', coll), I(0), False, True))
        for n in ss:
            for s2, kind in self.check.elem(self, n, coll, pos):
                s2.facts[at] = kind if kind is not None else True
                out.append((s2, False))
        return out

    def iter_next(self, st, it, n=1):
        """Advance iterator value by one; forget facts about the new element."""
        coll, pos = it[1], it[2]
        if pos == 'end':
            return ('iter', coll, 'end')
        np = self.add(pos, n)
        self.drop_elem(st, coll, np)
        if np == pos or not any(k[0] == 'it' for k in st.mon):
            self.check.iter_done(self, st, coll, pos)
            self.drop_elem(st, coll, pos)
        else:
            # the element stays at hand until the loop goes round, since it
            # may have been copied before the iterator was advanced
            st.mon[('pend', coll, pos)] = True
        return ('iter', coll, np)

    def index_next(self, st, loc, old):
        """An index variable moves on."""
        self.index_store(st, loc, old, None)

    def index_store(self, st, loc, old, new):
        """A variable that may be an index is stored to; new is None for the next position."""
        for k in [k for k in st.mon if k[0] in ('ixv', 'ixm') and st.mon[k][0] == loc]:
            if new is not None and new == old and new[0] != 'ge':
                continue
            nx = k[0] == 'ixv' and (new is None or new == self.add(old, 1) and new[0] != 'ge')
            if nx and st.mon[k][1] == old:
                del st.mon[k]
                self.iter_next(st, ('iter', k[1], old))
                st.mon[('ixm', k[1])] = (loc, None)
            else:
                # moved on other than from one element to the next
                st.mon[('cover', k[1])] = False

    def drop_elem(self, st, coll, pos):
        dead = (T('elem', coll, pos), T('at', coll, pos))
        for f in [f for f in st.facts if mentions(f, lambda x: x in dead)]:
            del st.facts[f]

    def flush_iter(self, st, sel):
        """Close the iterations whose iterator has moved on."""
        for k in [k for k in st.mon if k[0] == 'pend' and sel(k)]:
            del st.mon[k]
            self.check.iter_done(self, st, k[1], k[2])
            self.drop_elem(st, k[1], k[2])

    def elem_term(self, st, it):
        coll, pos = it[1], it[2]
        if coll[0] == 'list' and pos[0] == 'i' and pos[1] < len(coll[1]):
            return coll[1][pos[1]]
        if coll[0] == 's' and pos[0] == 'i' and 0 <= pos[1] <= len(coll[1]):
            o = ord(coll[1][pos[1]]) if pos[1] < len(coll[1]) else 0
            return I(o if o < 128 else o - 256 if o < 256 else o)
        if pos[0] == 't' and pos[1] == 'find':
            return obj('pair', T('elem', coll, pos), first=pos[2], second=T('.', 'second', T('elem', coll, pos)))
        return T('elem', coll, pos)

    def elem_ptr(self, st, it):
        v = self.elem_term(st, it)
        if v[0] == 'ptr':
            return v
        return ptr(('sym', v))

    def add(self, a, n):
        if a[0] == 'i':
            return I(a[1] + n)
        if a[0] == 'ge':
            return ('ge', max(0, a[1] + n)) if n >= 0 else ('top', 'counter-')
        if a[0] == 't' and a[1] == 'add' and a[3][0] == 'i':
            m = a[3][1] + n
            return a[2] if m == 0 else T('add', a[2], I(m))
        if a[0] in ('top', 'undef'):
            return ('top', 'add')
        if n == 0:
            return a
        return T('add', a, I(n))

    # ---------------------------------------------------------------- throws
    def throw(self, st, exc, node=None):
        self.exc[-1].append((st, exc))

    # ------------------------------------------------------------- expression
    def cv(self, n):
        c = n['cv']
        if isinstance(c, bool):
            return B(c)
        if 'i' in c:
            return I(int(c['i']))
        return ('f', float(c['f']) if c['f'] not in ('+Inf', '-Inf', 'NaN') else float(c['f'].lower()))

    def ev(self, n, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooBig('step budget exhausted in ' + (self.frames[-1].fn['q'] if self.frames else '?'))
        if n is None:
            return [(st, UNDEF)]
        if 'cv' in n:
            return [(st, self.cv(n))]
        return getattr(self, 'e_' + n['k'])(n, st)

    def evs(self, nodes, st):
        outs = [(st, ())]
        for x in nodes:
            nxt = []
            for s, vals in outs:
                for s2, v in self.ev(x, s):
                    nxt.append((s2, vals + (v,)))
            outs = nxt
        return [(s, list(v)) for s, v in outs]

    def rv(self, n, st):
        """Evaluate to an rvalue (class glvalues are read)."""
        out = []
        for s, v in self.ev(n, st):
            if self.is_gl(n) and v[0] == 'ptr':
                v = self.load(s, v[1])
            out.append((s, v))
        return out

    def is_gl(self, n):
        k = n['k']
        if k in ('ref', 'mem', 'index', 'mat', 'asg', 'asgop'):
            return not (k == 'ref' and n.get('dk') in ('func', 'enum'))
        if k == 'un':
            return n['op'] == '*' or (n['op'] in ('++', '--') and not n['post'])
        if k in ('call', 'mcall', 'opcall'):
            c = n.get('callee')
            return bool(c) and c['ret'].endswith('&')
        if k == 'cast':
            if n['ck'] in ('LValueToRValue', 'UserDefinedConversion', 'ConstructorConversion', 'ArrayToPointerDecay', 'FunctionToPointerDecay'):
                return False
            return self.is_gl(n['e'])
        if k == 'cond':
            return self.is_gl(n['a']) and self.is_gl(n['b'])
        if k == 'bin' and n['op'] == ',':
            return self.is_gl(n['b'])
        return False

    def e_int(self, n, st):
        return [(st, I(int(n['v'])))]

    def e_bool(self, n, st):
        return [(st, B(n['v']))]

    def e_float(self, n, st):
        return [(st, ('f', float(n['v'])))]

    def e_str(self, n, st):
        return [(st, S(n['v']))]

    def e_null(self, n, st):
        return [(st, NULL)]

    def e_zero(self, n, st):
        t = n['t']
        if t.endswith('*'):
            return [(st, NULL)]
        if t == 'bool':
            return [(st, FALSE)]
        return [(st, I(0))]

    def e_this(self, n, st):
        return [(st, self.frames[-1].this)]

    def e_ref(self, n, st):
        dk = n['dk']
        if dk == 'enum':
            return [(st, I(int(n['v'])))]
        if dk == 'func':
            return [(st, ('fn', n['callee']['id'], n['callee']['sq']))]
        if dk in ('global', 'static'):
            return [(st, ptr(('g', n['d'], strip_targs(n['q']))))]
        if dk == 'binding':
            return self.ev(n['b'], st)
        fr = self.frames[-1]
        root = ('v', fr.depth, n['d'])
        if n.get('refty') or n['d'] in fr.refs:
            v = st.store.get(root)
            if v is not None and v[0] == 'ptr':
                return [(st, v)]
            if v is not None and v != UNDEF:
                return [(st, ptr(('sym', v)))]
        return [(st, ptr(root))]

    def e_mem(self, n, st):
        out = []
        for s, b in self.ev(n['base'], st):
            if n['arrow'] and b[0] != 'ptr':
                self.check_deref(s, b, n)
            loc = self.as_loc(s, n['base'], b, n['arrow'])
            l2 = (loc[0], loc[1] + (n['n'],))
            if n.get('refty'):
                v = self.load(s, l2)
                if v[0] == 'ptr':
                    out.append((s, v))
                    continue
                out.append((s, ptr(('sym', v))))
                continue
            out.append((s, ('ptr', l2)))
        return out

    def as_loc(self, st, node, v, arrow):
        """Location of the object designated by v (pointer if arrow)."""
        if arrow or self.is_gl(node) or node['k'] == 'this':
            if v[0] == 'ptr':
                return v[1]
            return (('deref', v), ())
        if v[0] == 'ptr' and v[1][0][0] == 'tmp':
            return v[1]
        root = ('tmp', len(self.frames), node.get('nid', 0))
        st.store[root] = v
        return (root, ())

    def e_mat(self, n, st):
        out = []
        for s, v in self.rv(n['e'], st):
            if v[0] == 'ptr' and self.is_gl(n['e']):
                out.append((s, v))
                continue
            root = ('tmp', len(self.frames), n['nid'])
            s.store[root] = v
            out.append((s, ptr(root)))
        return out

    def e_index(self, n, st):
        out = []
        for s, (a, b) in self.evs([n['a'], n['b']], st):
            b = self.content(s, b) if self.is_gl(n['b']) else b
            if self.is_gl(n['a']) and a[0] == 'ptr' and self.content(s, a)[0] == 'iter':
                a = self.content(s, a)
            if a[0] == 'iter' and a[2] != 'end':
                p = self.add(a[2], b[1]) if b[0] == 'i' else b if a[2] == I(0) else T('pos', T('+', a[2], b))
                out.append((s, self.elem_ptr(s, ('iter', a[1], p))))
                continue
            out.append((s, ptr(('sym', T('[]', self.snap(s, a), b)))))
        return out

    def e_cast(self, n, st):
        ck = n['ck']
        t1, t0 = (n.get('t') or '').replace('const ', ''), (n.get('from') or '').replace('const ', '')
        out = []
        for s, v in self.ev(n['e'], st):
            if ck == 'LValueToRValue':
                if v[0] == 'ptr':
                    v = self.load(s, v[1])
                out.append((s, v))
                continue
            if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                v = self.compare(s, '!=', v, I(0), ck[0] == 'F', False)
            elif ck == 'PointerToBoolean':
                v = B(True) if v[0] in ('ptr', 'fn', 's') else FALSE if v == NULL else v if v[0] == 'top' else self.nonnull(v)
            elif ck == 'NullToPointer':
                v = NULL
            elif ck in ('FloatingToIntegral',):
                self.check.on_cast(self, s, n, v)
                v = I(int(v[1])) if v[0] == 'f' and v[1] == v[1] and abs(v[1]) < 1e30 else T('trunc', v) if v[0] != 'top' else v
            elif ck == 'IntegralToFloating':
                v = ('f', float(v[1])) if v[0] == 'i' else T('dbl', v) if self.floats and v[0] == 't' else v
            elif ck == 'IntegralCast':
                if v[0] == 'b':
                    v = I(1 if v[1] else 0)
                if v[0] == 'i' and t1 in RANGE and RANGE[t1][1] < 1 << 40 and not RANGE[t1][0] <= v[1] <= RANGE[t1][1]:
                    lo, hi = RANGE[t1]
                    v = I((v[1] - lo) % (hi - lo + 1) + lo)
                if self.floats and v[0] == 't' and t0 in RANGE and t1 in RANGE and v[1] in ('int', 'uint', 'trunc', 'num', 'text'):
                    (lo0, hi0), (lo, hi) = RANGE[t0], RANGE[t1]
                    if lo0 < lo and '<' in self.rel_set(s, v, I(lo))[1] or hi0 > hi and '>' in self.rel_set(s, v, I(hi))[1]:
                        v = T('wrapped', v)
                if self.unroll and t1 in ('unsigned char', 'uint8_t') and v[0] == 't':
                    v = T('u8', v)
                if v[0] == 't' and v[1] in ('int', 'trunc') and t1 in NARROW and t0 not in NARROW:
                    v = T('narrow', v)
                self.check.on_cast(self, s, n, v)
            elif ck == 'FloatingCast':
                if v[0] == 't' and t1 in ('float', '_Float16') and t0 in ('double', 'long double'):
                    v = T('narrow', v)
            out.append((s, v))
        return out

    def e_un(self, n, st):
        op = n['op']
        out = []
        if op == '!':
            for s, v in self.rv(n['e'], st):
                out.append((s, self.neg(self.boolish(s, v))))
            return out
        for s, v in self.ev(n['e'], st):
            if op == '*':
                if v[0] == 'iter':
                    self.check_deref(s, v, n)
                    out.append((s, self.elem_ptr(s, v)))
                elif v[0] == 'ptr':
                    out.append((s, v))
                else:
                    self.check_deref(s, v, n)
                    out.append((s, ptr(('deref', v))))
            elif op == '&':
                if v[0] == 'fn':
                    out.append((s, v))
                else:
                    out.append((s, v if v[0] == 'ptr' else T('&', v)))
            elif op in ('++', '--'):
                d = 1 if op == '++' else -1
                old = self.load(s, v[1])
                s = s.copy()
                if old[0] == 'iter':
                    new = self.iter_next(s, old) if d == 1 else ('iter', old[1], self.add(old[2], -1)) if old[2] != 'end' else ('iter', old[1], T('last'))
                else:
                    new = self.add(old, d)
                    if d == 1:
                        self.index_next(s, v[1], old)
                    else:
                        self.index_store(s, v[1], old, new)
                self.storev(s, v[1], new, n)
                out.append((s, old if n['post'] else v))
            elif op == '-':
                v = self.content(s, v) if self.is_gl(n['e']) else v
                out.append((s, (v[0], -v[1]) if v[0] in 'if' else T('neg', v)))
            elif op == '+':
                out.append((s, v))
            else:
                out.append((s, T('un' + op, v)))
        return out

    def check_deref(self, st, v, n):
        """An object is used through a pointer, iterator or optional."""
        h = getattr(self.check, 'deref', None)
        if h:
            h(self, st, v, n)

    def boolish(self, st, v):
        if v[0] == 'ptr':
            return TRUE
        if v == NULL:
            return FALSE
        return v

    def e_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            for s, a in self.rv(n['a'], st):
                for s1, t in self.truth(s, self.boolish(s, a)):
                    if t == (op == '||'):
                        out.append((s1, B(t)))
                    else:
                        for s2, b in self.rv(n['b'], s1):
                            out.append((s2, self.boolish(s2, b)))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(n['a'], st):
                out.extend(self.ev(n['b'], s))
            return out
        out = []
        logic = op in ('^', '&', '|') and all(self.from_bool(x) for x in (n['a'], n['b']))
        for s, (a, b) in self.evs([n['a'], n['b']], st):
            a = self.content(s, a) if self.is_gl(n['a']) else a
            b = self.content(s, b) if self.is_gl(n['b']) else b
            if logic:
                for s1, x in self.truth(s, a):
                    for s2, y in self.truth(s1, b):
                        out.append((s2, I(int(x != y if op == '^' else x and y if op == '&' else x or y))))
                continue
            r = self.index_test(s, op, a, b, n) if self.loopc is not None else None
            if r is not None:
                out.extend(r)
                continue
            out.append((s, self.arith(s, op, a, b, n)))
        return out

    def from_bool(self, n):
        while n['k'] in ('cast', 'paren') and n.get('ck') in ('IntegralCast', 'NoOp', 'LValueToRValue', None):
            if n.get('from') in ('bool', 'const bool'):
                return True
            n = n['e']
        return n.get('t') in ('bool', 'const bool')

    def arith(self, s, op, a, b, n):
        if op in self.OPS:
            t = n['a']['t'] if n.get('a') else ''
            if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1] and a[2] != 'end' and b[2] != 'end' and isconst(a[2]) and isconst(b[2]):
                a, b = a[2], b[2]
            flt = t in ('double', 'float')
            uns = t.startswith('unsigned') or t in ('size_t',)
            return self.compare(s, op, a, b, flt, uns)
        if a[0] in ('top', 'undef') or b[0] in ('top', 'undef'):
            return ('top', 'arith')
        if a[0] == 'iter' and a[2] != 'end':
            if b[0] == 'i' and op in '+-':
                return ('iter', a[1], self.add(a[2], b[1] if op == '+' else -b[1]))
            if b[0] == 'iter' and b[1] == a[1] and b[2] != 'end' and op == '-':
                return self.arith(s, op, a[2], b[2], n)
        if a[0] in 'ibf' and b[0] in 'ibf':
            try:
                x, y = a[1], b[1]
                fl = 'f' in (a[0], b[0])
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                     '/': lambda: (x / y) if fl else int(x / y), '%': lambda: int(x - y * int(x / y)),
                     '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                if not fl and r < 0 and n and n.get('t') in UINT64 + ('size_t', 'std::size_t'):
                    r += 1 << 64
                return ('f', r) if fl else I(r)
            except (KeyError, ZeroDivisionError, TypeError):
                pass
        if op == '+' and b[0] == 'i' and a[0] != 'iter':
            return self.add(a, b[1])
        if op == '+' and a[0] == 'i' and b[0] != 'iter':
            return self.add(b, a[1])
        if op == '-' and b[0] == 'i' and a[0] != 'iter':
            return self.add(a, -b[1])
        if a[0] == 'ge' or b[0] == 'ge':
            return ('top', 'counter' + op)
        return T(op, a, b)

    def e_asg(self, n, st):
        out = []
        for s, b in self.rv(n['b'], st):
            for s1, a in self.ev(n['a'], s):
                s1 = s1.copy()
                if a[0] == 'ptr':
                    if any(k[0] in ('ixv', 'ixm') and w[0] == a[1] for k, w in s1.mon.items()):
                        self.index_store(s1, a[1], self.load(s1, a[1]), self.one_more(n['b'], a[1], s1, b))
                    self.storev(s1, a[1], b, n)
                out.append((s1, a))
        return out

    def one_more(self, e, loc, st, v):
        """None when e is the next position of the variable at loc."""
        while e['k'] in ('cast', 'paren'):
            e = e['e']
        if e['k'] == 'bin' and e['op'] == '+':
            for x, y in ((e['a'], e['b']), (e['b'], e['a'])):
                while x['k'] in ('cast', 'paren'):
                    x = x['e']
                if x['k'] == 'ref' and [w[1] for _, w in self.ev(x, st) if w[0] == 'ptr'] == [loc] and [w for _, w in self.rv(y, st)] == [I(1)]:
                    return None
        return v

    def e_asgop(self, n, st):
        out = []
        for s, b in self.rv(n['b'], st):
            for s1, a in self.ev(n['a'], s):
                s1 = s1.copy()
                if a[0] == 'ptr':
                    op = n['op']
                    old = self.load(s1, a[1])
                    if op in ('&', '|') and n['t'] == 'bool' or (op in ('&', '|') and old[0] == 'b'):
                        v = self.boolop(s1, op, old, b)
                        for s2, val in v:
                            s2 = s2.copy()
                            self.storev(s2, a[1], val, n)
                            out.append((s2, a))
                        continue
                    new = self.arith(s1, op, old, b, {'a': None})
                    self.index_store(s1, a[1], old, None if op == '+' and b == I(1) else new)
                    self.storev(s1, a[1], new, n)
                out.append((s1, a))
        return out

    def boolop(self, st, op, a, b):
        out = []
        for s, x in self.truth(st, self.boolish(st, a)):
            for s2, y in self.truth(s, self.boolish(s, b)):
                out.append((s2, B((x and y) if op == '&' else (x or y))))
        return out

    def e_cond(self, n, st):
        out = []
        gl = self.is_gl(n)
        for s, c in self.rv(n['c'], st):
            for s1, t in self.truth(s, self.boolish(s, c)):
                out.extend((self.ev if gl else self.rv)(n['a'] if t else n['b'], s1))
        return out

    def e_init(self, n, st):
        out = []
        fl = n.get('fields')
        for s, vals in self.evr(n['args'], st):
            if fl is not None and len(fl) == len(vals):
                fields = {f: v for f, v in zip(fl, vals) if f != '<base>'}
                out.append((s, ('obj', n['t'], None, tuple(sorted(fields.items())))))
            elif n['t'].endswith(']') or fl is None:
                if len(vals) == 1 and fl is None and not n['t'].endswith(']'):
                    out.append((s, vals[0]))
                elif not vals and not n['t'].endswith(']'):
                    out.append((s, self.e_zero(n, s)[0][1]))
                else:
                    out.append((s, ('list', tuple(vals))))
            else:
                out.append((s, T('init', n['t'], *vals)))
        return out

    def evr(self, nodes, st):
        outs = [(st, ())]
        for x in nodes:
            nxt = []
            for s, vals in outs:
                for s2, v in self.rv(x, s):
                    nxt.append((s2, vals + (v,)))
            outs = nxt
        return [(s, list(v)) for s, v in outs]

    def e_stdinit(self, n, st):
        return self.rv(n['e'], st)

    def e_lambda(self, n, st):
        caps = []
        st = st.copy()
        fr = self.frames[-1]
        outs = [(st, ())]
        for c in n['caps']:
            nxt = []
            for s, cs in outs:
                if c['this']:
                    nxt.append((s, cs + ((('this', True), fr.this),)))
                    continue
                for s2, v in self.ev(c['init'], s):
                    if not c['byref'] and v[0] == 'ptr' and self.is_gl(c['init']):
                        v = self.load(s2, v[1])
                    nxt.append((s2, cs + (((c['d'], c['byref']), v),)))
            outs = nxt
        return [(s, ('clo', n['callee']['id'], cs)) for s, cs in outs]

    def e_new(self, n, st):
        out = []
        self.sites += 1
        nodes = list(n['place'])
        for s, pl in self.evs(nodes, st):
            ini = n.get('init')
            for s2, v in (self.rv(ini, s) if ini else [(s, UNDEF)]):
                h = getattr(self.check, 'on_new', None)
                r = h(self, s2, n, v, pl) if h else None
                if r is not None:
                    out.extend(r)
                    continue
                if pl and pl[0][0] == 'ptr':
                    s2 = s2.copy()
                    self.storev(s2, pl[0][1], v, n)
                    out.append((s2, pl[0]))
                    continue
                root = ('heap', n['nid'], len(self.frames))
                if root in s2.store:
                    k = 1
                    while ('heap', n['nid'], len(self.frames), k) in s2.store and k < 4:
                        k += 1
                    root = ('heap', n['nid'], len(self.frames), k)
                s2 = s2.copy()
                s2.store[root] = v
                out.append((s2, ptr(root)))
        return out

    def e_delete(self, n, st):
        out = []
        for s, v in self.rv(n['e'], st):
            s = s.copy()
            self.check.on_delete(self, s, v, n)
            out.append((s, UNDEF))
        return out

    def e_throw(self, n, st):
        if n['e'] is None:
            self.throw(st, self.cur_exc[-1] if self.cur_exc else T('exc?'))
            return []
        for s, v in self.rv(n['e'], st):
            t = n['e']['t']
            s.note(n.get('l', ''), 'throws ' + t)
            self.throw(s, ('exc', strip_targs(t), self.snap(s, v)))
        return []

    def e_typeid(self, n, st):
        if n['of'] == 'expr':
            return [(s, ptr(('sym', T('typeid', self.snap(s, v))))) for s, v in self.rv(n['e'], st)]
        return [(st, ptr(('sym', T('typeid', n['of']))))]

    def e_sizeof(self, n, st):
        return [(st, T('sizeof', n['of']))]

    def e_pseudodtor(self, n, st):
        return [(st, UNDEF)]

    def e_copyarr(self, n, st):
        return self.rv(n['e'], st)

    def e_unsupported(self, n, st):
        self.unmodelled[n.get('why', '?')] = self.unmodelled.get(n.get('why', '?'), 0) + 1
        return [(st, ('top', n.get('why', '?')))]

    def e_bound(self, n, st):
        return [(st, ('top', 'bound'))]

    # ------------------------------------------------------------------ calls
    def e_ctor(self, n, st):
        c = n['callee']
        args = n['args']
        if (n.get('copy') or n.get('move')) and len(args) == 1:
            f = self.p.functions.get(c['id'])
            if not (f and f.get('body') is not None and not f['defaulted']) and not (n.get('move') and c['sq'].startswith('std::' if self.scope else 'std::unique_ptr')):
                out = []
                for s, v in self.rv(args[0], st):
                    r = self.check.hook(self, s, c, None, [v], n)
                    if r is not None:
                        out.extend(r)
                        continue
                    out.append((s, v))
                return out
        out = []
        for s, vals in self.evs(args, st):
            out.extend(self.construct(s, n, c, vals, args))
        return out

    def construct(self, s, n, c, vals, argnodes):
        r = self.check.hook(self, s, c, None, vals, n)
        if r is not None:
            return r
        from .models import ctor_model
        r = ctor_model(self, s, c, vals, n)
        if r is not None:
            return r
        f = self.p.functions.get(c['id'])
        if f and (f.get('body') is not None or f.get('inits')) and not self.check.no_inline(c):
            depth = len(self.frames)
            root = ('tmp', depth, n['nid'], 'c')
            s = s.copy()
            s.store[root] = ('obj', n.get('cls') or f['cls'], None, ())
            out = []
            for s2, _ in self.call_fn(s, f, ptr(root), vals, n):
                v = self.load(s2, (root, ()))
                s2.store.pop(root, None)
                out.append((s2, v))
            return out
        cls = n.get('cls') or c.get('cls')
        if c.get('root') and not vals:
            return [(s, ('obj', cls, None, ()))]
        out = []
        for s1 in self.opaque_throw(s, c, n):
            out.append((s1, T('new', strip_targs(c['clst'] if 'clst' in c else cls), *[self.argsnap(s1, v, p) for v, p in self.zipp(vals, c)])))
        return out

    def opaque_throw(self, st, c, node):
        e = self.check.maythrow(self, st, c, node)
        if e is not None:
            s2 = st.copy()
            s2.note(node.get('l', ''), 'throws out of ' + c['sq'])
            self.throw(s2, e)
        return [st]

    def zipp(self, vals, c):
        ps = c.get('params', [])
        return [(v, ps[i] if i < len(ps) else '') for i, v in enumerate(vals)]

    def argsnap(self, st, v, ptype):
        if ptype.endswith('&') and v[0] == 'ptr':
            return self.snap(st, self.load(st, v[1]))
        return self.snap(st, v)

    def e_call(self, n, st):
        c = n.get('callee')
        out = []
        if c is None:
            for s, f in self.rv(n['fn'], st):
                for s2, vals in self.evs(n['args'], s):
                    out.extend(self.call_value(s2, f, vals, n))
            return out
        for s, vals in self.evs(n['args'], st):
            out.extend(self.invoke(s, c, None, vals, n))
        return out

    def e_mcall(self, n, st):
        c = n.get('callee')
        if c is None:
            return [(st, ('top', 'memptr'))]
        out = []
        for s, o in self.ev(n['obj'], st):
            s = s.copy()
            if n['arrow'] and o[0] != 'ptr':
                self.check_deref(s, o, n)
            if o[0] == 'iter' or (n['arrow'] and o[0] == 'clo'):
                this = o
            else:
                loc = self.as_loc(s, n['obj'], o, n['arrow'])
                this = ('ptr', loc)
            for s2, vals in self.evs(n['args'], s):
                out.extend(self.invoke(s2, c, this, vals, n))
        return out

    def e_opcall(self, n, st):
        c = n.get('callee')
        op = n['op']
        if c is None:
            return [(st, ('top', 'op'))]
        out = []
        for s, vals in self.evs(n['args'], st):
            s = s.copy()
            out.extend(self.opcall(s, n, c, op, vals))
        return out

    def opcall(self, s, n, c, op, vals):
        a0 = n['args'][0]
        r = self.check.hook(self, s, c, vals[0] if 'cls' in c else None, vals[1:] if 'cls' in c else vals, n)
        if r is not None:
            return r
        from .models import op_model
        r = op_model(self, s, n, c, op, vals)
        if r is not None:
            return r
        if 'cls' in c and not c.get('static'):
            v0 = vals[0]
            if v0[0] != 'ptr' or not self.is_gl(a0):
                loc = self.as_loc(s, a0, v0, False)
                v0 = ('ptr', loc)
            return self.invoke(s, c, v0, vals[1:], n, nohook=True)
        return self.invoke(s, c, None, vals, n, nohook=True)

    def call_value(self, st, f, vals, n):
        """Call a function value (closure, functor, bind object, fn pointer)."""
        if f[0] == 'ptr':
            v = self.load(st, f[1])
            if v[0] == 'obj' or (v[0] == 't'):
                r = self.call_functor(st, v, f, vals, n)
                if r is not None:
                    return r
            f = v
        if f[0] == 'fn':
            c = {'id': f[1], 'sq': f[2], 'q': f[2], 'n': f[2].split('::')[-1], 'params': [], 'ret': '', 'root': True}
            fn = self.p.functions.get(f[1])
            if fn and fn['n'] == '__invoke':
                for g in self.p.by_cls.get(fn['clst'], ()):
                    if g['n'] == 'operator()':
                        return self.call_fn(st, g, None, vals, n)
            if fn:
                c['params'] = [p['t'] for p in fn['params']]
                c['ret'] = fn['ret']
            return self.invoke(st, c, None, vals, n)
        if f[0] == 'clo':
            fn = self.p.functions.get(f[1])
            c = n.get('callee') or {}
            g = self.p.functions.get(c.get('id'))
            if g and g.get('lambda') and g['n'] == 'operator()' and (fn is None or 'body' not in fn) and len(g['params']) == len(vals):
                fn = g      # instantiation of a generic lambda
            if fn is None:
                st = st.copy()
                self.taint(st, 'unknown lambda')
                return [(st, ('top', 'lambda'))]
            return self.call_fn(st, fn, None, vals, n, caps=f[2])
        if f[0] == 'bind':
            args = []
            for a in f[2]:
                if a[0] == 'ph':
                    args.append(vals[a[1] - 1] if a[1] - 1 < len(vals) else UNDEF)
                else:
                    args.append(a)
            return self.call_value(st, f[1], args, n)
        if f[0] == 'obj':
            st = st.copy()
            root = ('tmp', len(self.frames), n.get('nid', 0), 'fo')
            st.store[root] = f
            r = self.call_functor(st, f, ptr(root), vals, n)
            if r is not None:
                return r
        r = self.check.hook(self, st, {'sq': '<function-value>', 'q': '<function-value>', 'n': '<function-value>', 'id': None, 'params': [], 'ret': n.get('t', '')}, f, vals, n)
        if r is not None:
            return r
        return self.opaque(st, {'sq': 'callfn', 'q': 'callfn', 'n': 'callfn', 'params': [], 'ret': n.get('t', '')}, f, vals, n)

    def call_functor(self, st, v, this, vals, n):
        if v[0] != 'obj':
            return None
        cls = v[1]
        cands = [f for fs in self.p.by_cls.values() for f in fs if f['n'] == 'operator()' and f['cls'] == cls and len(f['params']) == len(vals)] if cls else []
        if not cands:
            return None
        fn = cands[0]
        if len(cands) > 1:
            # choose the instantiation in the class of the caller, by call node
            cid = (n.get('callee') or {}).get('id')
            for f in cands:
                if f['id'] == cid:
                    fn = f
        return self.call_fn(st, fn, this, vals, n)

    def invoke(self, st, c, this, vals, n, nohook=False):
        if not nohook:
            r = self.check.hook(self, st, c, this, vals, n)
            if r is not None:
                return r
        from .models import call_model
        r = call_model(self, st, c, this, vals, n)
        if r is not None:
            return r
        fid = c['id']
        if c.get('virt') and this is not None and not n.get('qualified'):
            v = self.content(st, this)
            dyn = None
            if v[0] == 'obj' and v[1]:
                for t, rec in self.p.records.items():
                    if t == v[1] or rec['n'] == v[1]:
                        dyn = t
                        break
            h = getattr(self.check, 'dyntype', None)
            if dyn is None and h:
                dyn = h(self, st, v)
            if dyn is not None:
                fid = self.p.resolve_virtual(dyn, fid) or fid
            elif self.frames and self.frames[-1].this == this and self.frames[-1].fn.get('clst') and not self.p.overriders.get(fid):
                pass
            elif self.p.overriders.get(fid):
                fid = None
        f = self.p.functions.get(fid) if fid else None
        if f is not None and f.get('body') is not None and not self.check.no_inline(c):
            d = sum(1 for fr in self.frames if fr.fn is f)
            if d < 2 and len(self.frames) < self.check.inline_depth:
                return self.call_fn(st, f, this, vals, n)
        return self.opaque(st, c, this, vals, n)

    def opaque(self, st, c, this, vals, n):
        st = st.copy()
        self.opaque_throw(st, c, n)
        if c.get('noreturn'):
            return []
        args = [self.argsnap(st, v, p) for v, p in self.zipp(vals, c)]
        name = c['sq']
        self_t = None
        if this is not None:
            self_t = self.snap(st, self.content(st, this))
        res = T('call', name, *(([self_t] if self_t is not None else []) + args))
        # effects on mutable arguments
        for i, (v, p) in enumerate(self.zipp(vals, c)):
            if v[0] == 'ptr' and self.mutable_ref(p):
                self.storev(st, v[1], T('out', i, res), n)
        if this is not None and this[0] == 'ptr' and not c.get('const') and not c.get('static') and 'cls' in c:
            self.storev(st, this[1], T('mut', res), n)
        ret = c.get('ret', '')
        if ret.endswith('&'):
            return [(st, ptr(('sym', res)))]
        if ret == 'void':
            return [(st, UNDEF)]
        return [(st, res)]

    @staticmethod
    def mutable_ref(p):
        p = p.strip()
        if p.endswith('&&'):
            return False
        if p.endswith('&'):
            return not (p.startswith('const ') or ' const &' in p or p.endswith('const &'))
        if p.endswith('*'):
            return not (p.startswith('const ') or p.endswith('const *'))
        return False

    def call_fn(self, st, f, this, vals, n, caps=None):
        self.fns.add(f['id'])
        depth = len(self.frames) + 1
        fr = Frame(depth, this, f)
        st = st.copy()
        if caps:
            for (k, byref), v in caps:
                if k == 'this':
                    fr.this = v
                    continue
                st.store[('v', depth, k)] = v
                if byref:
                    fr.refs.add(k)
        for i, p in enumerate(f['params']):
            v = vals[i] if i < len(vals) else UNDEF
            if not p['ref'] and v[0] == 'ptr' and not p['t'].endswith('*') and not self.is_ptr_type(p['t']):
                v = self.load(st, v[1])
            if p['ref'] and v[0] != 'ptr' and v[0] not in ('iter',):
                root = ('tmp', depth, p['id'], 'p')
                st.store[root] = v
                v = ptr(root)
            elif p['ref'] and v[0] == 'iter':
                root = ('tmp', depth, p['id'], 'p')
                st.store[root] = v
                v = ptr(root)
            st.store[('v', depth, p['id'])] = v
        self.frames.append(fr)
        self.exc.append([])
        try:
            states = [st]
            if f.get('kind') in ('ctor', 'copyctor', 'movector'):
                states = self.run_inits(states, f, this)
            outs = []
            if f.get('body') is not None:
                for s in states:
                    for s2, o in self.ex(f['body'], s):
                        v = UNDEF
                        if isinstance(o, tuple) and o[0] == 'ret':
                            v = o[1]
                        outs.append((s2, v))
            else:
                outs = [(s, UNDEF) for s in states]
        finally:
            self.frames.pop()
            thrown = self.exc.pop()
        res = []
        seen = set()
        retref = f['ret'].endswith('&')
        for s, v in outs:
            root = None
            if v[0] == 'ptr' and v[1][0][0] in ('v', 'tmp') and len(v[1][0]) > 1 and v[1][0][1] == depth and not retref:
                root = v[1][0]
                v = self.load(s, v[1])
            if self.scope:
                s = s.copy()
                for r in [r for r in s.store if r[0] in ('v', 'tmp') and r[1] == depth and r != root]:
                    if r in s.store:
                        self.scope(self, s, r, s.store.pop(r))
            self.purge(s, depth)
            k = (s.key(), v)
            if k in seen:
                continue
            seen.add(k)
            res.append((s, v))
        if thrown:
            seen = set()
            for s, e in thrown:
                s = s.copy()
                self.check.on_unwind(self, s, fr)
                self.purge(s, depth)
                k = (s.key(), e)
                if k in seen:
                    continue
                seen.add(k)
                self.exc[-1].append((s, e))
        return res

    def is_ptr_type(self, t):
        return t.endswith('*') or t.endswith('*const') or '(*' in t or t == 'std::nullptr_t'

    def purge(self, st, depth):
        dead = [r for r in st.store if r[0] in ('v', 'tmp', 'rf') and r[1] >= depth]
        for r in dead:
            del st.store[r]

    def run_inits(self, states, f, this):
        if f['defaulted'] and f['kind'] in ('copyctor', 'movector') and f.get('body') is None:
            out = []
            for s in states:
                src = s.store[('v', self.frames[-1].depth, f['params'][0]['id'])]
                s = s.copy()
                self.storev(s, this[1], self.content(s, src))
                out.append(s)
            return out
        for i in f.get('inits', ()):
            nxt = []
            for s in states:
                if 'field' in i:
                    loc = (this[1][0], this[1][1] + (i['field'],))
                    if i['ref']:
                        res = self.ev(i['e'], s)
                    else:
                        res = self.rv(i['e'], s)
                    for s2, v in res:
                        s2 = s2.copy()
                        self.storev(s2, loc, v, i['e'])
                        nxt.append(s2)
                else:
                    # base or delegating constructor: run on the same object
                    e = i['e']
                    if e and e['k'] == 'ctor':
                        for s2, vals in self.evs(e['args'], s):
                            nxt.extend(self.base_init(s2, e, vals, this))
                    else:
                        nxt.append(s)
            states = nxt
        return states

    def base_init(self, st, e, vals, this):
        c = e['callee']
        r = self.check.hook(self, st, c, this, vals, dict(e, baseinit=True))
        if r is not None:
            return [s for s, _ in r]
        f = self.p.functions.get(c['id'])
        if f and f.get('body') is not None and not f['defaulted']:
            return [s for s, _ in self.call_fn(st, f, this, vals, e)]
        if c.get('cls') == 'pair' and len(vals) == 2:
            st = st.copy()
            cur = self.load(st, this[1])
            cur = cur if cur[0] == 'obj' else obj(None)
            for n, x in zip(('first', 'second'), vals):
                cur = setf(cur, n, self.snap(st, self.content(st, x) if x[0] == 'ptr' else x))
            self.storev(st, this[1], cur, e)
            return [st]
        if (e.get('copy') or e.get('move')) and vals:
            v = self.content(st, vals[0])
            st = st.copy()
            cur = self.load(st, this[1])
            if v[0] == 'obj':
                for n, x in v[3]:
                    cur = setf(cur, n, x)
                if v[2] is not None:
                    cur = ('obj', cur[1], v[2], cur[3])
            else:
                cur = ('obj', cur[1] if cur[0] == 'obj' else None, v, cur[3] if cur[0] == 'obj' else ())
            self.storev(st, this[1], cur, e)
        return [st]

    # ------------------------------------------------------------- statements
    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen = set()
        res = []
        for s, o in outs:
            s = self.check.merge(self, s)
            k = (s.key(), o)
            if k not in seen:
                seen.add(k)
                res.append((s, o))
        if len(res) > self.max_states:
            raise TooBig('too many abstract states in ' + (self.frames[-1].fn['q'] if self.frames else '?'))
        return res

    def ex(self, n, st):
        if n is None:
            return [(st, None)]
        return getattr(self, 's_' + n['k'])(n, st)

    def droptmp(self, s):
        d = len(self.frames)
        dead = [r for r in s.store if r[0] == 'tmp' and r[1] == d and not (len(r) > 3 and r[3] == 'p')]
        for r in dead:
            v = s.store.pop(r)
            if self.scope:
                self.scope(self, s, r, v)

    def s_expr(self, n, st):
        out = []
        for s, v in self.ev(n['e'], st):
            s = s.copy()
            self.droptmp(s)
            out.append((s, None))
        return self.dedupe(out)

    def s_null(self, n, st):
        return [(st, None)]

    def s_unsupported(self, n, st):
        self.unmodelled[n.get('why', '?')] = self.unmodelled.get(n.get('why', '?'), 0) + 1
        st = st.copy()
        self.taint(st, 'unmodelled statement')
        return [(st, None)]

    s_goto = s_unsupported

    def s_label(self, n, st):
        return self.ex(n['s'], st)

    def declared(self, n):
        k = n.get('_decl')
        if k is None:
            k = []
            for x in n['b']:
                if x and x['k'] == 'decl':
                    k.extend(v['id'] for v in x['vars'])
                    for v in x['vars']:
                        k.extend(b['id'] for b in v.get('bindings', ()))
            n['_decl'] = k
        return k

    def s_block(self, n, st):
        cur = [(st, None)]
        done = []
        for x in n['b']:
            nxt = []
            for s, o in cur:
                for s2, o2 in self.ex(x, s):
                    if o2 is None:
                        nxt.append((s2, None))
                    else:
                        done.append((s2, o2))
            cur = self.dedupe(nxt)
            if not cur:
                break
        res = cur + done
        ids = self.declared(n)
        if ids:
            d = len(self.frames)
            h = self.scope
            out = []
            for s, o in res:
                s = s.copy()
                for i in reversed(ids):
                    r = ('v', d, i)
                    if r in s.store:
                        v = s.store[r]
                        ret = False
                        if isinstance(o, tuple) and o[0] == 'ret' and o[1][0] == 'ptr' and o[1][1][0] == r and not self.frames[-1].fn['ret'].endswith('&'):
                            o = ('ret', self.load(s, o[1][1]))
                            ret = True
                        if h and not ret:
                            h(self, s, r, v)
                        del s.store[r]
                    v = s.store.pop(('ext', d, i), None)
                    if h and v is not None:
                        h(self, s, ('ext', d, i), v)
                out.append((s, o))
            res = out
        return self.dedupe(res)

    def s_decl(self, n, st):
        cur = [st]
        for v in n['vars']:
            nxt = []
            for s in cur:
                nxt.extend(self.declare(v, s))
            cur = nxt
        out = []
        for s in cur:
            s = s.copy()
            self.droptmp(s)
            out.append((s, None))
        return self.dedupe(out)

    def declare(self, v, st):
        d = len(self.frames)
        root = ('v', d, v['id'])
        out = []
        if v['static']:
            groot = ('g', v['id'], v['n'])
            if v.get('const') and v.get('init') is not None and groot not in st.store and closed(v['init']):
                for s, x in self.rv(v['init'], st):
                    s = s.copy()
                    s.store[groot] = x
                    out.append(s)
                return out
            return [st]
        if v.get('init') is None:
            st = st.copy()
            st.store[root] = UNDEF
            return [st]
        ini = v['init']
        if v['ref']:
            e = ini
            while e['k'] in ('cast',) and e['ck'] in ('NoOp',):
                e = e['e']
            if e['k'] == 'mat':
                for s, x in self.rv(e['e'], st):
                    s = s.copy()
                    s.store[('ext', d, v['id'])] = x
                    s.store[root] = ptr(('ext', d, v['id']))
                    out.append(s)
            else:
                for s, x in self.ev(ini, st):
                    s = s.copy()
                    if x[0] != 'ptr':
                        s.store[('ext', d, v['id'])] = x
                        x = ptr(('ext', d, v['id']))
                    elif x[1][0][0] == 'tmp' and x[1][0][1] == d:
                        s.store[('ext', d, v['id'])] = self.load(s, (x[1][0], ()))
                        x = ptr(('ext', d, v['id']), x[1][1])
                    s.store[root] = x
                    out.append(s)
        else:
            for s, x in self.rv(ini, st):
                s = s.copy()
                s.store[root] = x
                out.append(s)
        res = []
        for s in out:
            cur = [s]
            for b in v.get('bindings', ()):
                if 'hv' in b:
                    nx = []
                    for s2 in cur:
                        nx.extend(self.declare(b['hv'], s2))
                    cur = nx
            res.extend(cur)
        return res

    def s_ret(self, n, st):
        out = []
        if n.get('e') is None:
            return [(st, ('ret', UNDEF))]
        isref = self.frames[-1].fn['ret'].endswith('&')
        for s, v in (self.ev(n['e'], st) if isref else self.rv(n['e'], st)):
            rt = self.frames[-1].fn['ret']
            if rt == 'bool' and v[0] not in ('b', 'top'):
                v = self.boolish(s, v)
            s = s.copy()
            if not (isref and v[0] == 'ptr'):
                self.droptmp(s)
            s.note(n['l'], 'returns ' + show(v)[:120])
            out.append((s, ('ret', v)))
        return self.dedupe(out)

    def s_break(self, n, st):
        return [(st, 'brk')]

    def s_continue(self, n, st):
        return [(st, 'cont')]

    def cond(self, c, st, loop=False):
        out = []
        old, self.loopc = self.loopc, len(self.frames) if loop else None
        vs = self.rv(c, st)
        self.loopc = old
        for s, v in vs:
            for s2, b in self.truth(s, self.boolish(s, v)):
                s2 = s2.copy()
                self.droptmp(s2)
                out.append((s2, b))
        return self.dedupe(out)

    def index_test(self, s, op, a, b, n):
        """i < c.size() in the condition of a loop: a traversal of c by index."""
        if self.loopc != len(self.frames):
            return None
        va, vb = n['a'], n['b']
        if op == '>':
            a, b, va, vb, op = b, a, vb, va, '<'
        if op not in ('<', '!=') or b[:2] != ('t', 'size') or a[0] not in ('i', 'ge', 't') or a[0] == 't' and a[1] not in ('idx', 'add'):
            return None
        while va['k'] in ('cast', 'paren'):
            va = va['e']
        if va['k'] != 'ref' or b[2][0] in ('list', 's', 'top'):
            return None
        loc = [v[1] for _, v in self.ev(va, s) if v[0] == 'ptr']
        if len(loc) != 1 or loc[0][0][0] != 'v':
            return None
        coll, pos = b[2], a
        out = []
        for s1, t in self.truth(s, self.compare(s, op, a, b, False, True)):
            s1 = s1.copy()
            self.flush_iter(s1, lambda k: k[1] == coll)
            s1.mon.pop(('ixm', coll), None)
            if not t:
                if self.check.elems_end(self, s1, coll, pos):
                    out.append((s1, FALSE))
                continue
            at = T('at', coll, pos)
            s1.mon[('ixv', coll)] = (loc[0], pos)
            if at in s1.facts:
                out.append((s1, TRUE))
                continue
            for s2, kind in self.check.elem(self, s1, coll, pos):
                s2.facts[at] = kind if kind is not None else True
                out.append((s2, TRUE))
        return out

    def s_if(self, n, st):
        cur = [st]
        for part in ('init', 'var'):
            if n.get(part):
                nx = []
                for s in cur:
                    nx.extend(x for x, _ in self.ex(n[part], s))
                cur = nx
        out = []
        for s in cur:
            for s2, b in self.cond(n['c'], s):
                s2.note(n['l'], 'condition is %s' % ('true' if b else 'false'))
                if b:
                    out.extend(self.ex(n['t'], s2))
                elif n.get('e'):
                    out.extend(self.ex(n['e'], s2))
                else:
                    out.append((s2, None))
        d = len(self.frames)
        for part in ('init', 'var'):
            if n.get(part) and n[part]['k'] == 'decl':
                for s, _ in out:
                    for v in n[part]['vars']:
                        s.store.pop(('v', d, v['id']), None)
        return self.dedupe(out)

    def s_switch(self, n, st):
        cur = [st]
        for part in ('init', 'var'):
            if n.get(part):
                nx = []
                for s in cur:
                    nx.extend(x for x, _ in self.ex(n[part], s))
                cur = nx
        # flatten the body
        flat = []       # (labels, stmt)

        def unroll(x, labels):
            while x is not None and x['k'] in ('case', 'default'):
                labels = labels + [x]
                x = x['s']
            flat.append((labels, x))
        body = n['b']
        for x in (body['b'] if body and body['k'] == 'block' else [body]):
            unroll(x, [])
        out = []
        for s in cur:
            for s1, v in self.rv(n['c'], s):
                rest = [s1]
                default = None
                for i, (labels, x) in enumerate(flat):
                    for lab in labels:
                        if lab['k'] == 'default':
                            default = i
                            continue
                        cv = self.cv(lab['v']) if 'cv' in lab['v'] else I(int(lab['v'].get('v', 0)))
                        nrest = []
                        for r in rest:
                            for r2, b in self.truth(r, self.compare(r, '==', v, cv)):
                                if b:
                                    r2.note(n['l'], 'case ' + str(cv[1]))
                                    out.extend(self.run_from(flat, i, r2))
                                else:
                                    nrest.append(r2)
                        rest = nrest
                for r in rest:
                    if default is not None:
                        out.extend(self.run_from(flat, default, r))
                    else:
                        out.append((r, None))
        return self.dedupe([(s, None if o == 'brk' else o) for s, o in out])

    def run_from(self, flat, i, st):
        cur = [(st, None)]
        done = []
        for labels, x in flat[i:]:
            nxt = []
            for s, o in cur:
                for s2, o2 in self.ex(x, s):
                    (nxt if o2 is None else done).append((s2, o2))
            cur = self.dedupe(nxt)
            if not cur:
                break
        return cur + done

    s_case = lambda self, n, st: self.ex(n['s'], st)
    s_default = s_case

    EXC_BASES = {
        'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
        'std::invalid_argument': ['std::logic_error', 'std::exception'],
        'std::out_of_range': ['std::logic_error', 'std::exception'],
        'std::bad_alloc': ['std::exception'], 'std::bad_cast': ['std::exception'],
        'std::regex_error': ['std::runtime_error', 'std::exception'],
        'std::length_error': ['std::logic_error', 'std::exception'],
    }

    def catches(self, ht, exc):
        """True / False / None (unknown)."""
        if ht == '...':
            return True
        ht = strip_targs(re.sub(r'^const |&|\s', lambda m: '' if m.group(0) != ' ' else '', ht)).strip()
        if exc[0] == 'exc' and exc[1] != '?':
            t = exc[1]
            if t == ht:
                return True
            if ht in self.EXC_BASES.get(t, ()):
                return True
            for r in self.p.records:
                if strip_targs(r) == t and any(strip_targs(b) == ht for b in self.p.bases(r)):
                    return True
            return False
        return None

    def s_try(self, n, st):
        self.exc.append([])
        try:
            out = self.ex(n['b'], st)
        finally:
            thrown = self.exc.pop()
        seen = set()
        for s, e in thrown:
            k = (s.key(), e)
            if k in seen:
                continue
            seen.add(k)
            s = s.copy()
            self.purge(s, len(self.frames) + 1)
            if self.scope:
                d = len(self.frames)
                for r in [r for r in s.store if r[0] in ('v', 'ext') and r[1] == d and r not in st.store]:
                    self.scope(self, s, r, s.store.pop(r))
            self.droptmp(s)
            pend = True
            for h in n['h']:
                c = self.catches(h['t'], e)
                if c is False:
                    continue
                s2 = s.copy()
                s2.note(h['l'], 'caught by handler for ' + h['t'])
                if h.get('var'):
                    s2.store[('v', len(self.frames), h['var']['id'])] = ptr(('sym', T('exception', e)))
                self.cur_exc.append(e)
                out.extend(self.ex(h['b'], s2))
                self.cur_exc.pop()
                if c is True:
                    pend = False
                    break
            if pend:
                self.exc[-1].append((s, e))
        return self.dedupe(out)

    # ------------------------------------------------------------------ loops
    def fix(self, nid, st0, step):
        """Fixpoint: step(st) -> [(state, outcome)] with outcome
        'next' (loop again), 'exit', or ('out', o) to leave."""
        exits = []
        st0 = st0.copy()
        it = ('it', nid, len(self.frames))
        st0.mon[it] = 0
        seen = {st0.key()}
        work = [st0]
        n = 0
        while work:
            head = work.pop()
            n += 1
            if n > 4000:
                raise TooBig('loop does not stabilise (node %s)' % nid)
            for s, o in step(head):
                if any(k[0] == 'pend' and k not in head.mon for k in s.mon):
                    s = s.copy()
                    self.flush_iter(s, lambda k: k not in head.mon)
                if o == 'next':
                    for s in ([s] if self.unroll else [self.widen(nid, it, head, x) for x in self.settle(head, s)]):
                        k = s.key()
                        if k not in seen:
                            seen.add(k)
                            work.append(s)
                else:
                    s = s.copy()
                    s.mon.pop(it, None)
                    s.mon.pop(('itc', nid, len(self.frames)), None)
                    exits.append((s, None if o == 'exit' else o[1]))
        return self.dedupe(exits)

    def settle(self, head, s):
        """Decide the truth of boolean variables changed by the iteration."""
        cur = [s]
        for r, nv in list(s.store.items()):
            hv = head.store.get(r)
            if hv is not None and hv[0] == 'b' and nv[0] in ('rel', 'itereq', 'and', 'or', 'not', 't'):
                nxt = []
                for c in cur:
                    for s2, b in self.truth(c, nv):
                        if b is None:
                            nxt.append(c)
                            continue
                        s2 = s2.copy()
                        s2.store[r] = B(b)
                        nxt.append(s2)
                cur = nxt
        return cur

    def after_loop(self, st0, outs):
        """Forget facts about elements of loops that have been left."""
        old = {k for k in st0.mon if k[0] == 'cur'}
        res = []
        for s, o in outs:
            new = [k for k in s.mon if k[0] == 'cur' and k not in old]
            if new:
                s = s.copy()
                for k in new:
                    coll, pos = k[1], k[2]
                    el, at, it = T('elem', coll, pos), T('at', coll, pos), ('iter', coll, pos)
                    live = lambda x: x == el or x == it
                    if any(mentions(v, live) for v in s.store.values()) or (isinstance(o, tuple) and mentions(o, live)) \
                            or any(mentions(r, live) for r in s.store):
                        continue
                    self.check.iter_left(self, s, coll, pos, s.mon[k])
                    del s.mon[k]
                    for f in [f for f in s.facts if mentions(f, lambda x: x == el or x == at)]:
                        del s.facts[f]
            res.append((s, o))
        return self.dedupe(res)

    def widen(self, nid, it, head, s):
        s = s.copy()
        j = min(head.mon.get(it, 0) + 1, 3)
        s.mon[it] = j
        ck = ('itc', nid, len(self.frames))
        cin = head.mon.get(ck, frozenset())
        cout = set()
        for r, nv in list(s.store.items()):
            hv = head.store.get(r)
            if hv is None or hv == nv:
                if hv == nv and j >= 2 and mentions(nv, lambda x: len(x) > 2 and x[0] == 't' and x[1] == 'idx' and x[2] == nid):
                    s.store[r] = self.stale(nid, nv)
                continue
            s.store[r] = self.wid(nid, j, hv, nv, (r,), cin, cout)
        s.mon.pop(ck, None)
        if j == 1:
            s.mon[ck] = frozenset(cout)
        idx = lambda x: len(x) > 2 and x[0] == 't' and x[1] in ('idx', 'elem') and (x[1] == 'elem' or x[2] == nid)
        for f in list(s.facts):
            if f not in head.facts or head.facts[f] != s.facts[f]:
                if mentions(f, idx) or mentions(f, lambda x: len(x) > 1 and x[0] == 't' and x[1] == 'at'):
                    del s.facts[f]
            elif mentions(f, lambda x: len(x) > 2 and x[0] == 't' and x[1] == 'idx' and x[2] == nid):
                del s.facts[f]
        return s

    def stale(self, nid, v):
        if v[0] == 't' and v[1] == 'idx' and v[2] == nid:
            return ('ge', v[3][1]) if v[3][0] == 'i' else ('top', 'stale')
        if v[0] == 'iter':
            p = self.stale(nid, v[2]) if v[2] != 'end' else 'end'
            return ('iter', v[1], p)
        if v[0] == 'obj':
            return ('obj', v[1], v[2], tuple((n, self.stale(nid, x)) for n, x in v[3]))
        if v[0] == 't':
            return ('top', 'stale')
        return v

    def wid(self, nid, j, hv, nv, path=(), cin=frozenset(), cout=None):
        if hv == nv:
            return nv
        if hv[0] == 'obj' and nv[0] == 'obj' and hv[1] == nv[1]:
            hd = dict(hv[3])
            return ('obj', nv[1], nv[2], tuple((n, self.wid(nid, j, hd[n], x, path + (n,), cin, cout) if n in hd else x) for n, x in nv[3]))
        if hv[0] == 'iter' and nv[0] == 'iter' and hv[1] == nv[1]:
            if hv[1][0] == 'list':
                return nv
            if hv[2] == 'end' or nv[2] == 'end':
                return nv
            return ('iter', nv[1], self.widint(nid, j, hv[2], nv[2], path, cin, cout))
        if nv[0] in ('i', 'ge') or (nv[0] == 't' and nv[1] in ('idx', 'add')):
            return self.widint(nid, j, hv, nv, path, cin, cout)
        if j >= 2 and getattr(self.check, 'texts', False) and (nv[0] == 's' and len(nv[1]) > len(hv[1] if hv[0] == 's' else '') or nv[:2] == ('t', 'cat') or hv[:2] == ('t', 'text')):
            return T('text', nid)
        if nv[0] == 's' and j >= 2 and (hv[0] == 'top' or hv[0] == 's' and len(nv[1]) > len(hv[1])):
            return ('top', 'string')
        if nv[0] in ('b', 'null', 's', 'ptr', 'fn', 'clo'):
            return nv
        if nv[0] == 't' and nv[1] in ('elem', '.'):
            return nv
        h = getattr(self.check, 'widen_term', None)
        if h:
            r = h(self, nid, hv, nv)
            if r is not None:
                return r
        if j < 2:
            return nv
        return ('top', 'loop')

    def widint(self, nid, j, hv, nv, path=(), cin=frozenset(), cout=None):
        if nv == self.add(hv, 1):
            if j == 1 and cout is not None:
                cout.add(path)
            if j == 2 and path in cin:
                base = nv
                if base[0] == 't' and base[1] == 'add':
                    return T('idx', nid, base)
                if base[0] == 'i':
                    return T('idx', nid, base)
                if base[0] == 'ge':
                    return ('ge', base[1] - 1)
            if hv[0] == 't' and hv[1] == 'idx' and hv[2] == nid:
                return hv
        if nv[0] == 'ge' and hv[0] == 'ge':
            return ('ge', min(hv[1], nv[1]))
        if nv[0] == 'i':
            if hv[0] == 'i' and nv[1] > hv[1] and nv[1] >= 2 and j >= 2:
                return ('ge', 2)
            if hv[0] == 'ge' and nv[1] >= hv[1]:
                return hv
            if j < 3 or nv[1] in (0, 1):
                return nv
            return ('top', 'int')
        if nv[0] == 'ge':
            return ('ge', min(nv[1], 2))
        lo = self.lower(None, nv)
        if lo is not None and lo >= 0 and hv[0] in ('i', 'ge'):
            return ('ge', min(lo, 2))
        if j < 2:
            return nv
        if nv[0] == 't' and nv[1] == 'idx' and nv[2] != nid:
            return nv
        return ('top', 'int')

    def s_while(self, n, st):
        def step(s):
            out = []
            cur = [s]
            if n.get('var'):
                cur = [x for x, _ in self.ex(n['var'], s)]
            for c in cur:
                for s1, b in self.cond(n['c'], c, True):
                    if not b:
                        out.append((s1, 'exit'))
                        continue
                    for s2, o in self.ex(n['b'], s1):
                        out.append((s2, 'next' if o in (None, 'cont') else 'exit' if o == 'brk' else ('out', o)))
            return out
        return self.after_loop(st, self.fix(n['nid'], st, step))

    def s_do(self, n, st):
        def step(s):
            out = []
            for s2, o in self.ex(n['b'], s):
                if o in (None, 'cont'):
                    for s3, b in self.cond(n['c'], s2):
                        out.append((s3, 'next' if b else 'exit'))
                else:
                    out.append((s2, 'exit' if o == 'brk' else ('out', o)))
            return out
        return self.after_loop(st, self.fix(n['nid'], st, step))

    def s_for(self, n, st):
        cur = [st]
        if n.get('init'):
            cur = [s for s, o in self.ex(n['init'], st)]

        def step(s):
            out = []
            for s1, b in (self.cond(n['c'], s, True) if n.get('c') else [(s, True)]):
                if not b:
                    out.append((s1, 'exit'))
                    continue
                for s2, o in self.ex(n['b'], s1):
                    if o in (None, 'cont'):
                        if n.get('inc'):
                            for s3, _ in self.ev(n['inc'], s2):
                                s3 = s3.copy()
                                self.droptmp(s3)
                                out.append((s3, 'next'))
                        else:
                            out.append((s2, 'next'))
                    else:
                        out.append((s2, 'exit' if o == 'brk' else ('out', o)))
            return out
        out = []
        for s in cur:
            out.extend(self.fix(n['nid'], s, step))
        if n.get('init') and n['init']['k'] == 'decl':
            d = len(self.frames)
            for s, _ in out:
                for v in n['init']['vars']:
                    s.store.pop(('v', d, v['id']), None)
        return self.after_loop(st, out)

    def s_rfor(self, n, st):
        out = []
        d = len(self.frames)
        cur = [st]
        if n.get('init'):
            cur = [s for s, o in self.ex(n['init'], st)]
        for s0 in cur:
            for s, cv in self.ev(n['range'], s0):
                coll = self.content(s, cv)
                s = s.copy()
                r = ('rf', d, n['nid'])
                # keep a temporary range alive
                if cv[0] == 'ptr' and cv[1][0][0] == 'tmp':
                    pass
                from .models import as_coll
                coll = as_coll(self, s, coll)
                self.droptmp(s)
                s.store[r] = ('iter', coll, I(0))
                v = n['var']

                def step(h):
                    res = []
                    it = h.store[r]
                    for s1, end in self.iter_truth(h, it, ('iter', it[1], 'end')):
                        if end:
                            s1 = s1.copy()
                            s1.store.pop(r, None)
                            res.append((s1, 'exit'))
                            continue
                        s1 = s1.copy()
                        ep = self.elem_ptr(s1, it)
                        root = ('v', d, v['id'])
                        if v['ref']:
                            s1.store[root] = ep
                            # elements of value-returning iterators are temporaries
                        else:
                            val = self.load(s1, ep[1])
                            s1.store[root] = val
                        for b in v.get('bindings', ()):
                            if 'hv' in b:
                                for s1b in self.declare(b['hv'], s1):
                                    s1 = s1b
                        for s2, o in self.ex(n['b'], s1):
                            s2 = s2.copy()
                            s2.store.pop(root, None)
                            if o in (None, 'cont'):
                                s2.store[r] = self.iter_next(s2, s2.store[r])
                                res.append((s2, 'next'))
                            else:
                                s2.store.pop(r, None)
                                res.append((s2, 'exit' if o == 'brk' else ('out', o)))
                    return res
                out.extend(self.fix(n['nid'], s, step))
        return self.after_loop(st, out)

    def iterate(self, st, nid, coll, pos, body):
        """Abstract traversal used by library-algorithm models.
        body(state, elem_ptr) -> [(state, signal)]; signal None continues.
        Returns [(state, signal or 'end')]."""
        d = len(self.frames)
        r = ('rf', d, nid, 'alg')
        st = st.copy()
        st.store[r] = ('iter', coll, pos)

        def step(h):
            res = []
            it = h.store[r]
            for s1, end in self.iter_truth(h, it, ('iter', it[1], 'end')):
                s1 = s1.copy()
                if end:
                    s1.store.pop(r, None)
                    res.append((s1, ('out', 'end')))
                    continue
                for s2, sig in body(s1, self.elem_ptr(s1, it), it):
                    s2 = s2.copy()
                    if sig is None:
                        s2.store[r] = self.iter_next(s2, s2.store[r])
                        res.append((s2, 'next'))
                    else:
                        s2.store.pop(r, None)
                        res.append((s2, ('out', sig)))
            return res
        return self.fix(nid, st, step)

    # ------------------------------------------------------------------ entry
    def run(self, f, st, this, vals):
        """Interpret function f; returns (normal [(state, value)], thrown)."""
        self.exc = [[]]
        self.frames = []
        node = {'nid': 0, 'k': 'call', 't': f['ret'], 'l': f['loc']}
        outs = self.call_fn(st, f, this, vals, node)
        return outs, self.exc[0]
