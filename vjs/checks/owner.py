"""Memory of a schema: every object has one owner, which releases it exactly once."""
from ..engine import *
from ..visitor import *
from ..models import val, owner, UP
from .. import ir
from . import parse
from .parse import Parser, run_populate, lenient_adapter, D7

ALLOC = T('allocFn')
FREE = T('freeFn')
ALLOC2 = T('allocFn', 'other')
FREE2 = T('freeFn', 'other')
BAD = ('exc', 'std::bad_alloc', UNDEF)


def block(v):
    """The heap block a pointer value refers to."""
    if v[0] == 'ptr' and not v[1][1] and v[1][0][0] in ('deref', 'sym'):
        v = v[1][0][1]
    return v if v[:2] == ('t', 'blk') else None


def content(st, r):
    return st.store.get(('deref', r), UNDEF)


class Owner(Check):
    """Typestate of heap blocks: raw -> live -> dead -> freed (allocated by a
    pair of functions) or live -> gone (new and delete)."""

    def __init__(self, prog):
        self.p = prog
        self.viol = set()
        self.events = 0

    def bad(self, k, node, m, st):
        self.viol.add((k, node.get('l', '') if isinstance(node, dict) else node, m, tuple(st.path())))

    # ---------------------------------------------------------------- blocks
    def fresh(self, st, kind, v, **kw):
        k = 1
        while ('blk', T('blk', k)) in st.mon:
            k += 1
        r = T('blk', k)
        st.mon[('blk', r)] = kind
        for n, x in kw.items():
            st.mon[(n, r)] = x
        st.store[('deref', r)] = v
        st.facts[T('nonnull', r)] = True
        self.events += 1
        return r

    def state(self, st, r):
        return st.mon.get(('blk', r))

    def destroy(self, E, st, v, node):
        r = block(v)
        self.events += 1
        if r is None:
            if v == NULL:
                self.bad('null', node, 'an object that does not exist is destroyed', st)
            return
        s = self.state(st, r)
        if s != 'live':
            self.bad('destroy', node, 'an object is destroyed that %s' % {'raw': 'was never constructed', 'dead': 'is destroyed already', 'freed': 'is released already'}.get(s, 'is gone'), st)
        st.mon[('blk', r)] = 'dead'
        self.released(E, st, r, node)

    def released(self, E, st, r, node):
        """The members of a destroyed object are destroyed with it."""

    def free(self, E, st, fn, v, node):
        r = block(v)
        self.events += 1
        if v == NULL:
            return
        if r is None:
            self.bad('free what', node, 'something is released that was not allocated: %s' % show(v)[:60], st)
            return
        s = self.state(st, r)
        if s not in ('raw', 'dead'):
            self.bad('free', node, 'memory is released %s' % {'freed': 'twice', 'gone': 'twice', 'live': 'without destroying the object in it'}.get(s, 'that was not allocated'), st)
        if st.mon.get(('by', r)) == 'new':
            self.bad('free kind', node, 'an object made by new is released by a free function', st)
        elif fn != st.mon.get(('by', r)):
            self.bad('free function', node, 'memory is released by another function than the one it belongs to: %s' % show(fn)[:60], st)
        st.mon[('blk', r)] = 'freed'

    def on_delete(self, E, st, v, node):
        self.events += 1
        if v == NULL:
            return
        r = block(v)
        if r is None:
            self.bad('delete what', node, 'something is deleted that is not owned: %s' % show(v)[:60], st)
            return
        if st.mon.get(('by', r)) != 'new':
            self.bad('delete kind', node, 'memory of an allocation function is deleted', st)
        if self.state(st, r) != 'live':
            self.bad('delete', node, 'an object is deleted twice', st)
        st.mon[('blk', r)] = 'gone'
        self.released(E, st, r, node)

    def on_new(self, E, s, n, v, pl):
        s = s.copy()
        if not pl:
            return [(s, self.fresh(s, 'live', v, by='new'))]
        p = pl[0]
        if p == NULL:
            self.bad('null', n, 'an object is constructed in memory that was not obtained', s)
            return [(s, p)]
        r = block(p)
        if r is None:
            return None
        if self.state(s, r) != 'raw':
            self.bad('construct', n, 'an object is constructed in memory that is %s' % {'live': 'in use', 'freed': 'released'}.get(self.state(s, r), 'not raw'), s)
        sz = s.mon.get(('size', r))
        rec = self.p.records.get(n.get('t', '').rstrip('* '))
        if sz is not None and sz[0] == 'i' and rec and rec.get('size') and sz[1] < rec['size']:
            self.bad('size', n, 'an object of %d bytes is constructed in %d bytes' % (rec['size'], sz[1]), s)
        ini = n.get('init') or {}
        if not (ini.get('callee') or {}).get('noexcept'):
            s2 = s.copy()
            s2.note(n.get('l', ''), 'the constructor throws')
            E.throw(s2, BAD)
        s.mon[('blk', r)] = 'live'
        s.mon[('type', r)] = n.get('t', '').rstrip('* ')
        s.store[('deref', r)] = v
        return [(s, r)]

    # ------------------------------------------------------- owning pointers
    def on_scope_exit(self, E, st, root, v):
        if v[0] == 'obj' and v[1] == 'uptr':
            self.drop(E, st, v, {})
        elif v[0] == 'list':
            for x in v[1]:
                if x[0] == 'obj' and x[1] == 'uptr':
                    self.drop(E, st, x, {})

    def drop(self, E, st, v, node):
        p = getf(v, 'p')
        if p == NULL or p == UNDEF:
            return
        d = getf(v, 'deleter')
        if d[0] == 'obj' and d[1] == 'CustomDeleter':
            self.destroy(E, st, p, node)
            self.free(E, st, getf(d, 'm_freeFn'), p, node)
        elif d == UNDEF:
            self.on_delete(E, st, p, node)
        else:
            self.free(E, st, d, p, node)

    def on_unwind(self, E, st, fr):
        for r in [r for r in st.store if r[0] in ('v', 'tmp', 'ext') and r[1] == fr.depth]:
            if r in st.store:
                self.on_scope_exit(E, st, r, st.store.pop(r))
        if fr.fn.get('kind') in ('ctor', 'copyctor', 'movector') and fr.this and fr.this[0] == 'ptr':
            v = E.load(st, fr.this[1])
            if v[0] == 'obj':
                for n, x in v[3]:
                    self.on_scope_exit(E, st, None, x)

    # ----------------------------------------------------------------- calls
    def hook(self, E, st, c, this, args, node):
        n, cls, sq = c['n'], c.get('cls'), c['sq'].replace('std::__cxx11::', 'std::')
        fv = this if sq == '<function-value>' else None
        if fv is not None and fv[0] == 'ptr':
            fv = E.content(st, fv)
        if fv in (ALLOC, ALLOC2):
            out = []
            s = st.copy()
            s.note(node.get('l', ''), 'no memory is obtained')
            out.append((s, NULL))
            s = st.copy()
            out.append((s, self.fresh(s, 'raw', UNDEF, by=FREE if fv == ALLOC else FREE2, size=val(E, s, args[0]))))
            return out
        if fv in (FREE, FREE2):
            s = st.copy()
            self.free(E, s, fv, block(args[0]) or val(E, s, args[0]), node)
            return [(s, UNDEF)]
        if fv is not None:
            return None
        if n in ('operator delete', 'operator new') or n == 'free' or n == 'malloc':
            self.bad('other allocator', node, '%s is called directly' % n, st)
            return None
        if n.startswith('~'):
            s = st.copy()
            self.destroy(E, s, self.blockof(E, s, this), node)
            return [(s, UNDEF)]
        if n in ('clone', 'freeze') and this is not None and not node.get('qualified'):
            r = self.cloned(E, st, c, this, args, node)
            if r is not None:
                return r
        o = owner(c)
        if o in ('std::vector', 'std::set', 'std::map') and n in ('vector', 'set', 'map'):
            if len(args) == 1:
                x = val(E, st, args[0])
                if x[0] == 'list':
                    s = st.copy()
                    if c.get('kind') == 'movector' or c.get('params', [''])[0].endswith('&&'):
                        if args[0][0] == 'ptr':
                            E.storev(s, args[0][1], ('list', ()), node)
                    return [(s, x)]
            return [(st, ('list', ()))]
        if o == 'std::vector' and n in ('push_back', 'emplace_back') or o == 'std::set' and n == 'insert' or o == 'std::map' and n in ('insert', 'emplace'):
            return self.insert(E, st, c, this, args, node)
        if o in ('std::vector', 'std::set', 'std::map') and n == 'clear':
            s = st.copy()
            l = E.content(s, this)
            self.on_scope_exit(E, s, None, l)
            E.storev(s, this[1], ('list', ()), node)
            return [(s, UNDEF)]
        if o in ('std::vector', 'std::set', 'std::map') and n in ('pop_back', 'erase', 'reserve', 'resize', 'find', 'count'):
            return self.container(E, st, c, this, args, node)
        if o in UP and n == o.rsplit('::', 1)[-1]:
            from ..models import ctor_model
            r = ctor_model(E, st, c, args, node)
            if r is None:
                return None
            out = []
            for s, v in r:
                if v[0] == 'obj' and v[1] == 'uptr' and 'CustomDeleter' in str(c.get('clst')):
                    d = getf(v, 'deleter')
                    if d != UNDEF and not (d[0] == 'obj' and d[1] == 'CustomDeleter'):
                        v = setf(v, 'deleter', obj('CustomDeleter', m_freeFn=d))
                out.append((s, v))
            return out
        if o in UP and n == 'operator=' and this is not None and this[0] == 'ptr':
            s = st.copy()
            old = E.load(s, this[1])
            from ..models import op_model
            r = op_model(E, s, node, c, '=', [this] + list(args))
            for s2, v in r or ():
                if old[0] == 'obj':
                    self.drop(E, s2, old, node)
            return r
        if o in UP and n == 'reset' and this is not None and this[0] == 'ptr':
            s = st.copy()
            old = E.load(s, this[1])
            E.storev(s, this[1], setf(old, 'p', val(E, s, args[0]) if args and not block(args[0]) else args[0] if args else NULL), node)
            if old[0] == 'obj':
                self.drop(E, s, old, node)
            return [(s, UNDEF)]
        if o in UP and n == 'release' and this is not None and this[0] == 'ptr':
            s = st.copy()
            old = E.load(s, this[1])
            E.storev(s, this[1], setf(old, 'p', NULL), node)
            return [(s, getf(old, 'p'))]
        if n == 'throwRuntimeError' or n == 'throwLogicError':
            s = st.copy()
            s.note(node.get('l', ''), 'throws')
            E.throw(s, ('exc', 'std::runtime_error', UNDEF))
            return []
        if n == 'swap' and sq.startswith('std::') and len(args) == 2 and args[0][0] == 'ptr' and args[1][0] == 'ptr':
            s = st.copy()
            a, b = E.load(s, args[0][1]), E.load(s, args[1][1])
            E.storev(s, args[0][1], b, node)
            E.storev(s, args[1][1], a, node)
            return [(s, UNDEF)]
        if n == 'fprintf':
            return [(st, I(0))]
        return self.more(E, st, c, this, args, node)

    def more(self, E, st, c, this, args, node):
        return None

    def blockof(self, E, st, this):
        return this

    def cloned(self, E, st, c, this, args, node):
        """A virtual clone: a new object, or an exception."""
        a = self.ident(E, st, this)
        s2 = st.copy()
        s2.note(node.get('l', ''), '%s throws' % c['n'])
        E.throw(s2, BAD)
        s = st.copy()
        if len(args) == 2:
            fn = val(E, s, args[1])
            if {ALLOC: FREE, ALLOC2: FREE2}.get(val(E, s, args[0])) != fn:
                self.bad('pair', node, 'a clone is made by functions that do not belong together', s)
            p = self.fresh(s, 'live', T('cloneof', a), by=fn)
            return [(s, obj('uptr', p=p, deleter=obj('CustomDeleter', m_freeFn=fn)))]
        if args:
            return None
        return [(s, self.fresh(s, 'live', T('cloneof', a), by='new'))]

    def ident(self, E, st, v):
        if block(v):
            return T('block', block(v))
        return E.snap(st, E.content(st, v))

    def insert(self, E, st, c, this, args, node):
        if this is None or this[0] != 'ptr':
            return None
        l = E.load(st, this[1])
        if l[0] != 'list':
            return None
        a = args[0]
        x = block(a) or (E.content(st, a) if a[0] == 'ptr' else a)
        s2 = st.copy()
        s2.note(node.get('l', ''), '%s throws' % c['n'])
        if a[0] != 'ptr':
            self.on_scope_exit(E, s2, None, x)
        E.throw(s2, BAD)
        out = []
        s = st.copy()
        if a[0] == 'ptr' and x[0] == 'obj' and x[1] == 'uptr':
            E.storev(s, a[1], setf(x, 'p', NULL), node)
        E.storev(s, this[1], ('list', l[1] + (x,)), node)
        if c['n'] == 'insert':
            out.append((s, obj('pair', first=('iter', l, I(len(l[1]))), second=TRUE)))
            s = st.copy()
            s.note(node.get('l', ''), 'nothing is inserted')
            out.append((s, obj('pair', first=UNDEF, second=FALSE)))
        else:
            out.append((s, UNDEF))
        return out

    def container(self, E, st, c, this, args, node):
        if c['n'] == 'reserve':
            s2 = st.copy()
            s2.note(node.get('l', ''), 'reserve throws')
            E.throw(s2, BAD)
            return [(st, UNDEF)]
        return None

    # ------------------------------------------------------------------ ends
    def leaks(self, E, st, roots, where, what):
        """Blocks that are neither released nor reachable from roots."""
        seen = set()
        todo = list(roots)
        while todo:
            v = todo.pop()
            if not isinstance(v, tuple):
                continue
            if v[:2] == ('t', 'blk') and v not in seen and ('blk', v) in st.mon:
                seen.add(v)
                todo.append(content(st, v))
            todo.extend(v)
        for k, s in st.mon.items():
            if k[0] != 'blk':
                continue
            if s in ('raw', 'live', 'dead') and k[1] not in seen:
                self.bad('leak', where, '%s: %s is never released' % (what, 'an object' if s == 'live' else 'memory'), st)
            if s in ('freed', 'gone') and k[1] in seen:
                self.bad('dangling', where, '%s: an object is kept that is released' % what, st)
            if s in ('raw', 'dead') and k[1] in seen:
                self.bad('raw', where, '%s: memory is handed out without an object in it' % what, st)


THIS = ('sym', T('this'))


def go(prog, f, this, vals, setup=None, cls=Owner):
    c = cls(prog)
    st = State()
    E = Engine(prog, c)
    E.unroll = True
    if this is not None:
        st.store[THIS] = this
    c.where = f['loc']
    if setup:
        this2, vals = setup(c, E, st)
        if this2 is not None:
            st.store[THIS] = this2
    outs, thrown = E.run(f, st, ptr(THIS), vals)
    return c, E, outs, thrown


def flush(res, c, what, outs, thrown, key=''):
    for k, l, m, t in sorted(c.viol, key=str):
        res.violation('%s/%s' % (key or what, k), l, m if what in m else '%s: %s' % (what, m), list(t))
    for s in [o[0] for o in outs] + [t[0] for t in thrown]:
        if s.taint:
            res.undec('%s: %s' % (what, sorted(s.taint)[0]))
    res.unit('%s: %d paths' % (what, len(outs) + len(thrown)), len(outs) + len(thrown))
    return not c.viol


# ----------------------------------------------------------------- constraints
def clones(res, prog):
    n = 0
    for f in prog.functions.values():
        if f['n'] != 'clone' or f.get('body') is None or len(f['params']) != 2 or 'constraint' not in f['q'].lower():
            continue
        n += 1
        made(res, prog, f)
    res.need(n > 0, 'clone of constraints')


class Cloning(Owner):
    def more(self, E, st, c, this, args, node):
        if node.get('k') == 'ctor' and len(args) == 1 and (args[0] == ptr(THIS) or args[0] == T('this')):
            return [(st, T('copyof', c.get('clst')))]
        if c['n'] == 'sizeOf':
            return [(st, T('sizeOf'))]
        if c['n'] == 'cloneInto':
            s2 = st.copy()
            s2.note(node.get('l', ''), 'cloneInto throws')
            E.throw(s2, BAD)
            s = st.copy()
            r = block(args[0])
            if r is None or self.state(s, r) != 'raw':
                self.bad('construct', node, 'a copy is constructed in memory that was not obtained', s)
                return [(s, args[0])]
            if s.mon.get(('size', r)) != T('sizeOf'):
                self.bad('size', node, 'memory of the wrong size is used', s)
            s.mon[('blk', r)] = 'live'
            s.store[('deref', r)] = T('copyof', 'self')
            return [(s, r)]
        return None


def made(res, prog, f):
    c, E, outs, thrown = go(prog, f, None, [ALLOC, FREE], cls=Cloning)
    what = 'clone of ' + (f.get('targs') or [f.get('clst', '')])[0].rsplit('::', 1)[-1]
    if '<' in f.get('clst', ''):
        what = 'clone of ' + f['clst'].split('<', 1)[1].rstrip('>').rsplit('::', 1)[-1]
    ok = 0
    for s, v in outs:
        if s.taint:
            continue
        if v[0] == 'ptr':
            v = E.load(s, v[1])
        c.leaks(E, s, [v], f['loc'], what)
        r = block(getf(v, 'p')) if v[0] == 'obj' else None
        if r is None or c.state(s, r) != 'live':
            c.bad('nothing', f['loc'], '%s gives no object' % what, s)
            continue
        d = getf(v, 'deleter')
        if not (d[0] == 'obj' and d[1] == 'CustomDeleter' and getf(d, 'm_freeFn') == FREE):
            c.bad('deleter', f['loc'], '%s: the copy is not destroyed and given back to the free function' % what, s)
        x = content(s, r)
        own = '<' in f.get('clst', '') and f['clst'].split('<', 1)[1].rstrip('>')
        if x != T('copyof', own if own else 'self'):
            c.bad('copy', f['loc'], '%s is not a copy of it: %s' % (what, show(x)[:60]), s)
        ok += 1
    for s, e in thrown:
        if not s.taint:
            c.leaks(E, s, [], f['loc'], what + ' (failing)')
    if not ok and not c.viol:
        res.undec('%s: no path completes' % what)
    flush(res, c, what, outs, thrown, 'clone')


def deleter(res, prog):
    n = 0
    for f in prog.functions.values():
        if f['n'] == 'operator()' and 'CustomDeleter' in f.get('clst', '') and f.get('body') is not None:
            n += 1
            def setup(c, E, st):
                p = c.fresh(st, 'live', T('object'), by=FREE)
                return obj('CustomDeleter', m_freeFn=FREE), [p]
            c, E, outs, thrown = go(prog, f, None, None, setup)
            for s, v in outs:
                if not s.taint:
                    c.leaks(E, s, [], f['loc'], 'the deleter')
            flush(res, c, 'the deleter of constraints', outs, thrown, 'deleter')
    res.need(n > 0, 'the deleter of constraints')


OTHER = ('sym', T('other'))


def owning(prog, t):
    """Fields of record t (and bases) that own frozen values: name -> kind."""
    out = {}
    for x in [t] + prog.bases(t):
        for f in (prog.records.get(x) or {}).get('fields', ()):
            if 'FrozenValue' in f['t']:
                out[f['n']] = 'uptr' if 'unique_ptr' in f['t'] else 'list' if f['t'].startswith(('std::vector', 'std::set')) else 'ptr'
    return out


def holder(c, st, fs, n, tag, cls):
    """An object of class cls that owns n frozen values."""
    kw = {}
    for f, k in fs.items():
        ps = [c.fresh(st, 'live', T('frozen', tag, f, i), by='new') for i in range(n if k == 'list' else min(n, 1))]
        kw[f] = ('list', tuple(ps)) if k == 'list' else obj('uptr', p=ps[0] if ps else NULL) if k == 'uptr' else ps[0] if ps else NULL
    return obj(cls, base=T(tag), **kw)


def held(v, fs):
    """The values an object owns, in order."""
    out = []
    for f, k in fs.items():
        x = getf(v, f)
        if k == 'list':
            out += list(x[1]) if x[0] == 'list' else [x]
        else:
            p = getf(x, 'p') if k == 'uptr' else x
            if p != NULL:
                out.append(p)
    return out


def most(n, fs):
    return sum(n if k == 'list' else min(n, 1) for k in fs.values())


def frozen(c, st, p):
    r = block(p)
    return content(st, r) if r else None


def holders(res, prog):
    n = 0
    for t, rec in sorted(prog.records.items()):
        if '::constraints::' not in t:
            continue
        fs = owning(prog, t)
        if not fs:
            continue
        name = rec['n']
        plain = any(k != 'uptr' for k in fs.values())
        n += 1
        if plain:
            destroyed(res, prog, t, name, fs)
            for what, flag, words in (('copyctor', 'copies', 'copy constructor'), ('assign', 'assigns', 'copy assignment')):
                own = [m for m in rec['methods'] if m['kind'] == what or what == 'assign' and m['n'] == 'operator=' and m['params'] and m['params'][0].rstrip('& ').endswith(name)]
                if rec[flag] or any(m['defaulted'] and not m['deleted'] for m in own):
                    res.violation('%s/%s' % (name, what), rec['loc'], '%s: the %s shares the values both objects delete' % (name, words), [])
                else:
                    res.unit('%s: %s' % (name, words), 1)
        for f in prog.by_cls.get(t, ()):
            if f.get('body') is None and not f.get('inits') or f.get('defaulted'):
                continue
            if f.get('kind') == 'copyctor':
                copied(res, prog, f, name, fs)
            elif f.get('kind') == 'method' and not f.get('const') and f['params'] and ('Adapter' in f['params'][0]['t'] or 'FrozenValue' in f['params'][0]['t']):
                added(res, prog, f, name, fs)
    res.need(n > 0, 'constraints that own values')


def destroyed(res, prog, t, name, fs):
    ds = [f for f in prog.by_cls.get(t, ()) if f['n'].startswith('~') and f.get('body') is not None]
    if not ds:
        return res.violation('%s/destructor' % name, prog.records[t]['loc'], '%s does not release the values it owns' % name, [])
    for n in (0, 2):
        c, E, outs, thrown = go(prog, ds[0], None, None, lambda c, E, st: (holder(c, st, fs, n, 'this', name), []))
        for s, v in outs:
            if not s.taint:
                c.leaks(E, s, [], ds[0]['loc'], 'the destructor of ' + name)
        flush(res, c, 'the destructor of %s (%d values)' % (name, n), outs, thrown, name + '/destructor')


def copied(res, prog, f, name, fs):
    for n in (0, 1, 2):
        if not n and 'uptr' in fs.values():
            continue
        def setup(c, E, st):
            st.store[OTHER] = holder(c, st, fs, n, 'other', name)
            return obj(name), [ptr(OTHER)]
        c, E, outs, thrown = go(prog, f, None, None, setup)
        what = 'the copy constructor of ' + name
        for s, v in outs:
            if s.taint:
                continue
            o, x = s.store[OTHER], s.store[THIS]
            c.leaks(E, s, [o, x], f['loc'], what)
            a, b = held(o, fs), held(x, fs)
            if len(a) != most(n, fs):
                c.bad('other', f['loc'], '%s changes the object it copies' % what, s)
            if [frozen(c, s, p) for p in b] != [T('cloneof', T('block', p)) for p in a]:
                c.bad('copy', f['loc'], '%s does not copy the values one by one' % what, s)
        for s, e in thrown:
            if not s.taint:
                c.leaks(E, s, [s.store[OTHER]], f['loc'], what + ' (failing)')
                if len(held(s.store[OTHER], fs)) != most(n, fs):
                    c.bad('other', f['loc'], '%s changes the object it copies' % what, s)
        flush(res, c, '%s (%d values)' % (what, n), outs, thrown, name + '/copy')


ARG = ('sym', T('arg'))


def added(res, prog, f, name, fs):
    for n in (0, 1):
        c, E, outs, thrown = go(prog, f, None, None, lambda c, E, st: (holder(c, st, fs, n, 'this', name), [ptr(ARG)]))
        what = '%s::%s' % (name, f['n'])
        for s, v in outs:
            if s.taint:
                continue
            x = s.store[THIS]
            c.leaks(E, s, [x], f['loc'], what)
            b = [frozen(c, s, p) for p in held(x, fs)]
            if not b or b[-1] != T('cloneof', T('arg')):
                c.bad('value', f['loc'], '%s does not keep the value it is given' % what, s)
            old = [T('frozen', 'this', g, i) for g, k in fs.items() for i in range(n) if k == 'list']
            if b[:-1] != old:
                c.bad('old', f['loc'], '%s loses a value' % what, s)
        for s, e in thrown:
            if not s.taint:
                c.leaks(E, s, [s.store[THIS]], f['loc'], what + ' (failing)')
        flush(res, c, '%s (%d values, %s)' % (what, n, 'adapter' if 'Adapter' in f['params'][0]['t'] else 'frozen value'), outs, thrown, what)


# --------------------------------------------------------------------- schemas
OPNEW = T('operator delete')


class Schemas(Owner):
    """Schema and Subschema with concrete owned objects."""

    def identity(self, a, b):
        a, b = block(a) or a, block(b) or b
        if all(x[0] == 'ptr' or x[:2] == ('t', 'blk') for x in (a, b)):
            return a == b
        return None

    def released(self, E, st, r, node):
        v = content(st, r)
        if v[0] == 'obj':
            for n, x in v[3]:
                self.on_scope_exit(E, st, None, x)
            st.store[('deref', r)] = UNDEF

    def hook(self, E, st, c, this, args, node):
        n = c['n']
        if n == 'operator new':
            out = []
            s = st.copy()
            s.note(node.get('l', ''), 'no memory is obtained')
            if len(args) > 1:
                out.append((s, NULL))
            else:
                E.throw(s, BAD)
            s = st.copy()
            out.append((s, self.fresh(s, 'raw', UNDEF, by=OPNEW, size=val(E, s, args[0]))))
            return out
        if n == 'operator delete':
            s = st.copy()
            self.free(E, s, OPNEW, block(args[0]) or val(E, s, args[0]), node)
            return [(s, UNDEF)]
        return Owner.hook(self, E, st, c, this, args, node)

    def free(self, E, st, fn, v, node):
        if 'operator delete' in str(fn):
            fn = OPNEW
        Owner.free(self, E, st, fn, v, node)

    def container(self, E, st, c, this, args, node):
        n = c['n']
        l = E.content(st, this) if this is not None else UNDEF
        if l[0] == 'list' and n in ('find', 'count', 'contains'):
            a = block(args[0]) or val(E, st, args[0])
            if a[0] == 'ptr' and a[1][0][0] in ('v', 'tmp'):
                a = E.load(st, a[1])
            a = block(a) or a
            if a in l[1]:
                i = l[1].index(a)
                return [(st, I(1) if n == 'count' else TRUE if n == 'contains' else ('iter', l, I(i)))]
            return [(st, I(0) if n == 'count' else FALSE if n == 'contains' else ('iter', l, 'end'))]
        return Owner.container(self, E, st, c, this, args, node)


def constraint(c, st, by, tag):
    p = c.fresh(st, 'live', T('constraint', tag), by=by)
    return obj('uptr', p=p, deleter=obj('CustomDeleter', m_freeFn=by))


def sub(c, st, tag, n, al, fr, cls='Subschema', **kw):
    return obj(cls, m_allocFn=al, m_freeFn=fr, m_alwaysInvalid=T('invalid', tag), m_constraints=('list', tuple(constraint(c, st, fr, T(tag, i)) for i in range(n))),
               m_description=T('description', tag), m_id=T('id', tag), m_title=T('title', tag), **kw)


def schema(c, st, tag, n, al=ALLOC, fr=FREE, empty=True):
    """A schema with n constraints and n subschemas."""
    subs = tuple(c.fresh(st, 'live', UNDEF, by=fr) for i in range(n))
    for i, p in enumerate(subs):
        st.store[('deref', p)] = sub(c, st, T(tag, 's%d' % i), 1, ALLOC2, FREE2)
    e = NULL
    if empty:
        e = c.fresh(st, 'live', UNDEF, by=fr)
        st.store[('deref', e)] = sub(c, st, T(tag, 'empty'), 0, ALLOC2, FREE2)
    return sub(c, st, tag, n, al, fr, 'Schema', subschemaSet=('list', subs), sharedEmptySubschema=e)


def reach(st, v):
    seen = set()
    todo = [v]
    while todo:
        v = todo.pop()
        if isinstance(v, tuple):
            if v[:2] == ('t', 'blk') and v not in seen:
                seen.add(v)
                todo.append(content(st, v))
            todo.extend(v)
    return seen


def destroy(E, c, st, loc, dtors):
    """Runs the destructors of the object at loc, most derived first."""
    outs = [st]
    for d in dtors:
        nxt = []
        for s in outs:
            o, t = E.run(d, s.copy(), ptr(loc), [])
            nxt += [x[0] for x in o]
            for x in t:
                c.bad('dtor throws', d['loc'], 'a destructor throws', x[0])
        outs = nxt
    for s in outs:
        v = s.store.get(loc, UNDEF)
        if v[0] == 'obj':
            for n, x in v[3]:
                c.on_scope_exit(E, s, None, x)
        s.store[loc] = UNDEF
    return outs


def dtors(prog, t):
    out = []
    for x in [t] + prog.bases(t):
        out += [f for f in prog.by_cls.get(x, ()) if f['n'].startswith('~') and f.get('body') is not None]
    return out


SCHEMA_T = 'valijson::Schema'
SUB_T = 'valijson::Subschema'


def schemas(res, prog):
    res.need(SCHEMA_T in prog.records and SUB_T in prog.records, 'Schema')
    for f in prog.by_cls.get(SCHEMA_T, []) + prog.by_cls.get(SUB_T, []):
        if f.get('body') is None and not f.get('inits') or f.get('defaulted') or f.get('static'):
            continue
        whole = f['clst'] == SCHEMA_T
        k = f.get('kind')
        if f['n'].startswith('~'):
            dies(res, prog, f, whole)
        elif k in ('ctor',):
            born(res, prog, f, whole)
        elif k in ('movector', 'copyctor') or f['n'] == 'operator=':
            moved(res, prog, f, whole)
        elif f['n'] == 'createSubschema':
            created(res, prog, f)
        elif f['n'] in SETTERS or f['n'] == 'addConstraintToSubschema' or f['n'] == 'addConstraint':
            changed(res, prog, f, whole)


def dies(res, prog, f, whole):
    ds = dtors(prog, f['clst'])
    for n in (0, 1, 2):
        for empty in ((True, False) if whole else (True,)):
            c = Schemas(prog)
            st = State()
            E = Engine(prog, c)
            E.unroll = True
            st.store[THIS] = schema(c, st, 'this', n, empty=empty) if whole else sub(c, st, 'this', n, ALLOC, FREE)
            outs = destroy(E, c, st, THIS, ds)
            for s in outs:
                if not s.taint:
                    c.leaks(E, s, [], f['loc'], 'the destructor of ' + f['cls'])
            flush(res, c, 'the destructor of %s (%d owned%s)' % (f['cls'], n, '' if empty else ', moved from'), [(s, None) for s in outs], [], f['cls'] + '/destructor')


def born(res, prog, f, whole):
    vals = []
    for p in f['params']:
        vals.append(ALLOC if 'Alloc' in p['t'] or 'size_t' in p['t'] or 'unsigned long' in p['t'] else FREE)
    c, E, outs, thrown = go(prog, f, obj(f['cls']), vals, cls=Schemas)
    what = 'the constructor of %s with %d arguments' % (f['cls'], len(vals))
    for s, v in outs:
        if s.taint:
            continue
        x = s.store[THIS]
        c.leaks(E, s, [x], f['loc'], what)
        if vals and (getf(x, 'm_allocFn') != ALLOC or getf(x, 'm_freeFn') != FREE):
            c.bad('functions', f['loc'], '%s does not keep the functions it is given' % what, s)
        if getf(x, 'm_alwaysInvalid') != FALSE:
            c.bad('invalid', f['loc'], '%s makes a schema that is always invalid' % what, s)
        for n in ('m_description', 'm_id', 'm_title'):
            o = getf(x, n)
            if not (o == UNDEF or o[0] == 'obj' and getf(o, 'has') == FALSE or o[0] == 't' and o[1] == 'new'):
                c.bad(n, f['loc'], '%s makes a schema with %s' % (what, n[2:]), s)
        if whole and not block(getf(x, 'sharedEmptySubschema')):
            c.bad('empty', f['loc'], '%s makes no empty subschema' % what, s)
        for s2 in destroy(E, c, s.copy(), THIS, dtors(prog, f['clst'])):
            if not s2.taint:
                c.leaks(E, s2, [], f['loc'], 'a new ' + f['cls'])
    for s, e in thrown:
        if not s.taint:
            c.leaks(E, s, [], f['loc'], what + ' (failing)')
    flush(res, c, what, outs, thrown, f['cls'] + '/constructor')


def created(res, prog, f):
    for n in (0, 1):
        c, E, outs, thrown = go(prog, f, None, None, lambda c, E, st: (schema(c, st, 'this', n), []), cls=Schemas)
        what = f['cls'] + '::' + f['n']
        for s, v in outs:
            if s.taint:
                continue
            x = s.store[THIS]
            c.leaks(E, s, [x], f['loc'], what)
            l = getf(x, 'subschemaSet')
            r = block(v)
            if r is None or c.state(s, r) != 'live' or r not in l[1] or len(l[1]) != n + 1:
                c.bad('result', f['loc'], '%s does not give a new subschema that the schema owns' % what, s)
            elif getf(content(s, r), 'm_alwaysInvalid') != FALSE or getf(content(s, r), 'm_constraints') not in (UNDEF, ('list', ())):
                c.bad('not empty', f['loc'], '%s gives a subschema that is not empty' % what, s)
            for s2 in destroy(E, c, s.copy(), THIS, dtors(prog, f['clst'])):
                if not s2.taint:
                    c.leaks(E, s2, [], f['loc'], 'a schema with a new subschema')
        for s, e in thrown:
            if not s.taint:
                c.leaks(E, s, [s.store[THIS]], f['loc'], what + ' (failing)')
                if len(getf(s.store[THIS], 'subschemaSet')[1]) != n:
                    c.bad('kept', f['loc'], '%s keeps a subschema although it fails' % what, s)
        flush(res, c, '%s (%d before)' % (what, n), outs, thrown, what)


SETTERS = {'setAlwaysInvalid': 'm_alwaysInvalid', 'setSubschemaDescription': 'm_description', 'setSubschemaId': 'm_id', 'setSubschemaTitle': 'm_title',
           'setDescription': 'm_description', 'setId': 'm_id', 'setTitle': 'm_title'}
FIELDS = ('m_allocFn', 'm_freeFn', 'm_alwaysInvalid', 'm_constraints', 'm_description', 'm_id', 'm_title')


def plainval(v):
    return getf(v, 'val') if v[0] == 'obj' and v[1] == 'opt' and getf(v, 'has') == TRUE else v


def changed(res, prog, f, whole):
    """A change reaches the subschema it names, and nothing else."""
    ps = f['params']
    target = [i for i, p in enumerate(ps) if 'Subschema' in p['t']]
    field = SETTERS.get(f['n'], 'm_constraints')
    for kind in ('root', 'owned', 'empty', 'foreign') if target else ('root',):
        def setup(c, E, st):
            x = schema(c, st, 'this', 2) if whole else sub(c, st, 'this', 1, ALLOC, FREE)
            a = {'root': ptr(THIS), 'foreign': ptr(('sym', T('foreign'))), 'empty': getf(x, 'sharedEmptySubschema'), 'owned': getf(x, 'subschemaSet')[1][1] if whole else None}[kind]
            c.target = a
            c.before = {b: content(st, b) for b in reach(st, x)}
            c.before[THIS] = x
            return x, [a if i in target else ptr(ARG) if p['ref'] else T('arg') for i, p in enumerate(ps)]
        c, E, outs, thrown = go(prog, f, None, None, setup, cls=Schemas)
        what = '%s::%s' % (f['cls'], f['n'])
        label = {'root': 'the root', 'owned': 'a subschema of it', 'empty': 'the shared empty subschema', 'foreign': 'a subschema of another schema'}[kind]
        if not target:
            label = 'itself'
        for (s, v), threw in [(o, False) for o in outs] + [(t, True) for t in thrown]:
            if s.taint:
                continue
            c.leaks(E, s, [s.store[THIS]], f['loc'], what)
            if kind in ('empty', 'foreign'):
                if not threw:
                    c.bad(kind, f['loc'], '%s accepts %s' % (what, label), s)
            for b, old in c.before.items():
                new = s.store[THIS] if b == THIS else content(s, b)
                hit = kind in ('root', 'owned') and not threw and (b == THIS if kind == 'root' else b == c.target)
                if old[0] != 'obj':
                    if new != old:
                        c.bad('other', f['loc'], '%s changes something else' % what, s)
                    continue
                for n, x in old[3]:
                    y = getf(new, n)
                    if hit and n == field:
                        if field == 'm_constraints':
                            if y[0] != 'list' or y[1][:-1] != x[1] or content(s, getf(y[1][-1], 'p')) != T('cloneof', T('arg')):
                                c.bad('value', f['loc'], '%s does not add a copy of the constraint to %s' % (what, label), s)
                        elif plainval(y) != T('arg'):
                            c.bad('value', f['loc'], '%s does not set the value of %s: %s' % (what, label, show(y)[:60]), s)
                    elif y != x:
                        c.bad('other', f['loc'], '%s changes %s of another object' % (what, n), s)
        if kind in ('root', 'owned') and not outs and not c.viol:
            c.bad('rejected', f['loc'], '%s rejects %s' % (what, label), State())
        flush(res, c, '%s (%s)' % (what, label), outs, thrown, what)


def moved(res, prog, f, whole):
    copy = f.get('kind') == 'copyctor' or f['params'] and f['params'][0]['t'].startswith('const ')
    what = 'the %s of %s' % ({'movector': 'move constructor', 'copyctor': 'copy constructor'}.get(f.get('kind'), 'assignment'), f['cls'])
    assign = f['n'] == 'operator='
    for n in (0, 1):
        def setup(c, E, st):
            mk = (lambda t, a, r: schema(c, st, t, n, a, r)) if whole else lambda t, a, r: sub(c, st, t, n, a, r)
            st.store[OTHER] = mk('other', ALLOC2, FREE2)
            c.before = st.store[OTHER]
            return mk('this', ALLOC, FREE) if assign else obj(f['cls']), [ptr(OTHER)]
        c, E, outs, thrown = go(prog, f, None, None, setup, cls=Schemas)
        for s, v in outs:
            if s.taint:
                continue
            x, o = s.store[THIS], s.store.get(OTHER, UNDEF)
            c.leaks(E, s, [x, o], f['loc'], what)
            if not copy:
                for k, y in c.before[3]:
                    if getf(x, k) != y:
                        c.bad('field', f['loc'], '%s does not take over %s: %s' % (what, k, show(getf(x, k))[:60]), s)
            if reach(s, x) & reach(s, o):
                c.bad('shared', f['loc'], 'after %s both objects own the same memory' % what, s)
                continue
            ends = destroy(E, c, s.copy(), THIS, dtors(prog, f['clst']))
            for s2 in ends:
                if any(c.state(s2, b) in ('freed', 'gone', 'dead') for b in reach(s2, s2.store.get(OTHER, UNDEF))):
                    c.bad('shared', f['loc'], 'after %s both objects own the same memory' % what, s)
                for s3 in destroy(E, c, s2.copy(), OTHER, dtors(prog, f['clst'])):
                    if not s3.taint:
                        c.leaks(E, s3, [], f['loc'], 'after %s, destroying both' % what)
        flush(res, c, '%s (%d owned)' % (what, n), outs, thrown, what)


# ------------------------------------------------------------------ allocators
def allocators(res, prog):
    n = 0
    seen = set()
    for f in prog.functions.values():
        if f.get('cls') != 'CustomAllocator' or f.get('body') is None and not f.get('inits'):
            continue
        t = f['clst'].split('<', 1)[-1].rstrip('>')
        this = obj('CustomAllocator', m_allocFn=ALLOC, m_freeFn=FREE)
        what = 'CustomAllocator::' + f['n']
        if f['n'] == 'allocate':
            c, E, outs, thrown = go(prog, f, this, [T('count'), NULL])
            for s, v in outs:
                r = block(v)
                if s.taint:
                    continue
                if r is None:
                    c.bad('null', f['loc'], '%s hands a container memory that was not obtained' % what, s)
                    continue
                z = s.mon.get(('size', r))
                if not (z is not None and z[0] == 't' and z[1] == '*' and T('count') in z[2:] and any(y[0] == 'i' and y[1] >= size_of(prog, t) for y in z[2:])):
                    c.bad('size', f['loc'], '%s obtains memory of another size: %s' % (what, show(z) if z else '?'), s)
        elif f['n'] == 'deallocate':
            def setup(c, E, st):
                c.blk = c.fresh(st, 'raw', UNDEF, by=FREE)
                return this, [c.blk, T('count')]
            c, E, outs, thrown = go(prog, f, None, None, setup)
            for s, v in outs:
                if not s.taint:
                    c.leaks(E, s, [], f['loc'], what)
        elif f.get('kind') in ('ctor', 'copyctor', 'movector') or f['n'] == 'operator=':
            if not f['params']:
                vals = []
            elif len(f['params']) == 2:
                vals = [ALLOC, FREE]
            else:
                vals = [ptr(OTHER)]

            def setup(c, E, st):
                st.store[OTHER] = this
                return obj('CustomAllocator', m_allocFn=ALLOC2, m_freeFn=FREE2) if f['n'] == 'operator=' else obj('CustomAllocator'), vals
            c, E, outs, thrown = go(prog, f, None, None, setup, cls=Schemas)
            for s, v in outs:
                if s.taint:
                    continue
                x = s.store[THIS]
                if vals:
                    if (getf(x, 'm_allocFn'), getf(x, 'm_freeFn')) != (ALLOC, FREE):
                        c.bad('functions', f['loc'], '%s does not keep the functions it is given' % what, s)
        else:
            continue
        n += 1
        for k, l, m, tr in sorted(c.viol, key=str):
            res.violation('CustomAllocator/%s/%s' % (f['n'], k), l, m, list(tr))
        flush_quiet(res, c, what, outs, thrown, seen, f)
    res.need(n > 0, 'CustomAllocator')


def flush_quiet(res, c, what, outs, thrown, seen, f):
    k = (what, f['loc'])
    for s in [o[0] for o in outs] + [t[0] for t in thrown]:
        if s.taint:
            res.undec('%s: %s' % (what, sorted(s.taint)[0]))
    if k not in seen:
        seen.add(k)
        res.unit('%s (%s)' % (what, f['loc'].rsplit(':', 1)[-1]), len(outs) + len(thrown))


def size_of(prog, t):
    t = t.strip()
    if t.endswith('*'):
        return 8
    r = prog.records.get(t)
    return r['size'] if r else 1


# ------------------------------------------------------- objects of the parser
def parsers(res, prog):
    t = 'valijson::SchemaParser'
    rec = prog.records.get(t)
    res.need(rec is not None, 'SchemaParser')
    ds = dtors(prog, t)
    if not ds:
        return res.violation('SchemaParser/destructor', rec['loc'], 'SchemaParser does not release its constraint builders', [])
    for n in (0, 2):
        def setup(c, E, st):
            l = tuple(obj('pair', first=T('name', i), second=c.fresh(st, 'live', T('builder', i), by='new')) for i in range(n))
            return obj('SchemaParser', constraintBuilders=('list', l)), []
        c, E, outs, thrown = go(prog, ds[0], None, None, setup)
        for s, v in outs:
            if not s.taint:
                c.leaks(E, s, [], ds[0]['loc'], 'the destructor of SchemaParser')
        flush(res, c, 'the destructor of SchemaParser (%d builders)' % n, outs, thrown, 'SchemaParser/destructor')
    for flag, kind in (('copies', 'copyctor'), ('assigns', 'assign')):
        own = [m for m in rec['methods'] if m['kind'] == kind or kind == 'assign' and m['n'] == 'operator=']
        if rec[flag] or any(m['defaulted'] and not m['deleted'] and '&&' not in m['params'][0] for m in own):
            res.violation('SchemaParser/' + kind, rec['loc'], 'SchemaParser: a copy shares the constraint builders that both objects delete', [])
        else:
            res.unit('SchemaParser: ' + kind, 1)


class Builders(Parser):
    """Constraints made by the builders of the user."""

    def hook(self, E, st, c, this, args, node):
        if c.get('cls') == 'ConstraintBuilder' and c['n'] == 'make':
            s2 = st.copy()
            s2.note(node.get('l', ''), 'the builder throws')
            E.throw(s2, ('exc', 'a type of the user', UNDEF))
        if c['n'] in ('addConstraintToSubschema', 'addConstraint') and c.get('cls') in ('Schema', 'Subschema'):
            s2 = st.copy()
            s2.note(node.get('l', ''), 'adding the constraint throws')
            E.throw(s2, BAD)
        return Parser.hook(self, E, st, c, this, args, node)

    def on_delete(self, E, st, v, node):
        if v != NULL:
            if v[0] == 'ptr' and v[1][0][0] == 'sym':
                v = v[1][0][1]
            self.event(st, ('delete', v))

    def on_scope_exit(self, E, st, root, v):
        if v[0] == 'obj' and v[1] == 'uptr' and getf(v, 'p') not in (NULL, UNDEF):
            self.on_delete(E, st, getf(v, 'p'), {})

    def on_reset(self, E, st, v, node):
        self.on_scope_exit(E, st, None, v)

    def on_unwind(self, E, st, fr):
        for r in [r for r in st.store if r[0] in ('v', 'tmp', 'ext') and r[1] == fr.depth]:
            if r in st.store:
                self.on_scope_exit(E, st, r, st.store.pop(r))

    def event(self, st, ev):
        self.nevents += 1
        if ev[0] in ('build', 'delete', 'addc'):
            st.mon['own'] = st.mon.get('own', ()) + (ev,)

    def iteration(self, E, st, coll, pos, evs):
        self.its += 1
        self.balance(st, st.mon.get('own', ()), False)
        st.mon['own'] = ()

    def balance(self, st, evs, threw):
        built = [e[1] for e in evs if e[0] == 'build']
        gone = [e[1] for e in evs if e[0] == 'delete']
        for b in built:
            k = gone.count(b)
            if k != 1:
                self.report('builder', self.where, 'a constraint made by a builder is released %d times%s' % (k, ' when parsing fails' if threw else ''), st)
            if not threw:
                a = [e for e in evs if e[0] == 'addc']
                if len(a) != 1 or a[0][1] != b:
                    self.report('builder added', self.where, 'a constraint made by a builder is not added to the schema', st)
                elif evs.index(a[0]) > evs.index(('delete', b)) if ('delete', b) in evs else False:
                    self.report('builder late', self.where, 'a constraint made by a builder is added after it is released', st)
        for g in gone:
            if g not in built:
                self.report('builder other', self.where, 'something else is deleted: %s' % show(g)[:60], st)


def builders(res, prog):
    a = lenient_adapter(prog)
    c = Builders(prog, D7, {}, custom=True)

    def setup(E, st):
        parse.kindfacts(st, parse.NODE, 'Object')
        st.store[('sym', parse.SCOPE)] = obj('opt', has=FALSE)
    E, outs, thrown = run_populate(prog, a, c, setup)
    n = 0
    for (s, v), threw in [(o, False) for o in outs] + [(t[:2], True) for t in thrown]:
        if s.taint:
            res.undec('populateSchema: %s' % sorted(s.taint)[0])
            continue
        evs = s.mon.get('own', ())
        n += any(e[0] == 'build' for e in evs)
        c.balance(s, evs, threw)
    for k, l, m, t in sorted(c.viol, key=str):
        res.violation(k, l, m, list(t))
    res.unit('constraint builders: %d paths, %d iterations' % (len(outs) + len(thrown), c.its), len(outs) + len(thrown))
    if not c.its:
        res.undec('no iteration over the constraint builders')


def owners(res, tier):
    prog = ir.load()
    clones(res, prog)
    deleter(res, prog)
    holders(res, prog)
    schemas(res, prog)
    allocators(res, prog)
    parsers(res, prog)
    builders(res, prog)
