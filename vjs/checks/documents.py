"""Documents fetched for references: fetched once, kept, freed exactly once."""
from ..engine import *
from ..visitor import *
from ..models import strv, val
from .. import ir
from .parse import *
from . import refs
from .refs import Refs, known, bare, run

FREE = T('freeDoc')
FILLED = T('filledCache')


# ---------------------------------------------------- fetching and remembering
def fetching(res, prog, a):
    n = 0
    for name in ('makeOrReuseSchema', 'resolveThenPopulateSchema'):
        for scope in (True, False):
            try:
                c, E, outs, thrown = run(prog, a, name, 11, D7, scope)
            except TooBig as e:
                res.undec('%s: %s' % (name, e))
                continue
            ends = [(s, False) for s, v in outs] + [(t[0] if isinstance(t, tuple) else t, True) for t in thrown]
            for st, threw in ends:
                evs = st.mon.get('top', ())
                fs = [e for e in evs if e[0] == 'fetch']
                if not fs or st.taint:
                    continue
                n += 1
                fetched(res, c, E, st, name, fs, threw, evs)
            res.unit('%s (%s scope): %d paths with a fetch' % (name, 'with' if scope else 'without', n), n)
    if not n:
        res.undec('no path fetches a document')


def fetched(res, c, E, st, name, fs, threw, evs):
    def bad(k, m):
        res.violation('%s/%s' % (name, k), c.where, '%s: %s' % (name, m), st.path())
    if len(fs) > 1:
        return bad('twice', 'a document is fetched twice for one reference')
    u = fs[0][1]
    d = T('fetched', u)
    if not any(f is False and x[:3] == T('has', DOCS) and x[3] == u for x, f in st.facts.items()):
        bad('again', 'a document is fetched without looking whether it was fetched before')
    f = nonnull(E, st, FETCH)
    if f is not True:
        bad('no function', 'the fetch function is called without one being given')
    notnull = nonnull(E, st, T('&', d))
    failed = any('fetch function throws' in m for _, m in st.path()[-1:]) or threw and notnull is None
    got = st.mon.get(('fetchresult', u))
    if got == 'throw':
        return
    kept = [e for e in evs if e[0] == 'keep']
    if got == 'null':
        if not threw:
            bad('null', 'a document that could not be fetched is used')
        if kept:
            bad('null kept', 'a document that could not be fetched is remembered')
        return
    if len(kept) != 1 or kept[0][1] != u or kept[0][2] != d:
        bad('kept', 'a fetched document is not remembered under its URI%s' % (': ' + show(kept[0][1])[:80] if kept else ''))


def nonnull(E, st, v):
    for x in (v, T('nonnull', v)):
        f = known(E, st, x)
        if f is not None:
            return f
    f = known(E, st, T('has', v))
    return f


# ------------------------------------------------------------------- releasing
class Owner(Refs):
    """The entry point: parsing is one event that fills the cache."""

    def hook(self, E, st, c, this, args, node):
        n, cls = c['n'], c.get('cls')
        if cls == 'SchemaParser' and n in ('resolveThenPopulateSchema', 'makeOrReuseSchema', 'populateSchema') and E.frames and len(args) > 5:
            d = self.argmap(E, st, c, args)
            st = st.copy()
            dc = d['docCache']
            self.event(st, ('parse', bare(dc), self.snapv(E, st, d['fetchDoc']), self.snapv(E, st, dc), self.snapv(E, st, d['node']), self.snapv(E, st, d['rootNode']),
                            self.snapv(E, st, d['currentScope']), strv(E, st, d['nodePath'])))
            if self.snapv(E, st, d['fetchDoc']) == FETCH:
                E.storev(st, dc[1], FILLED, node)
            # of the parser, or whatever the functions of the user throw
            for x in ('std::runtime_error', 'a type of the user'):
                s2 = st.copy()
                s2.note(node.get('l', ''), 'parsing throws')
                E.throw(s2, ('exc', x, T('theException')))
            return [(st, UNDEF)]
        if (c['sq'] == 'std::function::operator()' or n == 'operator()') and this is not None and self.snapv(E, st, this) == FREE:
            st = st.copy()
            self.event(st, ('free', bare(args[0])))
            self.sites.add((node.get('l'), 'free'))
            return [(st, UNDEF)]
        return Refs.hook(self, E, st, c, this, args, node)

    def iteration(self, E, st, coll, pos, evs):
        self.its += 1
        fr = [e[1] for e in evs if e[0] == 'free']
        if coll == FILLED:
            want = bare(T('.', 'second', T('elem', coll, pos)))
            if fr != [want]:
                self.report('free', self.where, 'a fetched document is freed %d times%s' % (len(fr), ' (%s)' % show(fr[0])[:80] if fr else ''), st)
            st.mon['freed'] = st.mon.get('freed', 0) + (1 if pos == I(0) else 0)
        elif fr:
            self.report('free other', self.where, 'something else than the fetched documents is freed: %s' % show(coll)[:60], st)


def releasing(res, prog, a):
    f = None
    for g in prog.by_q.get('valijson::SchemaParser::populateSchema', ()):
        if g.get('body') is not None and len(g['params']) == 4 and any(a in t for t in g.get('targs') or ()):
            f = g
    res.need(f is not None, 'populateSchema')
    for hf in (True, False):
        for hr in (True, False):
            c = Owner(prog, D7, f)
            c.where = f['loc']
            st = State()
            E = Engine(prog, c)
            this = ptr(('sym', T('parser')))
            st.store[('sym', T('parser'))] = obj('SchemaParser', m_version=I(int(version_value(prog, D7))), constraintBuilders=BUILDERS)
            names = {'node': ptr(('sym', ROOTN)), 'schema': SCHEMA, 'fetchDoc': FETCH if hf else NULL, 'freeDoc': FREE if hr else NULL}
            for x, h in ((FETCH, hf), (FREE, hr)):
                st.facts[T('nonnull', x)] = h
            vals = [names.get(p.get('n'), UNDEF) for p in f['params']]
            outs, thrown = E.run(f, st, this, vals)
            for k, l, m, t in c.viol:
                res.violation(k, l, m, t)
            ends = [(s, False, v) for s, v in outs] + [(t[0], True, t[1]) for t in thrown]
            for s, threw, v in ends:
                owned(res, c, E, s, threw, v, hf, hr, f)
            res.unit('populateSchema (%s fetch function, %s free function): %d paths, %d iterations' % ('with' if hf else 'without', 'with' if hr else 'without', len(ends), c.its), len(ends) + c.its)


def owned(res, c, E, st, threw, v, hf, hr, f):
    def bad(k, m):
        res.violation(k, f['loc'], 'populateSchema: ' + m, st.path())
    if st.taint:
        return res.undec('populateSchema: %s' % sorted(st.taint)[0])
    evs = st.mon.get('top', ())
    ps = [e for e in evs if e[0] == 'parse']
    if hf != hr:
        if ps or not threw:
            bad('half', 'parsing starts with a %s function but no %s function' % (('fetch', 'free') if hf else ('free', 'fetch')))
        return
    if len(ps) != 1:
        return bad('parse', 'the schema is parsed %d times' % len(ps))
    p = ps[0]
    if p[2] != (FETCH if hf else NULL):
        bad('function', 'parsing is not given the fetch function')
    if mentions(p[3], lambda x: x == FILLED) or p[3] == FILLED:
        bad('cache', 'parsing starts with documents of another run')
    if p[4:] != (ROOTN, ROOTN, obj('opt', has=FALSE), S('')):
        bad('root', 'parsing does not start at the root of the schema, without scope')
    failed = any(m == 'parsing throws' for _, m in st.path())
    if failed and not threw:
        bad('swallowed', 'an exception is not passed on')
    if not failed and threw:
        bad('throws', 'an exception is thrown although parsing succeeded')
    if hr:
        emp = E.known_empty(st, FILLED)
        if not emp and not st.mon.get(('end', FILLED)):
            bad('leak', 'the fetched documents are not freed when parsing %s' % ('fails' if failed else 'succeeds'))
        if not emp and st.mon.get('freed', 0) > 1:
            bad('double', 'the fetched documents are freed twice')


def documents(res, tier):
    prog = ir.load()
    a = lenient_adapter(prog)
    fetching(res, prog, a)
    releasing(res, prog, a)
