"""Parsing never uses an object that is absent (C28).

The functions of the parser, of reference resolution, of JSON pointers and of
URIs are interpreted as for their own specifications; here only the places
are judged at which an object is used through a pointer, an iterator or an
optional (VCheck.deref)."""
import multiprocessing as mp
import os
from .. import ir, visitor
from ..engine import show
from ..ir import AnalysisError
from . import lookups, parse, pointers, refs, uris


class Quiet:
    """What the specifications of those functions say is reported by their own
    checks; that something could not be decided matters here as well."""

    def __init__(self, res):
        self.res = res

    def undec(self, what):
        self.res.undec(what)

    def need(self, n, what):
        self.res.need(n, what)

    def unit(self, *a):
        pass

    def count(self, *a):
        pass

    def violation(self, *a):
        pass


class Places:
    def __init__(self):
        self.absent, self.maybe, self.used, self.tested = {}, {}, set(), set()

    def add(self, c):
        for k, t in c.absent.items():
            self.absent.setdefault(k, t)
        for k, t in c.maybe.items():
            if t is not None:
                self.maybe.setdefault(k, t)
        self.used |= c.used
        self.tested |= c.tested

    def judge(self, res, what):
        for (l, why), tr in sorted(self.absent.items(), key=lambda x: x[0]):
            res.violation('%s uses %s' % (what, why), l, '%s: %s is used' % (what, why), tr)
        for (v, l), tr in sorted(self.maybe.items(), key=lambda x: x[0][1]):
            if v in self.tested:
                res.violation('%s uses %s' % (what, show(v)), l, '%s: %s is used on a path on which it has not been shown to be present' % (what, show(v)), tr)


_work = {}


def _one(i):
    prog, adapter, items = _work['x']
    ver, present, empty = items[i]
    try:
        c, _, _ = parse.run_scenario(prog, adapter, ver, present, False, False, empty)
    except AnalysisError as e:
        return i, str(e), None
    p = Places()
    p.add(c)
    return i, sorted(str(u[2] if len(u) > 2 else u) for u in c.undecided if u[0] in ('absent', 'taint')), p


def keywords(res, prog, adapter, tier):
    """populateSchema for schemas with and without each keyword."""
    items = [x for x in parse.scenarios(tier)]
    _work['x'] = (prog, adapter, items)
    p = Places()
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        for i, und, q in pool.imap_unordered(_one, range(len(items)), chunksize=16):
            if q is None:
                res.undec('%s: %s' % (items[i][0], und))
                continue
            for u in und:
                res.undec('%s: %s' % (items[i][0], u))
            p.add(q)
    p.judge(res, 'parsing a schema object')
    res.need(len(p.used), 'objects used by populateSchema')
    res.unit('%s: %d scenarios, %d places' % (adapter, len(items), len(p.used)), len(items))


# the parser passes either both or neither
NOBODY = parse.ABSENT[:1]


def collect(job):
    live = []
    reset = visitor.VCheck.reset

    def recording(self):
        reset(self)
        live.append(self)
    visitor.VCheck.reset = recording
    try:
        job()
    finally:
        visitor.VCheck.reset = reset
    return live


def parsing(res, tier):
    prog = ir.load()
    a = parse.lenient_adapter(prog)
    keywords(res, prog, a, tier)
    q = Quiet(res)
    jobs = [('resolving a reference', lambda: refs.references(q, tier)),
            ('deriving paths and scopes', lambda: lookups.lookups(q, tier)),
            ('following a JSON pointer', lambda: pointers.steps(q, prog, tier)),
            ('parsing a schema that is not an object', lambda: parse.nonobject(q, prog, a, NOBODY)),
            ('parsing a schema without an owner', lambda: parse.unowned(q, prog, a, NOBODY)),
            ('applying the builders of the user', lambda: parse.builders(q, prog, a)),
            ('resolving a URI', lambda: uris.uris(q, tier))]
    for what, job in jobs:
        try:
            live = collect(job)
        except AnalysisError as e:
            res.undec('%s: %s' % (what, e))
            continue
        p = Places()
        for c in live:
            p.add(c)
            for u in c.undecided:
                if u[0] == 'absent':
                    res.undec('%s: %s' % (what, u[2]))
        p.judge(res, what)
        res.need(len(live), what)
        res.unit('%s: %d interpretations, %d places' % (what, len(live), len(p.used)), len(live))
