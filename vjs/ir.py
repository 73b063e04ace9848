"""Loading and indexing of the exported program (see tool/export.cpp)."""
import json, os, re, subprocess, hashlib, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VJS_REPO', '/repo')


def strip_targs(q):
    """std::vector<int>::push_back -> std::vector::push_back (keeps operators)."""
    m = re.search(r'operator\s*(\(\)|\[\]|->\*?|<=>|<<=?|>>=?|<=?|>=?|[-+*/%^&|~!=]=?|\w.*)$', q)
    tail = ''
    if m and (m.start() == 0 or q[m.start() - 1] == ':'):
        tail = q[m.start():]
        q = q[:m.start()]
    out = []
    d = 0
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out) + tail


class AnalysisError(Exception):
    """The analysis itself cannot proceed (vanished anchor, unparsable code)."""


def flags():
    with open(os.path.join(VERIF, 'drivers', 'flags.txt')) as f:
        return f.read().split()


def export(driver, extra=(), exceptions=True, out=None):
    exe = os.path.join(VERIF, 'build', 'vjx')
    if not os.path.exists(exe):
        subprocess.check_call(['bash', os.path.join(VERIF, 'tool', 'build.sh'), os.path.join(VERIF, 'build')])
    out = out or os.path.join(VERIF, 'build', 'ir-%d.json' % os.getpid())
    cmd = [exe, REPO + '/', out, os.path.join(VERIF, 'drivers', driver), '--'] + flags() + \
          ['-DVALIJSON_USE_EXCEPTIONS=%d' % (1 if exceptions else 0), '-I' + REPO + '/include', '-I' + os.path.join(VERIF, 'stubs')] + list(extra)
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise AnalysisError('the source does not parse: ' + p.stderr[-3000:])
    try:
        with open(out) as f:
            return json.load(f)
    finally:
        os.unlink(out)


def walk(n):
    """All dict nodes below n, pre-order."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(reversed(list(x.values())))
        elif isinstance(x, list):
            stack.extend(reversed(x))


class Program:
    def __init__(self, data):
        self.functions = data['functions']
        self.records = data['records']
        self.vars = data['vars']
        self.unknown = data['unknown']
        self.by_cls = {}
        self.by_q = {}
        n = 0
        for fid, f in self.functions.items():
            f['id'] = fid
            f['sq'] = strip_targs(f['q'])
            self.by_q.setdefault(f['sq'], []).append(f)
            if 'clst' in f:
                self.by_cls.setdefault(f['clst'], []).append(f)
            for x in walk([f.get('body'), f.get('inits')]):
                n += 1
                x['nid'] = n
                c = x.get('callee')
                if c is not None:
                    c['sq'] = strip_targs(c['q'])
        for v in self.vars.values():
            if v and v.get('init') is not None:
                for x in walk(v['init']):
                    n += 1
                    x['nid'] = n
                    c = x.get('callee')
                    if c is not None:
                        c['sq'] = strip_targs(c['q'])
        self.overriders = {}
        for f in self.functions.values():
            for o in f.get('ov', ()):
                self.overriders.setdefault(o, []).append(f['id'])
        for r in self.records.values():
            for m in r['methods']:
                for o in m['ov']:
                    l = self.overriders.setdefault(o, [])
                    if m['id'] not in l:
                        l.append(m['id'])
        self.derived = {}
        for t, r in self.records.items():
            for b in r['bases']:
                self.derived.setdefault(b['t'], []).append(t)

    def bases(self, t):
        """Transitive base class type names of record type t."""
        out = []
        todo = [t]
        while todo:
            x = todo.pop()
            r = self.records.get(x)
            if not r:
                continue
            for b in r['bases']:
                if b['t'] not in out:
                    out.append(b['t'])
                    todo.append(b['t'])
        return out

    def subclasses(self, t):
        out = []
        todo = [t]
        while todo:
            x = todo.pop()
            for d in self.derived.get(x, ()):
                if d not in out:
                    out.append(d)
                    todo.append(d)
        return out

    def rec(self, name):
        """Records whose short name is `name`."""
        return [(t, r) for t, r in self.records.items() if r['n'] == name]

    def methods(self, clst, name=None):
        return [f for f in self.by_cls.get(clst, ()) if name is None or f['n'] == name]

    def resolve_virtual(self, clst, fid):
        """Final overrider of method fid in class clst (function id) or None."""
        todo = [clst]
        while todo:
            t = todo.pop(0)
            r = self.records.get(t)
            if not r:
                continue
            for m in r['methods']:
                if m['id'] == fid or self._overrides(m, fid):
                    return m['id']
            todo.extend(b['t'] for b in r['bases'])
        return None

    def _overrides(self, m, fid, seen=None):
        for o in m['ov']:
            if o == fid:
                return True
            mm = self.method_by_id(o)
            if mm and self._overrides(mm, fid):
                return True
        return False

    def method_by_id(self, fid):
        if not hasattr(self, '_mid'):
            self._mid = {m['id']: m for r in self.records.values() for m in r['methods']}
        return self._mid.get(fid)


_cache = {}


def load(driver='all.cpp', **kw):
    key = (driver, tuple(sorted(kw.items())))
    if key in _cache:
        return _cache[key]
    pk = os.environ.get('VJS_IR')   # development only: reuse an exported file
    if pk and not kw and driver == 'all.cpp':
        with open(pk) as f:
            data = json.load(f)
    else:
        data = export(driver, **kw)
    p = Program(data)
    if p.unknown:
        print('note: unmodelled syntax', p.unknown)
    _cache[key] = p
    return p
