"""Rendering of error locations: every segment, in order, escaped (RFC 6901)."""
from ..engine import *
from ..visitor import *
from .. import ir
from .visit import rels

STR_APPEND = ('append', 'push_back', 'operator+=')


class Render(VCheck):
    texts = True            # accumulated texts stay recognisable

    def __init__(self, prog, f):
        VCheck.__init__(self, prog)
        self.reset()
        self.f = f
        self.iters = 0

    def hook(self, E, st, c, this, args, node):
        q = c['sq']
        if q.startswith('std::basic_string::') and c['n'] in STR_APPEND and args:
            st = st.copy()
            self.event(st, ('app', val(E, st, args[0]), this))
            return self.passthru(E, st, c, this, args, node)
        if q.startswith('std::vector::') and c['n'] in ('push_back', 'emplace_back') and args:
            v = val(E, st, args[0])
            st = st.copy()
            self.event(st, ('push', v, True))
            return self.passthru(E, st, c, this, args, node)
        return None

    def event(self, st, ev):
        self.nevents += 1
        cur = [k for k in st.mon if k[0] == 'cur']
        if cur:
            st.mon[cur[-1]] = st.mon[cur[-1]] + (ev,)

    def elem(self, E, st, coll, pos):
        r = VCheck.elem(self, E, st, coll, pos)
        for s, k in r:
            s.mon[('cur', coll, pos)] = ()
        return r

    def elems_end(self, E, st, coll, pos):
        if coll == PATH and not st.mon.get(('cover', coll), pos == I(0)):
            self.report('render', self.f['loc'], 'the segments of a path are not all rendered: a traversal passes over some', st)
        return VCheck.elems_end(self, E, st, coll, pos)

    def iteration(self, E, st, coll, pos, evs):
        self.iters += 1
        el = T('elem', coll, pos)
        apps = [e[1] for e in evs if e[0] == 'app']
        pushes = [e[1] for e in evs if e[0] == 'push']
        if coll[0] == 't' and coll[1] == '.' and coll[2] == 'name' and (apps or not pushes):
            # one character of a segment name
            st.mon['into'] = [e[2] for e in evs if e[0] == 'app'][-1:] and [e[2] for e in evs if e[0] == 'app'][-1]
            cases = []
            for code, want in ((126, S('~0')), (47, S('~1'))):
                if '=' in rels(st, el, I(code)) and rels(st, el, I(173 - code)) != ['=']:
                    cases.append((want, 'the character %r' % chr(code)))
            if len(cases) != 1 or rels(st, el, I(126)) != ['='] and rels(st, el, I(47)) != ['=']:
                cases.append((el, 'a character other than ~ and /'))
            for want, what in cases:
                if apps != [want]:
                    self.report('render', self.f['loc'], '%s of a segment is rendered as %s in the JSON Pointer' % (what, [show(a) for a in apps]), st)
        elif coll == PATH:
            kind, name = T('.', 'kind', el), T('.', 'name', el)
            k = rels(st, kind, I(1))
            for v in pushes:
                want = []
                if '=' in k:
                    want.append(cat3(S('["'), name, S('"]')))
                if '<' in k or '>' in k:
                    want.append(cat3(S('['), name, S(']')))
                for w in want:
                    if v != w:
                        self.report('render', self.f['loc'], 'a segment is rendered as %s in the context instead of %s' % (show(v), show(w)), st)
            if not pushes:
                self.token(E, st, name, [e for e in evs if e[0] == 'app'])

    def token(self, E, st, name, evs):
        """What is appended for one segment: / and the escaped name."""
        parts = []
        for e in evs:
            v = e[1]
            for x in v[2:] if v[:2] == ('t', 'cat') else (v,):
                if x == I(47):
                    x = S('/')
                if parts and parts[-1][0] == 's' and x[0] == 's':
                    x = S(parts.pop()[1] + x[1])
                parts.append(x)
        empty = E.known_empty(st, name)
        bad = lambda m: self.report('render', self.f['loc'], m, st)
        if not parts or parts[0][0] != 's' or parts[0][1][:1] != '/':
            return bad('a segment is not introduced by / in the JSON Pointer')
        rest = ([S(parts[0][1][1:])] if parts[0][1][1:] else []) + parts[1:]
        if name in rest:
            return bad('the name of a segment is not escaped in the JSON Pointer')
        if empty:
            if any(x != S('') for x in rest):
                bad('%s is rendered for a segment without a name' % [show(x) for x in rest])
        elif not st.mon.get(('end', name)):
            bad('the name of a segment is missing from the JSON Pointer')
        elif len(rest) > 1:
            bad('a segment is rendered as %s in the JSON Pointer' % [show(x) for x in parts])
        elif not rest and st.mon.get('into') not in [e[2] for e in evs]:
            bad('the name of a segment is missing from the JSON Pointer')


def cat3(*xs):
    v = xs[0]
    for x in xs[1:]:
        v = cat(v, x)
    return v


def rendering(res):
    prog = ir.load()
    n = 0
    for t, r in prog.rec('ValidationResults'):
        for f in prog.methods(t, 'pushError'):
            if f.get('body') is None:
                continue
            n += 1
            c = Render(prog, f)
            st = State()
            E = Engine(prog, c)
            this = ptr(('sym', T('res')))
            if len(f['params']) == 2:
                args = [ptr(('sym', PATH)), ptr(('sym', T('desc')))]
            else:
                args = [ptr(('sym', T('err')))]
            try:
                outs, thrown = E.run(f, st, this, args)
            except AnalysisError as e:
                res.undec('rendering: %s' % e)
                continue
            for k, loc, msg, tr in c.viol:
                res.violation(msg, loc, msg, tr)
            for u in c.undecided:
                res.undec('rendering: ' + u[2])
            for s, v in outs:
                if s.taint:
                    continue
                sink = getf(E.load(s, this[1]), 'm_errors')
                msg = None
                if not (sink[0] == 't' and sink[1] == 'push' and sink[2] == T('.', 'm_errors', T('res'))):
                    msg = 'recording an error does not append it to the list of errors'
                elif len(args) == 1:
                    if sink[3] != T('err'):
                        msg = 'another error than the given one is appended'
                elif sink[3][0] == 'obj':
                    e = sink[3]
                    if getf(e, 'description') != T('desc'):
                        msg = 'the description recorded is %s' % show(getf(e, 'description'))[:80]
                    p = getf(e, 'jsonPointer')
                    first = p if p[0] == 's' else p[2] if p[0] == 't' and p[1] == 'cat' else None
                    if first is not None and first[0] == 's' and first[1] and first[1][0] != '/':
                        msg = 'a JSON Pointer that does not start with / is recorded'
                    if p == S('') and not E.known_empty(s, PATH):
                        msg = 'an empty JSON Pointer is recorded for a non-empty path'
                if msg:
                    res.violation(msg, f['loc'], msg, s.path())
            res.unit('%s(%d arguments): %d paths, %d loop iterations' % (f['q'], len(args), len(outs), c.iters), len(outs) + c.iters)
        for f in prog.methods(t, 'popError'):
            n += 1
            pop(res, prog, f)
    res.need(n, 'recording of errors')


def pop(res, prog, f):
    E = Engine(prog, Check())
    st = State()
    this = ptr(('sym', T('res')))
    outs, thrown = E.run(f, st, this, [ptr(('sym', T('err')))])
    for s, v in outs:
        for s2, b in E.truth(s, v):
            sink = getf(E.load(s2, this[1]), 'm_errors')
            if not b and sink != T('.', 'm_errors', T('res')):
                res.violation('pop changes', f['loc'], 'taking an error from an empty list changes it', s2.path())
            emp = E.known_empty(s2, T('.', 'm_errors', T('res')))
            if b and emp or not b and not emp:
                res.violation('pop verdict', f['loc'], 'taking an error reports %s although the list is %s' % (b, 'empty' if emp else 'not empty'), s2.path())
            if b and sink == T('.', 'm_errors', T('res')):
                res.violation('pop keeps', f['loc'], 'an error taken from the list stays in it', s2.path())
    res.unit(f['q'], len(outs))
