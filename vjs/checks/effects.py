"""What validation may modify: effect analysis over the call graph.

Every modification (assignment, call of a non-const member function, argument
bound to a non-const reference or pointer) in every function reachable from the
validator is traced to the object it modifies."""
import re
from .. import ir

# values of the JSON libraries; HANDLE: copies share the document
VALUE = re.compile(r'\b(nlohmann::basic_json|Json::Value|rapidjson::Generic|QJson\w+|QVariant|QList|QMap|Poco::\w|YAML::Node|boost::json|basic_ptree|picojson::value|json11::Json)')
HANDLE = re.compile(r'^(const )?(YAML::Node|Poco::(SharedPtr|AutoPtr)<.*|Poco::JSON::(Array|Object)::Ptr)$')
SCHEMA = re.compile(r'\bvalijson::(Schema|Subschema|constraints::\w*Constraint|adapters::FrozenValue)\b')
SYNC = re.compile(r'std::(mutex|shared_mutex|recursive_mutex|atomic|once_flag|shared_timed_mutex)')
# compiled expressions, by pattern
CACHES = re.compile(r'^(const )?std::(unordered_)?map<std::(__cxx11::)?basic_string<char>, (valijson::DefaultRegexEngine|std::(__cxx11::)?basic_regex<char>)')
# answers that differ from call to call, or state of the process
CALLS = {'rand': 'random numbers', 'srand': 'random numbers', 'random': 'random numbers', 'rand_r': 'random numbers', 'time': 'the clock', 'clock': 'the clock', 'now': 'the clock',
         'getenv': 'the environment', 'setenv': 'the environment', 'putenv': 'the environment', 'setlocale': 'the locale', 'strtok': 'state shared by all callers',
         'localtime': 'state shared by all callers', 'gmtime': 'state shared by all callers', 'asctime': 'state shared by all callers', 'ctime': 'state shared by all callers',
         'exit': 'the process', '_Exit': 'the process', 'quick_exit': 'the process'}
CALLSQ = re.compile(r'^(std::|::)?(%s)$|^std::chrono::.*::now$|^std::locale::global$|^std::random_device::' % '|'.join(c for c in CALLS if c != 'now'))


def pointee(t):
    t = t.strip()
    t = re.sub(r'\s*const$', '', t)
    return t[:-1].strip() if t.endswith('*') else t


def is_const(t):
    t = t.strip().rstrip('&').strip()
    return t.endswith('const') if t.endswith(('*', '*const', '* const')) or t.endswith('const') else t.startswith('const ')


class Effects:
    def __init__(self, prog):
        self.p = prog

    # ------------------------------------------------------------ call graph
    def targets(self, i):
        todo, got = [i], set()
        while todo:
            x = todo.pop()
            if x not in got:
                got.add(x)
                todo.extend(self.p.overriders.get(x, ()))
        return got

    def own(self, i):
        f = self.p.functions.get(i)
        return f is not None and 'include/valijson/' in f.get('loc', '')

    def edges(self, f):
        out = set()
        for nd in ir.walk([f.get('body'), f.get('inits')]):
            c = nd.get('callee')
            if isinstance(c, dict) and 'id' in c:
                out |= self.targets(c['id']) if c.get('virt') and not nd.get('qualified') else {c['id']}
                if nd['k'] == 'ctor':
                    r = self.p.records.get(c.get('clst'))
                    if r:
                        out |= {m['id'] for m in r['methods'] if m.get('kind') == 'dtor'}
        return {i for i in out if self.own(i)}

    def reach(self, starts):
        got, todo = {}, [(s, None) for s in starts]
        while todo:
            x, by = todo.pop()
            if x in got:
                continue
            got[x] = by
            todo.extend((y, x) for y in self.edges(self.p.functions[x]))
        return got

    def path(self, got, i):
        out = []
        while i is not None and len(out) < 40:
            f = self.p.functions[i]
            out.append((f['loc'], 'in ' + f['q'][:120]))
            i = got[i]
        return list(reversed(out))

    # ----------------------------------------------------------------- roots
    def writes(self, f):
        """(node, modified lvalue) of every modification."""
        for nd in ir.walk([f.get('body'), f.get('inits')]):
            k = nd.get('k')
            if k in ('asg', 'asgop'):
                yield nd, nd['a'], False
            elif k == 'un' and nd['op'] in ('++', '--'):
                yield nd, nd['e'], False
            elif k == 'delete':
                yield nd, nd['e'], True
            elif k in ('mcall', 'opcall', 'call', 'ctor'):
                c = nd.get('callee')
                if not c:
                    continue
                args = list(nd.get('args') or ())
                if k == 'mcall':
                    if not c.get('const') and not c.get('static') and nd.get('obj') is not None:
                        yield nd, nd['obj'], bool(nd.get('arrow'))
                elif k == 'opcall' and c.get('cls') and not c.get('static') and len(args) == len(c['params']) + 1:
                    if not c.get('const'):
                        yield nd, args[0], False
                    args = args[1:]
                for t, a in zip(c['params'], args):
                    if t.endswith('&') and not t.endswith('&&') and not is_const(t):
                        yield nd, a, False
                    elif t.endswith('*') and not is_const(pointee(t)):
                        yield nd, a, True
            elif k == 'lambda':
                pass

    def roots(self, f, e, ptr, decls, depth=0):
        """The objects an lvalue (or, with ptr, the pointee of a pointer) belongs to."""
        if e is None or depth > 40:
            return
        k, t = e.get('k'), e.get('t') or ''
        r = lambda x, p: self.roots(f, x, p, decls, depth + 1)
        if k == 'cast':
            if e.get('style') in ('const', 'reinterpret') or e.get('style') == 'c':
                yield ('cast', e)
            if e.get('ck') == 'ArrayToPointerDecay':
                yield from r(e['e'], False)
            elif e.get('ck') == 'LValueToRValue' and not ptr:
                return
            else:
                yield from r(e['e'], ptr)
        elif k == 'mat':
            yield from r(e.get('e'), ptr)
        elif k == 'this':
            yield ('this', f.get('cls'))
        elif k == 'ref':
            if e.get('dk') in ('static', 'global') and (not ptr or True):
                yield ('static', e)
                return
            d = decls.get(e.get('d'))
            if e.get('dk') == 'param':
                yield ('param', t)
            elif d is not None and (d.get('ref') or ptr) and d.get('init') is not None:
                yield from r(d['init'], ptr)
                if ptr and VALUE.search(t) and HANDLE.match(t):
                    yield ('handle', t)
            else:
                yield ('local', t)
        elif k == 'mem':
            if e.get('mut'):
                yield ('mutable', e)
                return
            if ptr or e.get('refty'):
                yield ('field', e)
            yield from r(e.get('base'), bool(e.get('arrow')))
        elif k == 'un' and e['op'] == '*':
            yield from r(e['e'], True)
        elif k == 'un' and e['op'] == '&':
            yield from r(e['e'], False)
        elif k in ('bin',):
            yield from r(e['a'], ptr)
        elif k == 'cond':
            yield from r(e['a'], ptr)
            yield from r(e['b'], ptr)
        elif k == 'index':
            yield from r(e['a'], True)
        elif k in ('asg', 'asgop'):
            yield from r(e['a'], ptr)
        elif k == 'opcall' and e.get('args'):
            yield from r(e['args'][0], e.get('op') in ('->', '*') or ptr)
        elif k == 'mcall':
            if e.get('obj') is not None:
                yield from r(e['obj'], bool(e.get('arrow')) or ptr)
        elif k == 'call':
            for a in e.get('args') or ():
                yield from r(a, ptr)
        elif k == 'new':
            yield ('local', t)
        elif k == 'ctor':
            yield ('local', t)
        else:
            yield ('local', t)


def judge(res, e, got, what, schema):
    """`schema`: schemas are among the things that may not change."""
    p = e.p
    said = set()

    def bad(key, loc, msg, i):
        if (loc, msg) not in said:
            said.add((loc, msg))
            res.violation('%s: %s' % (what, key), loc, msg, e.path(got, i))
    per = {}
    for i in sorted(got):
        f = p.functions[i]
        fl = [f.get('body'), f.get('inits')]
        decls = {v['id']: v for v in ir.walk(fl) if 'id' in v and 'init' in v and 'n' in v and 'vt' not in v}
        u = per.setdefault(f['sq'].rsplit('::', 1)[0], [0, 0])
        u[0] += 1
        for nd in ir.walk(fl):
            c = nd.get('callee')
            if isinstance(c, dict) and nd.get('k') in ('call', 'mcall', 'opcall', 'ctor') and not c.get('root') and CALLSQ.search(c.get('sq', '')):
                bad('call', nd.get('l', f['loc']), '%s, called during %s, depends on or changes %s' % (c['sq'], what, CALLS.get(c['n'], 'state shared by all callers')), i)
            for v in nd.get('vars', ()) if nd.get('k') == 'decl' else ():
                if not v.get('static') or v.get('init') is None:
                    continue
                inner = {x['id'] for x in ir.walk(v['init']) if 'id' in x and 'callee' not in x}
                for x in ir.walk(v['init']):
                    if x.get('k') == 'this' or x.get('k') == 'ref' and x.get('dk') in ('param', 'var') and x.get('d') not in inner:
                        bad('static ' + v['n'], v.get('l', f['loc']), 'the static variable %s of %s keeps the value computed from the arguments of the first call' % (v['n'], f['n']), i)
                        break
        for nd, target, ptr in e.writes(f):
            u[1] += 1
            where = nd.get('l', f['loc'])
            for r in e.roots(f, target, ptr, decls):
                if r[0] == 'static':
                    v = p.vars.get('v%s' % r[1].get('d')) or p.vars.get(str(r[1].get('d'))) or {}
                    t = v.get('t') or r[1].get('vt', '')
                    if SYNC.search(t):
                        continue
                    if not v.get('root', True) or is_const(t):
                        continue            # std::cerr and the like; constants
                    bad('static ' + r[1]['n'], where, '%s modifies the variable %s, which outlives the call and is shared by all callers' % (f['n'], r[1]['n']), i)
                elif r[0] == 'mutable':
                    rec = [x for x in p.records.values() if any(y['n'] == r[1]['n'] and y.get('mut') for y in x['fields'])]
                    if SYNC.search(r[1].get('t', '')):
                        continue
                    if any(SYNC.search(y['t']) for x in rec for y in x['fields']):
                        res.undec('%s modifies the mutable member %s of a class with a lock' % (f['n'], r[1]['n']))
                        continue
                    bad('mutable ' + r[1]['n'], where, '%s modifies the mutable member %s of an object that is not to change' % (f['n'], r[1]['n']), i)
                elif r[0] == 'cast':
                    t, fr = r[1].get('t', ''), r[1].get('from', '')
                    if f.get('kind') == 'dtor' or not schema and SCHEMA.search(t):
                        continue            # released by its owner; part of the schema being built
                    if r[1].get('style') in ('const', 'c') and 'const ' in fr and fr.count('const') > t.count('const'):
                        bad('cast', where, '%s modifies an object through a cast that removes const' % f['n'], i)
                elif r[0] == 'this' and f.get('cls') == 'ValidatorT' and f.get('kind') not in ('ctor', 'dtor'):
                    m = [x for x in ir.walk(target) if x.get('k') == 'mem' and (x.get('base') or {}).get('k') == 'this']
                    for x in m:
                        if not CACHES.search(x.get('t', '')):
                            bad('validator', where, 'validation modifies the member %s of the validator, so that it can influence later validations' % x['n'], i)
                elif r[0] == 'this':
                    if schema and SCHEMA.search(f.get('clst') or '') and f.get('kind') not in ('ctor', 'dtor') and not f.get('const'):
                        bad('schema', where, '%s modifies the %s' % (f['n'], f.get('cls')), i)
                elif r[0] in ('field', 'param'):
                    t = r[1].get('t', '') if r[0] == 'field' else r[1]
                    if r[0] == 'field' and not ptr and not r[1].get('refty') and not t.rstrip('const ').endswith(('*', '&')):
                        continue
                    if schema and SCHEMA.search(t) and not is_const(pointee(t)) and (r[0] == 'field' or t.endswith(('*', '&'))):
                        bad('schema', where, '%s modifies a %s' % (f['n'], pointee(t)), i)
                    if r[0] == 'field' and VALUE.match(pointee(t)) and t.rstrip().endswith(('*', '&')):
                        bad('document', where, '%s modifies a value of the document (%s)' % (f['n'], pointee(t)[:60]), i)
                if r[0] in ('local', 'param', 'handle', 'field') and nd.get('k') in ('mcall', 'opcall'):
                    t = (r[1].get('t', '') if r[0] == 'field' else r[1]).rstrip('&').strip()
                    c = nd['callee']
                    if HANDLE.match(t) and c.get('n') not in ('operator=', 'reset', 'swap', 'begin', 'end', 'operator->', 'operator*') and not c.get('root') and VALUE.search(c.get('clst') or ''):
                        bad('document', where, '%s calls %s, which modifies the document a %s refers to' % (f['n'], c['sq'], t[:60]), i)
    for k in sorted(per):
        res.unit('%s: %s: %d functions, %d modifications' % (what, k, per[k][0], per[k][1]), per[k][0] + per[k][1])
    return per


def unchanged(res, tier):
    p = ir.load()
    e = Effects(p)
    v = [i for i, f in p.functions.items() if f['sq'] == 'valijson::ValidatorT::validate']
    res.need(len(v), 'the entry point of validation')
    got = e.reach(v)
    judge(res, e, got, 'validation', True)
    s = [i for i, f in p.functions.items() if f['sq'] == 'valijson::SchemaParser::populateSchema' and len(f['params']) in (4, 5)]
    res.need(len(s), 'the entry points of the parser')
    judge(res, e, e.reach(s), 'parsing', False)
    # no member of a schema may be changed behind const
    n = 0
    for t, r in sorted(p.records.items()):
        if 'include/valijson/' in (r.get('loc') or '') and SCHEMA.search(t):
            n += 1
    res.unit('classes of schemas and constraints', n)
