"""Texts are handled with their length: a character pointer taken from a text is
never turned back into a text (or searched for) by its terminating null only."""
import re
from .. import ir

TEXT = re.compile(r'^std::(basic_string|basic_string_view)::')
CHARP = re.compile(r'^(const )?(char|Ch|CharT|_CharT|value_type)( const)? ?\*( const)?$|const char \*|const Ch \*|const CharT \*|const _CharT \*')
INTEGRAL = re.compile(r'\b(size_t|size_type|SizeType|unsigned|int|long|uint\d+_t|int\d+_t|ptrdiff_t)\b')
TRANSPARENT = ('cast', 'mat', 'bound', 'paren', 'cond', 'tmp')
REPORTS = ('throwRuntimeError', 'throwLogicError', 'abort')
KEEP = ('strtol', 'strtoul', 'strtoll', 'strtoull', 'strtod', 'strtof', 'atoi', 'atol', 'atof', 'fopen', 'strerror')


def kids(n):
    """Child nodes with the role they have."""
    for k, v in n.items():
        if k in ('callee', 'nid'):
            continue
        if isinstance(v, dict):
            yield k, None, v
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, dict):
                    yield k, i, x
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict):
                            yield k, i, y


def parents(root):
    up = {}
    stack = [root]
    while stack:
        n = stack.pop()
        for k, i, c in kids(n):
            up[id(c)] = (n, k, i)
            stack.append(c)
    return up


def pointer_source(n):
    c = n.get('callee')
    return bool(c) and c.get('n') in ('c_str', 'data') and TEXT.match(c.get('sq', '')) is not None


def sinks(n, up, uses, seen=None):
    """(call node, argument index) that receive the pointer n."""
    seen = set() if seen is None else seen
    while True:
        p = up.get(id(n))
        if p is None:
            return []
        q, role, i = p
        if q.get('callee'):
            return [(q, role, i)]
        if q.get('k') in ('var', 'decl') or role == 'init' and 'd' in q:
            d = q.get('d') or q.get('id')
            out = []
            if d is not None and d not in seen:
                seen.add(d)
                for u in uses.get(d, ()):
                    out += sinks(u, up, uses, seen)
            return out
        n = q


def reported(n, up):
    """Inside the text of an exception."""
    while True:
        p = up.get(id(n))
        if p is None:
            return False
        n = p[0]
        if n.get('k') == 'throw' or (n.get('callee') or {}).get('n') in REPORTS:
            return True


SOURCES = ('c_str', 'data', 'GetString', 'asCString', 'constData', 'getCString')
CUT = ('strcmp', 'strlen', 'strcpy', 'strcat', 'strstr', 'strncmp', 'strncpy', 'strcoll', 'strcasecmp', 'strpbrk', 'strspn', 'strcspn')
NUMBERS = ('strtol', 'strtoul', 'strtoll', 'strtoull', 'strtod', 'strtof', 'strtold', 'atoi', 'atol', 'atoll', 'atof', 'from_chars')
PATHS = ('basic_ifstream', 'basic_ofstream', 'basic_fstream', 'fopen', 'open', 'perror', 'fprintf', 'printf', 'puts', 'fputs')


def source(n):
    c = n.get('callee')
    if not c or c.get('n') not in SOURCES:
        return False
    if c['n'] == 'data':
        return TEXT.match(c.get('sq', '')) is not None
    return True


def param(c, i):
    ps = c.get('params') or ()
    return ps[i] if i is not None and i < len(ps) else ''


def charp(t):
    return bool(re.search(r'\b(char|Ch|CharT|_CharT|char_type|value_type)\b( const)? \*', t))


def cut(n, role, i):
    """None: the text is used with its length; otherwise how it is cut off."""
    c = n['callee']
    ps = list(c.get('params') or ())
    k = c['n']
    if role != 'args' or n.get('k') == 'opcall' and not ps:
        return None
    if k in CUT:
        return 'only the characters before the first null count in %s' % k
    if k in NUMBERS or k in PATHS:
        return None
    if n.get('k') == 'opcall' and len(ps) < len(n.get('args', ())):
        ps = [''] + ps
    t = ps[i] if i < len(ps) else ''
    if not charp(t):
        return None
    rest = [p for j, p in enumerate(ps) if j != i]
    if any(INTEGRAL.search(p) and '*' not in p and '&' not in p.replace('const', '') for p in rest) and 'Openmode' not in str(rest):
        return None
    if any(charp(p) for p in rest) and 'operator' not in k and k not in ('compare', 'replace'):
        return None                 # a range
    sq = c.get('sq', '')
    if TEXT.match(sq) or sq.startswith('std::operator') or sq.startswith('std::optional'):
        if sq.startswith('std::operator<<'):
            return None             # output
        return '%s takes only the characters before the first null' % (k if k != 'basic_string' else 'a new string')
    if sq.startswith('valijson::'):
        return 'it is handed to %s without its length' % k
    if n.get('k') == 'ctor':
        return 'a new %s takes only the characters before the first null' % k
    return None


def texts(res, tier):
    prog = ir.load()
    seen, n, fns = set(), 0, 0
    for f in sorted(prog.functions.values(), key=lambda f: f.get('loc', '')):
        if f.get('body') is None or 'include/valijson/' not in f.get('loc', ''):
            continue
        roots = [f['body']] + [x for x in f.get('inits') or () if isinstance(x, dict)]
        fns += 1
        for root in roots:
            found = [x for x in ir.walk(root) if source(x)]
            if not found:
                continue
            up = parents(root)
            uses = {}
            for x in ir.walk(root):
                if x.get('k') == 'ref' and x.get('dk') in ('var', 'local'):
                    uses.setdefault(x['d'], []).append(x)
            for x in found:
                if reported(x, up):
                    continue
                for s, role, i in sinks(x, up, uses):
                    n += 1
                    how = cut(s, role, i)
                    if how:
                        key = '%s: %s' % (f['n'], (s['callee'].get('n')))
                        res.violation(key, s.get('l') or f['loc'], 'in %s the text is reduced to a null-terminated one: %s' % (f['n'], how), ())
    res.unit('uses of character pointers taken from texts', n)
    res.unit('functions searched', fns)
    res.need(fns, 'functions')
