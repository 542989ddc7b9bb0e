"""C18: element accesses and raw copies stay inside the array, container or buffer they are made in."""
import re
import facts
import zone
from zone import Zone, add, lin, bare, BITS, BUFFER, integral, written
from report import Check, Broken
from c10 import nodes
from conc import strip
import c17
from c17 import Prover, Sites, Walk, targets, cls_of

RAW = True      # looks at the code exactly as written

SEQ = re.compile(r'^std::(__cxx11::|__debug::)?(vector|deque|array|basic_string|basic_string_view|bitset)\b')
ENDS = re.compile(r'^std::(__cxx11::|__debug::)?(vector|deque|array|basic_string|basic_string_view|list|forward_list|queue|stack|priority_queue)\b')
COPY = {'memcpy': (0, 1, 2), 'memmove': (0, 1, 2), 'memset': (0, None, 2), 'memcmp': (0, 1, 2), 'strncpy': (0, None, 2), 'snprintf': (0, None, 1), 'vsnprintf': (0, None, 1),
        'fread': (0, None, None), 'fwrite': (0, None, None), 'recv': (1, None, 2)}
DIM = re.compile(r'^[^()\[]*\[(\d+)\]')
WIDTH = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2, 'int': 4, 'unsigned int': 4, 'wchar_t': 4, 'char32_t': 4, 'float': 4,
         'long': 8, 'unsigned long': 8, 'double': 8, 'long long': 8, 'unsigned long long': 8}
OWN = re.compile('^' + re.escape(facts.REPO) + r'/(src|mdns_cpp)/')
TEXT = re.compile(r'^(std::(__cxx11::)?basic_string\b|VectorworksMVR::TXString$)')


def copying(P, n):
    """(destination, source, size) argument positions of a call that moves bytes"""
    k = n.get('k')
    if k == 'call' and n.get('n') in COPY and n.get('fn') not in P.funcs:
        return COPY[n['n']]
    pt = n.get('pt') or []
    if k == 'call' and n.get('n') in ('Read', 'ReadFromFile') and len(pt) == 3 and pt[2] == 'void *' and pt[1] == 'unsigned long &':
        return (2, None, 1)
    if k == 'ctor' and len(pt) >= 2 and TEXT.match(str(n.get('c') or '')) and re.match(r'const (char|wchar_t|char16_t|char32_t) \*$', pt[0]) and integral(pt[1]):
        return (None, 0, 1)
    return None


FOREIGN = re.compile(r'/mdns_cpp/|json\.h|miniz|tinyxml2|/mdns\.h|/sha256/|rapidxml')


def array_len(t):
    """number of elements of an array type (its first dimension)"""
    m = DIM.match(str(t or ''))
    return int(m.group(1)) if m else None


def width(P, t):
    """bytes of one object of a type, None when not known"""
    t = bare(str(t or ''))
    m = re.match(r'^(.*?)((\[\d+\])+)$', t)
    k = 1
    if m:
        t = m.group(1).strip()
        for d in re.findall(r'\[(\d+)\]', m.group(2)):
            k *= int(d)
    if t.endswith('*'):
        return 8 * k
    if t in WIDTH:
        return WIDTH[t] * k
    c = P.classes.get(t)
    if c and c.get('sz'):
        return c['sz'] * k
    return None


def pointee(t):
    t = bare(str(t or ''))
    if t.endswith('*'):
        return bare(t[:-1].strip())
    m = re.match(r'^(.*?)\[\d*\](.*)$', t)
    if m:
        return (m.group(1) + m.group(2)).strip()
    return None


def extent(P, z, e, st, n=0):
    """(bytes that may be touched from pointer e on as a linear form, exact) or None"""
    if n > 6 or e is None:
        return None
    t0 = e.get('t')
    e = strip(e)
    if e is None:
        return None
    k = e.get('k')
    t = str(e.get('t') or '')
    a = array_len(t)
    if k in ('var', 'mem', 'idx') and a is not None:
        w = width(P, t)
        return ({}, w) if w is not None else None
    if k == 'un' and e.get('op') == '&':
        x = strip(e['e'])
        if x.get('k') == 'idx':
            b = extent(P, z, x['b'], st, n + 1)
            i = z.pure(x['i'], st)
            w = width(P, x.get('t'))
            if b is None or i is None or w is None:
                return None
            return add(b, ({q: c * w for q, c in i[0].items()}, i[1] * w), -1)
        if x.get('k') == 'call' and x.get('n') in ('operator[]', 'front', 'at') and x.get('o') is not None and SEQ.match(cls_of(x)):
            o = z.sizeof_obj(x, st)
            i = z.pure(x['a'][0], st) if x.get('a') else ({}, 0)
            w = width(P, x.get('t'))
            if o is None or i is None or w is None:
                return None
            return add(({('sz', o): w}, 0), ({q: c * w for q, c in i[0].items()}, i[1] * w), -1)
        w = width(P, x.get('t'))
        return ({}, w) if w is not None else None
    if k == 'this':
        w = width(P, pointee(t))
        return ({}, w) if w is not None else None
    if k == 'bin' and e.get('op') in ('+', '-') and not e.get('as'):
        p, i = e['a'], e['b']
        if not pointee(strip(p).get('t')) and e['op'] == '+':
            p, i = i, p
        b = extent(P, z, p, st, n + 1)
        v = z.pure(i, st)
        w = width(P, pointee(t))
        if b is None or v is None or w is None:
            return None
        return add(b, ({q: c * w for q, c in v[0].items()}, v[1] * w), -1 if e['op'] == '+' else 1)
    if k == 'call' and e.get('n') in ('data', 'c_str') and e.get('o') is not None and SEQ.match(cls_of(e)):
        o = z.sizeof_obj(e, st)
        w = width(P, pointee(t))
        if o is None or w is None:
            return None
        return ({('sz', o): w}, w if 'basic_string' in cls_of(e) else 0)
    if k == 'str':
        s = e.get('v')
        return ({}, len(str(s)) + 1) if s is not None else None
    if k in ('var', 'mem') and pointee(t) is not None:
        l = z.loc(e, st)
        if l is None:
            return None
        w = width(P, pointee(t))
        if w is None and pointee(t) in ('void', 'unsigned char', 'char'):
            w = 1
        return ({('cap', l): w}, 0) if w is not None else None
    return None


def known(form, st, fits=()):
    """the analysis knows how large every buffer in the form is: it saw the allocation, or a member of the class says it"""
    for t in form[0]:
        if t[0] == 'cap' and not (t[1][0] == 'm' and t[1][2] in fits) and not any(t == p[0] for p in st.c) and not any(c > 0 for key in st.lf for x, c in key if x == t):
            return False
    return True


def settled(t, st):
    """the state has t as an exact linear form of constants, parameters and other members"""
    ok = lambda y: y == zone.ZERO or y[0] in ('m', 'v', 'sz', 'strlen')
    for (a, b), c in st.c.items():
        if t in (a, b) and st.c.get((b, a)) == -c and ok(b if a == t else a):
            return True
    for key, c in st.lf.items():
        if any(y == t for y, _ in key) and all(ok(y) or y == t for y, _ in key) and st.lf.get(frozenset((y, -m) for y, m in key)) == -c:
            return True
    return False


def wrapped(form, st):
    seen, work = set(), list(form[0])
    while work:
        t = work.pop()
        if t[0] == 'wrap':
            return True
        if t in seen or len(seen) > 20 or t == zone.ZERO:
            continue
        seen.add(t)
        for p, c in st.c.items():
            if t in p and (p[1], p[0]) in st.c and st.c[(p[1], p[0])] == -c:
                work += [x for x in p if x != t]
        for key in st.lf:
            if any(x == t for x, _ in key):
                work += [x for x, _ in key if x[0] == 'wrap']
    return False


# buffers and the members that say how long they are
PAIRS = {('ISceneDataZipBuffer::fpZIPDataBuffer', 'ISceneDataZipBuffer::fZIPDataBufferSize'), ('IXMLFileIOBufferImpl::fXMLBuffer', 'IXMLFileIOBufferImpl::fXMLBufferSize'),
         ('ZIPFileBuffer::fpZIPFileBuffer', 'ZIPFileBuffer::fZIPFileBufferSize'), ('ZIPFileBuffer::fpZIPFileBuffer', 'ZIPFileBuffer::fAllocatedMemorySize'),
         ('CZIPFileIOBufferImpl::fpZIPDataBuffer', 'CZIPFileIOBufferImpl::fZIPDataBufferSize'),
         ('MVRxchangeDynamicBuffer::fBuffer', 'MVRxchangeDynamicBuffer::fBufferSize'), ('MVRxchangeDynamicBuffer::fBuffer', 'MVRxchangeDynamicBuffer::fAllocatedMemory')}
CONSTUSE = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'front', 'back', 'at', 'operator[]', 'data', 'capacity', 'find'}
THIS = ('this',)


class Invariants:
    """relations between two members of a class that every function which changes one of them keeps:
    two containers with equally many elements; a buffer with at least as many elements as a length member says"""

    def __init__(s, P):
        s.P = P
        s.by, s.why, s.inner = {}, {}, set()
        fields = {}
        for c, d in P.classes.items():
            for x in d.get('fields') or []:
                fields[x['f']] = (c, x)
        uses, s.writers, bad = {}, {}, set()
        grow, alloc = {}, {}
        for k, f in P.funcs.items():
            if not f.get('body') or not OWN.match(f['file']) or FOREIGN.search(f['file']):
                continue
            harmless = set()
            for n in nodes(f['body']):
                if n.get('k') == 'call' and n.get('o') is not None and n.get('n') in CONSTUSE:
                    harmless.add(id(strip(n['o'])))
                elif n.get('k') == 'rfor':
                    harmless.add(id(strip(n['r'])))
                elif n.get('k') == 'idx':
                    harmless.add(id(strip(n['b'])))
            inits = [(i.get('f'), i.get('e')) for i in f.get('inits') or [] if i.get('f')]
            for x, e in inits:
                if e is not None:
                    s.writers.setdefault(x, set()).add(k)
            for n in nodes(f['body']):
                if n.get('k') == 'mem' and n.get('f') in fields and id(n) not in harmless:
                    c, d = fields[n['f']]
                    t = str(d['t'])
                    own = strip(n['b']).get('k') == 'this'
                    if SEQ.match(bare(t)):
                        if own:
                            s.writers.setdefault(n['f'], set()).add(k)
                        else:
                            bad.add(n['f'])
                w = written(n)
                w = strip(w) if w is not None else None
                if w is not None and w.get('k') == 'mem' and w.get('f') in fields:
                    if strip(w['b']).get('k') == 'this':
                        s.writers.setdefault(w['f'], set()).add(k)
                    else:
                        bad.add(w['f'])
                if n.get('k') == 'un' and n.get('op') == '&' and strip(n['e']).get('k') == 'mem':
                    bad.add(strip(n['e'])['f'])
                if n.get('k') == 'call':
                    for p, a in zip(n.get('pt') or [], n.get('a') or []):
                        if re.search(r'[&]$', p) and not p.startswith('const ') and strip(a).get('k') == 'mem' and strip(a).get('f') in fields:
                            if strip(strip(a)['b']).get('k') == 'this' and not p.endswith('&&'):
                                s.writers.setdefault(strip(a)['f'], set()).add(k)
                            else:
                                bad.add(strip(a)['f'])
        cand = {}
        for c, d in P.classes.items():
            fs = [x for x in d.get('fields') or [] if x['f'] not in bad]
            seq = [x for x in fs if SEQ.match(bare(str(x['t'])))]
            for i, a in enumerate(seq):
                for b in seq[i + 1:]:
                    if s.writers.get(a['f']) and s.writers.get(a['f']) == s.writers.get(b['f']):
                        cand.setdefault(c, []).append(('same', a['f'], b['f']))
            ptr = [x for x in fs if (pointee(x['t']) in BUFFER)]
            num = [x for x in fs if integral(str(x['t']))]
            for a in ptr:
                for b in num:
                    if s.writers.get(a['f'], set()) & s.writers.get(b['f'], set()):
                        cand.setdefault(c, []).append(('fits', a['f'], b['f']))
            lens = {x[2] for x in cand.get(c) or [] if x[0] == 'fits'}
            for a in num:
                for b in num:
                    if a is not b and a['f'] in lens and b['f'] in lens and str(a['t']) == str(b['t']) and s.writers[a['f']] & s.writers[b['f']]:
                        cand[c].append(('le', a['f'], b['f']))
        ctors = {}
        for k, f in P.funcs.items():
            if f.get('ctor'):
                ctors.setdefault(f.get('cls'), []).append(k)
        for c, l in cand.items():
            s.by[c] = l if not any(x[0] != 'same' for x in l) or ctors.get(c) else [x for x in l if x[0] == 'same']
        s.tried = sum(len(x) for x in s.by.values())
        s.ctors = ctors
        change = True
        while change:
            change = False
            inner = set(s.inner)
            for c in list(s.by):
                keep = [x for x in s.by[c] if s.kept(c, x)]
                if len(keep) != len(s.by[c]):
                    change = True
                    s.by[c] = keep
            change = change or inner != s.inner
        s.by = {c: x for c, x in s.by.items() if x}
        s.lens = {x[2] for l in s.by.values() for x in l if x[0] == 'fits'}
        names = {x['f'] for d in P.classes.values() for x in d.get('fields') or [] if x['f'].split('::', 1)[-1].replace('Filing::', '') in {y[1] for y in PAIRS}}
        s.lost = {k: {x[2] for x, w in s.why.items() if w[0] == k and x[2] in names} for k in {w[0] for w in s.why.values()}}
        s.fits = {x[1] for l in s.by.values() for x in l if x[0] == 'fits'}

    def owner(s, f):
        return s.lam(f) if f.get('cls') == '(lambda)' else f.get('cls')

    def lam(s, f):
        g = s.P.funcs.get(f.get('encl'))
        return None if g is None else s.owner(g)

    def forms(s, x, this=THIS):
        kind, a, b = x
        A, B = ('m', this, a), ('m', this, b)
        if kind == 'same':
            return [({('sz', A): 1, ('sz', B): -1}, 0), ({('sz', A): -1, ('sz', B): 1}, 0)]
        if kind == 'le':
            return [({A: 1, B: -1}, 0)]
        return [({B: 1, ('cap', A): -1}, 0)]

    def entry(s, z, f, st):
        c = s.owner(f)
        for x in (s.by.get(c) or []) if f['key'] not in s.inner else []:
            if f.get('ctor'):
                if x[0] == 'same':
                    for m in x[1:]:
                        st.set(('sz', ('m', THIS, m)), ({}, 0))
            else:
                for g in s.forms(x):
                    st.fact(g)

    def helper(s, f):
        if f.get('acc') != 'private' or f.get('virt') or f.get('ctor') or not s.by.get(f.get('cls')):
            return False
        cs = s.callers().get(f['key'])
        return bool(cs) and all(c in s.P.funcs and s.owner(s.P.funcs[c]) == f['cls'] for c in cs)

    def callers(s):
        if not hasattr(s, '_callers'):
            s._callers = {}
            for k, f in s.P.funcs.items():
                for n in nodes(f.get('body')):
                    if n.get('k') == 'call' and n.get('fn') in s.P.funcs:
                        s._callers.setdefault(n['fn'], set()).add(k)
                    elif n.get('k') == 'mfref' and n.get('fn'):
                        s._callers.setdefault(n['fn'], set()).add('?')
        return s._callers

    def inline(s, z, n):
        """a function of the same object that changes members with a known relation is followed where it is called"""
        f = s.P.funcs.get(n.get('fn'))
        if f is None or not f.get('body') or f.get('virt') or f.get('ctor') or f.get('dtor') or f.get('st') or not f.get('cls') or not (n.get('o') is None or strip(n['o']).get('k') == 'this'):
            return False
        return any(f['key'] in s.writers.get(y, ()) for x in s.by.get(f['cls']) or [] for y in x[1:])

    def of(s, f, this):
        return [g for x in s.by.get(s.owner(f)) or [] for g in s.forms(x, this)]

    def kept(s, c, x):
        ws = s.writers.get(x[1], set()) | s.writers.get(x[2], set())
        if x[0] != 'same':
            ws = ws | set(s.ctors.get(c) or [])
        work = sorted(ws)
        while work:
            k = work.pop(0)
            f = s.P.funcs[k]
            if k in s.inner:
                work += sorted(s.callers()[k] - ws)
                ws = ws | s.callers()[k]
            if f.get('dtor') or k in s.inner:
                continue
            if s.owner(f) != c:
                return False
            z = Zone(s.P, None, inline=s.inline, invariants=s.entry)
            out = z.run(k)
            if out is not None and not out.dead() and not all(out.holds(g) for g in s.forms(x)):
                if s.helper(f):
                    # only called by the class itself: followed in its callers instead
                    s.inner.add(k)
                    work.append(k)
                    continue
                s.why[x] = (k, out, [g for g in s.forms(x) if not out.holds(g)])
                return False
        return True

    def broken(s):
        """pairs of a buffer and its length that a function clearly does not keep: it leaves both with known values that do not fit"""
        for x, (k, out, gs) in sorted(s.why.items()):
            if x[0] == 'fits' and tuple(y.split('::', 1)[-1].replace('Filing::', '') for y in x[1:]) in PAIRS:
                for g in gs:
                    cap, ln = ('cap', ('m', THIS, x[1])), ('m', THIS, x[2])
                    b = out.bound(ln, cap)
                    if wrapped(g, out):
                        continue
                    if b is not None and b > 0 or known(g, out) and settled(cap, out) and (settled(ln, out) or not any(zone.within(ln, y) for y in out.killed)):
                        yield x, k
                        break

    def others(s, g, f):
        """the goal in terms of the other member of a pair"""
        for x in s.by.get(s.owner(f)) or []:
            if x[0] == 'same':
                A, B = ('sz', ('m', THIS, x[1])), ('sz', ('m', THIS, x[2]))
                for a, b in ((A, B), (B, A)):
                    if a in g[1][0]:
                        d = dict(g[1][0])
                        d[b] = d.get(b, 0) + d.pop(a)
                        yield (g[0], (d, g[1][1]))


class Bounds(Prover):
    def __init__(s, P, W):
        Prover.__init__(s, P, W)
        s.I = Invariants(P)

    def zone(s, at):
        return Zone(s.P, at, inline=s.I.inline, invariants=s.I.entry)

    def atcallers(s, k, g, killed, depth):
        if Prover.atcallers(s, k, g, killed, depth):
            return True
        return g[0] == 'le' and depth < 2 and any(Prover.atcallers(s, k, h, killed, depth) for h in s.I.others(g, s.P.funcs[k]))

    def lifted(s, g, f, st):
        """the goal with what the function got in the place of locals that are equal to it"""
        ps = {('v', 0, p['d']): i for i, p in enumerate(f['p'])}
        form = g[1]
        for t in list(form[0]):
            if c17.from_entry(t, ps):
                continue
            for (a, b), c in st.c.items():
                if a == t and st.c.get((b, a)) == -c and (b == zone.ZERO or c17.from_entry(b, ps)):
                    d = dict(form[0])
                    m = d.pop(t)
                    form = add((d, form[1]), (({}, c * m) if b == zone.ZERO else ({b: m}, c * m)))
                    break
        return (g[0], form)

    def plain(s, t, z):
        """a length member of a buffer, or a parameter the caller chose freely"""
        if t[0] == 'm':
            return t[2] in s.I.lens or t[2] in s.I.lost.get(z.top().fn['key'], ())
        return t[0] == 'v' and t[1] == 0 and any(p['d'] == t[2] for p in z.top().fn['p'])

    def goals(s, z, n, kind, st):
        P = s.P
        if kind == 'index':
            if n['k'] == 'idx':
                b = strip(n['b'])
                a = array_len(b.get('t'))
                i = z.pure(n['i'], st)
                if i is None:
                    return None
                if a is not None:
                    lim = ({}, a)
                else:
                    if b.get('k') == 'this' or b.get('k') == 'un' and b.get('op') == '&' and strip(b['e']).get('k') == 'mem':
                        return None     # neighbouring members used as an array
                    w = width(P, n.get('t'))
                    x = extent(P, z, n['b'], st)
                    if x is None or w is None or not known(x, st, s.I.fits):
                        return None
                    g = add(({q: c * w for q, c in i[0].items()}, i[1] * w), x, -1)
                    g = add(g, ({}, w))
                    if w > 1 and all(c % w == 0 for c in g[0].values()):
                        g = ({q: c // w for q, c in g[0].items()}, -((-g[1]) // w))
                    return [('le', g), ('le', add(({}, 0), i, -1))]
            else:
                o, i = z.sizeof_obj(n, st), z.pure(n['a'][0], st)
                if o is None or i is None:
                    return None
                c = cls_of(n)
                m = re.match(r'std::(?:__\w+::)?array<.*, (\d+)[UL]*>$', c) or re.match(r'std::(?:__\w+::)?bitset<(\d+)', c)
                lim = ({}, int(m.group(1))) if m else lin(('sz', o), 1 if 'basic_string' in c else 0)
            return [('le', add(add(i, lim, -1), ({}, 1))), ('le', add(({}, 0), i, -1))]
        if kind == 'end':
            o = z.sizeof_obj(n, st)
            if o is None:
                return None
            return [('le', ({('sz', o): -1}, 1))]
        if kind in ('to', 'from'):
            d, sr, c = copying(P, n)
            a = n['a']
            if c is None:
                p, q = z.pure(a[1], st), z.pure(a[2], st)
                if p is None or q is None or (p[0] and q[0]):
                    return None
                k, v = (p[1], q) if not p[0] else (q[1], p)
                size = ({x: y * k for x, y in v[0].items()}, v[1] * k)
            else:
                size = z.pure(a[c], st)
            if size is None:
                return None
            if n.get('k') == 'ctor':
                w = width(P, pointee(n['pt'][0]))
                size = ({x: y * w for x, y in size[0].items()}, size[1] * w)
            x = d if kind == 'to' else sr
            e = extent(P, z, a[x], st)
            if e is None or not known(e, st, s.I.fits):
                return None
            g = add(size, e, -1)
            if st.holds(g):
                return [('le', g)]
            if wrapped(g, st):
                return None     # a difference of unsigned numbers that may have wrapped
            odd = [t for t in size[0] if not s.plain(t, z)]
            if odd and (any(t[0] == 'm' for t in odd) or any(t[0] == 'cap' and t[1][0] == 'm' and t[1][2] in s.I.fits for t in e[0])):
                return None     # two members of an object whose relation no function keeps
            return [('le', g)]
        return None

    def vague(s, k, n, kind):
        if kind == 'end':
            return False
        ex = []
        if n['k'] == 'idx':
            ex = [n['i']]
        elif kind == 'index':
            ex = [n['a'][0]]
        else:
            d, sr, c = copying(s.P, n)
            ex = [n['a'][i] for i in ((c,) if c is not None else (1, 2))] + [n['a'][i] for i in (d, sr) if i is not None]
        defs = {}
        for x in nodes(s.P.funcs[k]['body']):
            if x.get('k') == 'decl':
                for v in x.get('v') or []:
                    if v.get('init') is not None:
                        defs.setdefault(v['d'], []).append(v['init'])
            elif x.get('k') == 'bin' and x.get('as') and strip(x['a']).get('k') == 'var':
                defs.setdefault(strip(x['a']).get('d'), []).append(x if x.get('op') not in ('=', '+=', '-=') else x['b'])
        if kind == 'index' and s.guarded(k, ex):
            return True
        seen, work = set(), list(ex)
        while work:
            e = work.pop()
            for x in nodes(e):
                if x.get('k') == 'bin' and x.get('op') in ('*', '/', '%', '<<', '>>', '&', '|'):
                    return True
                if x.get('k') == 'call' and x.get('n') not in zone.SIZE and not (x.get('n') or '').startswith('operator'):
                    return True
                if x.get('k') == 'var' and x.get('d') in defs and x['d'] not in seen:
                    seen.add(x['d'])
                    work += defs[x['d']]
        return False

    def guarded(s, k, ex):
        """the index is compared with a number some other function handed out through an argument"""
        iv = {x.get('d') for e in ex for x in nodes(e) if x.get('k') == 'var'}
        body = s.P.funcs[k]['body']
        out = set()
        for x in nodes(body):
            if x.get('k') == 'call' and x.get('fn') and not (x.get('n') or '').startswith('operator'):
                for a, t in zip(x.get('a') or [], x.get('pt') or []):
                    a = strip(a)
                    if a.get('k') == 'un' and a.get('op') == '&':
                        a = strip(a['e'])
                    elif not t.endswith('&') or t.startswith('const '):
                        continue
                    if a.get('k') == 'var' and not a.get('g'):
                        out.add(a.get('d'))
        for x in nodes(body):
            if x.get('k') == 'bin' and x.get('op') in ('<', '>', '<=', '>=', '==', '!='):
                l, r = ({y.get('d') for y in nodes(x[z]) if y.get('k') == 'var'} for z in 'ab')
                if l & iv and r & out - iv or r & iv and l & out - iv:
                    return True
        return False

    def one(s, k, sites):
        ids = {}
        for x in sites:
            ids.setdefault(id(x[0]), []).append(x)
        got = {}

        def at(z, n, st):
            for x in ids.get(id(n)) or []:
                gs = s.goals(z, n, x[3], st)
                r = got.setdefault((id(n), x[3]), [True, []])
                if gs is None:
                    r[0] = None
                    continue
                for g in gs:
                    if not s.holds(g, st):
                        if r[0] is True:
                            r[0] = False
                        r[1].append((s.lifted(g, s.P.funcs[k], st), st.killed))
        s.zone(at).run(k)
        out = {}
        for x in sites:
            r = got.get((id(x[0]), x[3]))
            if r is None:
                out[id(x[0]), x[3]] = True
                continue
            v = r[0]
            if v is False and all(s.atcallers(k, g, killed, 0) for g, killed in r[1]):
                v = True
            if v is False and s.vague(k, x[0], x[3]):
                v = None
            out[id(x[0]), x[3]] = v
        return out


def sites(P, f):
    """[(node, what, None, kind)]"""
    r = []
    for n in list(nodes(f.get('body'))) + [y for i in f.get('inits') or [] for y in nodes(i.get('e'))]:
        k = n.get('k')
        if k == 'idx':
            b = strip(n['b'])
            r.append((n, 'element of %s' % (b.get('n') or b.get('f', '').split('::')[-1] or 'an array'), None, 'index'))
        elif k == 'call' and n.get('o') is not None and not copying(P, n):
            c = cls_of(n)
            if n.get('n') == 'operator[]' and SEQ.match(c):
                r.append((n, 'element of %s' % nameof(n['o']), None, 'index'))
            elif n.get('n') in ('front', 'back', 'pop_back', 'pop_front', 'top', 'pop') and ENDS.match(c) and not n.get('a'):
                r.append((n, '%s of %s' % (n['n'], nameof(n['o'])), None, 'end'))
        elif k in ('call', 'ctor') and copying(P, n):
            c = copying(P, n)
            for i, kd in ((c[0], 'to'), (c[1], 'from')):
                if i is not None:
                    r.append((n, n.get('n') or 'text made from a buffer', None, kd))
    return r


def nameof(o):
    o = strip(o)
    return o.get('n') or str(o.get('f') or 'a container').split('::')[-1]


def run(P, tier):
    C = Check('C18', 'every element access by index, every use of the first or last element and every raw copy in the library\'s own code is made where the index is below the length, the container is not empty and '
              'the number of bytes is within the buffers, in the function itself or at each call of it', 'difference-bound analysis of every function with such an access; what a helper leaves open is asked of its callers')
    S = Sites(P)
    W = {k: Walk(P, S, k) for k, f in P.funcs.items() if f.get('body')}
    B = Bounds(P, W)
    for c, l in sorted(B.I.by.items()):
        for x in l:
            C.ob('length', '/'.join([x[0]] + [y.split('::', 1)[-1] for y in x[1:]]), True, c)
    for x, k in B.I.broken():
        f = P.funcs[k]
        C.ob('length', 'fits/' + '/'.join(y.split('::', 1)[-1] for y in x[1:]), False, '%s:%s' % (f['file'], f['l']),
             '%s leaves %s with fewer bytes than %s says' % (f['q'], x[1].split('::')[-1], x[2].split('::')[-1]))
    names = {}
    for k, f in sorted(P.funcs.items()):
        if not f.get('body') or not OWN.match(f['file']) or FOREIGN.search(f['file']):
            continue
        ss = sites(P, f)
        if not ss:
            continue
        v = B.one(k, ss)
        for n, what, _, kind in ss:
            nm = '%s/%s' % (f['q'].split('::', 1)[-1][-60:], what)
            names[nm] = names.get(nm, 0) + 1
            if names[nm] > 1:
                nm += '#%d' % names[nm]
            where = '%s:%s' % (f['file'], n.get('l'))
            x = v[id(n), kind]
            if x is None:
                C.skip(kind, nm, 'the extent or the position is not one the analysis follows')
            else:
                C.ob(kind, nm, x, where, '' if x else '%s in %s can lie outside' % (what, f['q']))
    C.need('index', 1500)
    C.need('end', 24)
    C.need('to', 50)
    C.need('from', 20)
    return C.finish(P, tier)
