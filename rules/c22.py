"""C22: a file that cannot be written or read is reported by the call that was to save or load it."""
import re
import facts
from report import Check
from c10 import nodes
from c13 import Paths, Stop, strip
from c26 import Walk, Tree, St, const

RAW = True
OWN = re.compile('^' + re.escape(facts.REPO) + r'/src/')
ROOT = re.compile(r'VectorworksMVR::(CGdtfFixtureImpl|CMediaRessourceVectorImpl)$')
# (what, names of the public calls, the system calls at the end, calls that do other work than the file itself)
CHAINS = [
    ('save', {'Close'}, {'fwrite', 'fputs', 'fputc', 'fprintf'}, {'AddFile', 'AddFileToZip', 'ExportToFile', 'WriteXml', 'OpenNewWrite', 'OpenWrite'}),
    ('load', {'OpenForRead', 'ReadFromFile'}, {'fread', 'fgets', 'fgetc'}, {'Close', 'AddFile', 'RemoveFile', 'WriteToFile'}),
]
DIRECT = {'fopen', 'fwrite', 'fread', 'fclose', 'fflush', 'fseek', 'ftell', 'fputs', 'fputc', 'fprintf', 'fgets', 'fgetc', 'fsync'}
MUST = {'save': {'fopen', 'fwrite', 'fclose', 'fflush', 'fseek', 'fputs', 'fputc', 'fprintf'}, 'load': {'fopen', 'fread', 'fseek', 'ftell'}}


def fails(n, t):
    """what a call gives when it fails"""
    if n == 'fopen':
        return ('k', 0)
    if n in ('fwrite', 'fread'):
        return ('short',)
    if n == 'fgets':
        return ('k', 0)
    if n in ('fclose', 'fflush', 'fseek', 'ftell', 'fputs', 'fputc', 'fgetc', 'fprintf'):
        return ('k', -1)
    t = (t or '').replace('const ', '').strip()
    if t == 'bool':
        return ('k', 0)
    if t.endswith('*'):
        return ('k', 0)
    if t == 'void':
        return None
    return ('bad',)


class Fail(Walk):
    """one call fails: what does the function answer?"""
    def __init__(s, T, f, site):
        Walk.__init__(s, T, f, {})
        s.site = site
        s.hit = False
        s.left = []

    def call(s, e, st):
        if e is s.site:
            s.hit = True
            out = []
            for a, _ in s.plain(e, st):
                a = a.copy()
                a.cell[('v', 'failed')] = ('k', 1)
                out.append((a, fails(e.get('n'), e.get('t'))))
            return out
        r = s.plain(e, st)
        if e.get('n') in ('ferror', 'bad', 'fail'):
            return [(a, ('k', 1) if ('v', 'failed') in a.cell else None) for a, _ in r]
        if e.get('n') in ('good', 'operator bool') and not r:
            return r
        # what another call says
        t = (e.get('t') or '')
        return [(a, v if v is not None else ('res', e.get('n')) if re.match(r'(const )?(bool|unsigned int|int|VectorworksMVR::VCOMError)$', t) else None) for a, v in r]

    def plain(s, e, st):
        sts = [st]
        for x in [e.get('o')] + list(e.get('a') or []):
            if isinstance(x, dict):
                sts = [b for a in sts for b, _ in s.ev(x, a)]
        out = []
        for a in sts:
            a = a.copy()
            pts = e.get('pt') or []
            for i, x in enumerate(e.get('a') or []):
                y = strip(x)
                ref = i < len(pts) and pts[i].endswith('&') and 'const' not in pts[i]
                if isinstance(y, dict) and y.get('k') == 'un' and y['op'] == '&':
                    ref, y = True, strip(y['e'])
                c = s.cellof(y, a) if ref else None
                if c:
                    a.cell.pop(c, None)
            out.append((a, None))
        return out

    def ev(s, e, st):
        if isinstance(e, dict) and e.get('k') == 'cast':
            return s.ev(e['e'], st)
        if isinstance(e, dict) and e.get('k') == 'bin':
            op = e['op']
            if e.get('as') and op in ('|=', '&='):
                out = []
                for a, v in s.ev(e['b'], st):
                    a = a.copy()
                    c = s.cellof(e['a'], a)
                    old = a.cell.get(c) if c else None
                    new = None
                    if op == '|=' and (bad(old) or bad(v)):
                        new = ('bad',)
                    elif op == '&=' and (old == ('k', 0) or v == ('k', 0)):
                        new = ('k', 0)
                    s.assign(c, new, a, e)
                    out.append((a, new))
                return out
            if not e.get('as') and op in ('|', '&'):
                out = []
                for a, v in s.ev(e['a'], st):
                    for b, w in s.ev(e['b'], a):
                        out.append((b, ('bad',) if op == '|' and (bad(v) or bad(w)) else ('k', 0) if op == '&' and ('k', 0) in (v, w) else None))
                return out
            if not e.get('as') and op in ('<', '>', '<=', '>='):
                return [(a, ('k', int(b))) for a, b in s.truth(e, st)]
        return Walk.ev(s, e, st)

    def truth(s, e, st):
        x = e
        while isinstance(x, dict) and x.get('k') == 'cast':
            x = x['e']
        if isinstance(x, dict) and x.get('k') == 'bin' and not x.get('as') and x['op'] in ('<', '>', '<=', '>='):
            out = []
            for a, v in s.ev(x['a'], st):
                for b, w in s.ev(x['b'], a):
                    if v == ('short',) or w == ('short',):
                        r = {'<': True, '<=': True, '>': False, '>=': False}[x['op']]
                        if w == ('short',):
                            r = not r
                        if (w if v == ('short',) else v) == ('k', 0):
                            out += [(b, True), (b, False)]
                        else:
                            out.append((b, r))
                    elif v and w and v[0] == 'k' and w[0] == 'k':
                        out.append((b, {'<': v[1] < w[1], '>': v[1] > w[1], '<=': v[1] <= w[1], '>=': v[1] >= w[1]}[x['op']]))
                    else:
                        out += [(b, True), (b, False)]
            return out
        if isinstance(x, dict) and x.get('k') == 'bin' and not x.get('as') and x['op'] in ('==', '!='):
            out = []
            for a, v in s.ev(x['a'], st):
                for b, w in s.ev(x['b'], a):
                    r = None
                    if ('short',) in (v, w):
                        r = False
                    elif ('bad',) in (v, w) and ('k', 0) in (v, w):
                        r = False
                    elif v and w and v[0] == 'k' and w[0] == 'k':
                        r = v[1] == w[1]
                    out += [(b, r == (x['op'] == '=='))] if r is not None else [(b, True), (b, False)]
            return out
        if isinstance(x, dict) and x.get('k') not in ('un', 'bin'):
            out = []
            for a, v in s.ev(x, st):
                if v == ('bad',):
                    out.append((a, True))
                elif v and v[0] == 'k':
                    out.append((a, bool(v[1])))
                else:
                    out += [(a, True), (a, False)]
            return out
        return Walk.truth(s, e, st)

    def equal(s, v, c, st, flip=False):
        if v in (('bad',), ('short',)) and c == 0:
            return [(st, False)] if v == ('bad',) else [(st, True), (st, False)]
        if v and v[0] == 'res':
            return [(st, True), (st, False)]
        return Walk.equal(s, v, c, st, flip)


def bad(v):
    return bool(v) and (v == ('bad',) or v[0] == 'k' and v[1] != 0)


def run(P, tier):
    C = Check('C22', __doc__, 'path-sensitive failure propagation along the call chain from the public call to the system call', 'proof-modulo')
    T = Tree(P)
    impl = {}
    for b, os in P.overriders.items():
        impl[b] = set(os)
    calls = {}
    for key, f in P.funcs.items():
        if f.get('body') and OWN.match(f['file']):
            calls[key] = [x for x in nodes(f['body']) if x['k'] == 'call' and x.get('fn')]

    def targets(x):
        r = {x['fn']} if x['fn'] in P.funcs else set()
        if x.get('virt') or x['fn'] not in P.funcs:
            todo = [x['fn']]
            while todo:
                k = todo.pop()
                for o in impl.get(k, ()):
                    if o not in r:
                        r.add(o)
                        todo.append(o)
        return r
    n = {}
    for what, names, sinks, other in CHAINS:
        roots = [k for k, f in P.funcs.items() if f['n'] in names and ROOT.match(f.get('cls') or '') and f.get('body')]
        if not roots:
            C.skip('chain', what, 'the public calls were not found')
            continue
        seen, todo = set(), list(roots)
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for x in calls.get(k, ()):
                if x.get('n') in other and k not in roots or x.get('n') in other - names:
                    if x['n'] in other:
                        continue
                todo += [t for t in targets(x) if t in calls]
        reach = {k for k in seen if any(x.get('n') in sinks and x['fn'] not in calls for x in calls[k])}
        ch = True
        while ch:
            ch = False
            for k in seen - reach:
                if any(t in reach for x in calls[k] if x.get('n') not in other or x['n'] in names and k in roots for t in targets(x)):
                    reach.add(k)
                    ch = True
        # the neighbours that open and close the file
        low = {k for k in seen if any(x.get('n') in MUST[what] and x['fn'] not in calls for x in calls[k])}
        for k in sorted(reach | {t for k in reach for x in calls[k] if not (x.get('n') in other) for t in targets(x) if t in low}):
            f = P.funcs[k]
            where = f['file'].replace(facts.REPO + '/', '')
            i = 0
            for x in calls[k]:
                if x.get('n') in other and not (k in roots and x['n'] in names):
                    continue
                ts = targets(x)
                if not (x.get('n') in MUST[what] and x['fn'] not in calls) and not ts & reach and not (ts & low and k in reach):
                    continue
                if ts & {k}:
                    continue
                i += 1
                name = '%s/%s#%s' % (f['q'], x['n'], i)
                ln = '%s:%s' % (where, x.get('l'))
                n[what] = n.get(what, 0) + 1
                msg = '%s goes on as if nothing had happened when %s fails' % (f['q'], x['n'])
                if f['ret'] == 'void' or (x.get('t') == 'void'):
                    C.ob(what, name, False, ln, '%s cannot say that %s failed' % (f['q'] if f['ret'] == 'void' else x['n'], x['n']))
                    continue
                W = Fail(T, f, x)
                try:
                    W.run()
                except Stop:
                    C.skip(what, name, 'too many paths')
                    continue
                if not W.hit:
                    C.skip(what, name, 'not reached')
                    continue
                verdict = True
                for st, v in W.exits:
                    if ('v', 'failed') not in st.cell:
                        continue
                    isbool = f['ret'].replace('const ', '') == 'bool'
                    if isbool and v == ('k', 0) or not isbool and bad(v):
                        continue
                    if v is None:
                        verdict = None if verdict else verdict
                    else:
                        verdict = False
                if verdict is None:
                    C.skip(what, name, 'cannot tell what is answered')
                else:
                    C.ob(what, name, verdict, ln, '' if verdict else msg)
    for what, names, sinks, other in CHAINS:
        C.need(what, 5)
    return C.finish(P, tier)
