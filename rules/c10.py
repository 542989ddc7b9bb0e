"""C10: an index a caller passes in is compared with the size of the list before the list is accessed with it."""
from apimodel import *
import flow
from report import Check, Broken

MAPS = ('std::map', 'std::unordered_map', 'std::__cxx11::map')
CHANGES = flow.MUTATORS


class Hooks(ApiHooks):
    def __init__(self, P):
        ApiHooks.__init__(self, P)
        self.idx = []

    def on_index(self, eng, st, bs, ix, e):
        self.idx.append((bs, ix, st.pc, eng.where(e), e))


def analyse(P, k, stable):
    h = Hooks(P)
    eng = Engine(P, h, inline_api)
    eng.structs = True
    if stable:
        eng.unstable = flow.UNSTABLE - {'size'}
    ex, val, _, fr = eng.run(k)
    return h, fr


def plainloc(t):
    """the term without the activation its local variables belong to"""
    if isinstance(t, tuple):
        if t and t[0] == 'L':
            return t[:2]
        return tuple(plainloc(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(plainloc(x) for x in t)
    return t


def sized(pc):
    return {x[1] for t, p in pc for x in subterms(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'size'}


def parallel(P, a, b):
    """two lists of the same object that always grow and shrink together"""
    if a[0] != 'fld' or b[0] != 'fld' or a[1] != b[1]:
        return False
    counts = {}
    for k, f in P.funcs.items():
        for x in nodes(f.get('body')):
            if x['k'] == 'call' and x.get('n') in CHANGES and isinstance(x.get('o'), dict):
                m = x['o']
                while m.get('k') == 'cast':
                    m = m['e']
                if m.get('k') == 'mem' and m.get('f') in (a[2], b[2]):
                    counts.setdefault(k, {}).setdefault(m['f'], []).append(x['n'])
    return bool(counts) and all(sorted(c.get(a[2], [])) == sorted(c.get(b[2], [])) for c in counts.values())


def nodes(x):
    if isinstance(x, dict):
        if 'k' in x:
            yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def below(pc, i, b):
    """the branch facts say index i is smaller than the number of elements of b"""
    b = plainloc(b)
    pc = [(plainloc(t), p) for t, p in pc]
    for t, p in pc:
        if t[0] == 'any':
            # the same comparison for every list it can be
            opts = [literal(x, p) for x in t[1]]
            if any(x == ('bin', '<', i, ('size', b)) and q for x, q in opts):
                return True
            continue
        if t == ('bin', '<', i, ('size', b)) and p:
            return True
        # i <= size - 1 is only safe for signed arithmetic and is not accepted
    return False


def run(P, tier):
    C = Check('C10', 'every element access in an interface method (or in the model method it calls) whose index comes from a parameter lies behind a test that this index is smaller than the number of elements of that very list; the branch on which it is not returns an error',
              'flow-sensitive bounds analysis: provenance of every container index and branch facts at the access')
    n = 0
    for cls in wrapper_classes(P) + mvrx_classes(P):
        sc = cls.split('::')[-1]
        for k, f in methods(P, cls).items():
            if not f.get('virt') or not any(integral(p['t']) for p in f['p']):
                continue
            h, fr = analyse(P, k, False)
            if not any(c[0] in CHANGES for c in h.calls):
                h, fr = analyse(P, k, True)
            name = '%s::%s' % (sc, f['n'])
            where = '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
            for bs, ix, pc, w, e in h.idx:
                if any(m in (e.get('cls') or e.get('q') or '') for m in MAPS):
                    continue
                for i in ix:
                    s = slotof(i)
                    if not s or s[1]:
                        if any(q[1] == () and integral(f['p'][q[0]]['t']) for q in slots_in(i)) and not modelled_arith(i):
                            C.skip('bounded', '%s/%s' % (name, show(i)[:50]), 'the index is computed from the parameter')
                        continue
                    n += 1
                    for b in bs:
                        b = uncast(b)
                        ok = below(pc, i, b) or any(below(pc, i, x) and parallel(P, x, b) for x in sized(pc))
                        C.ob('bounded', '%s/%s[%s]' % (name, show(b)[-60:], f['p'][s[0]]['n']), ok, w, '' if ok else '%s accesses %s with %s without %s < %s.size() being known' % (f['n'], show(b)[-80:], f['p'][s[0]]['n'], f['p'][s[0]]['n'], show(b)[-40:]))
            # out of range is an error
            if h.idx and f['ret'] in ('unsigned int', 'VectorworksMVR::VCOMError'):
                for st, v in fr.rets:
                    for t, p in st.pc:
                        if t[0] == 'bin' and t[1] == '<' and not p and t[3][0] == 'size' and slotof(t[2]):
                            bad = any(const_int(x) == 0 for x in v)
                            C.ob('reports', name, not bad, where, '' if not bad else '%s returns NoError for an index out of range' % f['n'])
    C.need('bounded', 40)
    C.need('reports', 30)
    return C.finish(P, tier)


def mvrx_classes(P):
    return sorted({f['cls'] for f in P.funcs.values() if '/mvrxchange/' in f['file'] and f.get('cls', '').startswith(API) and f.get('virt')} - set(wrapper_classes(P)))


def integral(t):
    return t.replace('const ', '').replace('&', '').strip() in ('unsigned long', 'unsigned int', 'int', 'unsigned short', 'long', 'size_t', 'short', 'unsigned char')


def modelled_arith(i):
    return i[0] in ('call', 'elem')
