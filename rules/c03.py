"""C03: every attribute and element text a scene object of an MVR file writes is what it reads back."""
from mmodel import *
from mlinks import mvr_links
from report import Check, Broken
import c01

IDENTITY = ('', 'uuid')        # given to the constructor by whoever creates the object while reading (C29)
# composed text of the node read by pieces
MEANINGLESS_ALONE = {('SceneDataFixtureObj', 'Gobo', 'rotation'): 'the rotation belongs to the gobo whose node it is written to'}


def ref_members(P, cls):
    """pointer members of the class that point to other scene objects"""
    r = set()
    c = cls
    while c:
        cl = P.classes.get(c)
        if cl is None:
            break
        for f in cl['fields']:
            t = f['t']
            if t.endswith('*') and 'SceneData' in t:
                r.add(f['n'])
        c = cl['bases'][0] if cl['bases'] else None
    return r


def strings(t):
    return {s[1] for s in subterms(t) if isinstance(s, tuple) and len(s) == 2 and s[0] == 'str' and s[1]}


def identity_of_matrix(P, lit, pol):
    """the literal says the matrix is the identity: all four rows are compared with the unit rows"""
    if lit[0] != 'all' or pol:
        return None
    want = {'GetUVector': (1, 0, 0), 'GetVVector': (0, 1, 0), 'GetWVector': (0, 0, 1), 'GetOffset': (0, 0, 0)}
    seen = {}
    for l, p in lit[1:]:
        for s in subterms(l):
            if isinstance(s, tuple) and s and s[0] == 'call' and s[1] in want and p:
                seen[s[1]] = l
    miss = [w for w in want if w not in seen]
    bad = []
    for n, l in seen.items():
        nums = [float(s[1]) for s in subterms_list(l) if isinstance(s, tuple) and len(s) >= 2 and s[0] in ('int', 'float') and isinstance(s[1], (int, float))]
        if n != 'GetOffset' and nums and tuple(nums[:3]) != want[n]:
            bad.append((n, nums))
        if n == 'GetOffset' and any(x for x in nums):
            bad.append((n, nums))
    return miss, bad


def subterms_list(t):
    """all subterms in order, repetitions kept"""
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                yield from subterms_list(x)


def run(P, tier):
    C = Check('C03', 'for each attribute or element text a scene object writes there is a read of the same attribute of the same node, through the inverse conversion, into the written member (or into the text its reference is resolved from), under a condition that holds whenever it was written',
              'flow-sensitive dataflow over OnPrintToFile/OnReadFromNode of every scene object class (helpers and base-class calls inlined), provenance of every written value and of every member at exit of the reader')
    MI = MethodIndex(P)
    links = mvr_links(P)
    if links is None:
        raise Broken('the reader of the scene description was not found')
    linkmap = {}
    for l in links:
        if l['key']:
            linkmap.setdefault(l['field'], set()).add((l['key'], l['cls'], l['how']))
    n = 0
    for cls in sorted(all_subclasses(P, MBASE)):
        T = analyse_mvr(P, cls, MI)
        if not T.kw or not T.kr:
            continue
        n += 1
        W, R = writes(T), reads(T)
        sc = short(cls)
        W.pop(IDENTITY, None)
        for k in [k for k in R if k[1] == 'uuid' and not R[k]['fields']]:
            R.pop(k)
        refs = ref_members(P, cls)
        for key in list(W):
            new = {}
            for (conv, src, g), v in W[key].items():
                if src and src[0] and conv == 'ConvertUUID' and src[0].split('.')[0] in refs:
                    conv, src = 'reference', (src[0].split('.')[0],)
                if conv.startswith('Convert'):
                    src = tuple(x for x in src if x)
                # the identity matrix is not written
                keep = set()
                for l, p in g:
                    m = identity_of_matrix(P, l, p)
                    if m is not None and this_fields(l) == {src[0]}:
                        miss, bad = m
                        ok = not miss and not bad
                        C.ob('default-skipped', '%s/%s' % (sc, key[0]), ok, v[0], '' if ok else 'the matrix of %s is left out although it may differ from the identity: %s' % (sc, ('not compared: %s ' % miss if miss else '') + ('compared with %s' % bad if bad else '')))
                        back = any(this_field(e['loc']) == src[0] and not any('attr' == s[0] for x in e['value'] for s in subterms(x) if isinstance(s, tuple) and s) for e in T.rd if e['kind'] == 'set')
                        C.ob('default-restored', '%s/%s' % (sc, key[0]), back, v[0], '' if back else '%s does not reset the matrix when the node is missing' % sc)
                        continue
                    if (sc, key[0], key[1]) in MEANINGLESS_ALONE and len(this_fields(l)) == 1 and any(this_fields(l) == {s2[0]} for (c2, s2, g2) in W.get((key[0], '#text'), {})):
                        continue
                    keep.add((l, p))
                new[(conv, src, frozenset(keep))] = v
            W[key] = new
        # composed texts: the separators the reader looks for are the ones the writer puts in
        for key, forms in list(W.items()):
            comp = [(s, v) for (c, s, g), v in forms.items() if c == 'expr' and len(s) > 1]
            if not comp or key not in R:
                continue
            s, v = comp[0]
            wtext = strings(v[1])
            got = {f for f, c, i in R[key]['fields']} | R[key]['flags']
            miss = sorted(set(s) - got)
            C.ob('composed', '%s/%s%s' % (sc, key[0], key[1]), not miss, v[0], '' if not miss else 'the text of %s is composed of %s but %s is not read back from it' % (sc, sorted(s), miss))
            seps = set()
            for f in got:
                for val in T.fin.get(field_loc(T, f), ()):
                    for x in subterms(val):
                        if isinstance(x, tuple) and x and x[0] == 'call' and x[1] in ('Find', 'ReverseFind', 'find', 'rfind'):
                            for a in x[4]:
                                if isinstance(a, tuple) and a and a[0] == 'str':
                                    seps.add(a[1])
            for sep in sorted(seps):
                ok = any(sep in w for w in wtext)
                C.ob('separator', '%s/%s|%r' % (sc, key[1], sep), ok, R[key]['where'], '' if ok else '%s looks for %r in a text that is composed with %s' % (sc, sep, sorted(wtext)))
            del W[key]
            R.pop(key)
        c01.check_class(C, P, cls, T, W, R, ctor_values(P, cls, inline_mvr), linkmap, {})
    C.notes['scene_object_classes'] = n
    if n < 18:
        raise Broken('only %d scene object classes analysed' % n)
    C.need('readback', 120)
    C.need('member', 120)
    return C.finish(P, tier)


def field_loc(T, f):
    for k in T.fin:
        if k[0] == 'fld' and this_field(k) == f:
            return k
    return None
