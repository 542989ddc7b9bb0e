"""C25: keyed lookups give the same answer whether a look-up index is used or the collection is scanned."""
from links import *
from report import Check, Broken


class H(LinkHooks):
    def __init__(self, P):
        super().__init__(P)
        self.jumps = []
        self.seq = []        # (kind, data, pc, where, fn stack, loops)

    def note(self, eng, st, kind, data, e):
        self.seq.append((kind, data, st.pc, eng.where(e), [f.fn['key'] for f in eng.stack], list(eng.loops)))

    def on_write(self, eng, st, loc, vals, node, init=False):
        if loc[0] == 'fld' and not init:
            self.note(eng, st, 'write', (loc, vals), node)

    def on_cond(self, eng, st, v, e):
        for t in v:
            self.note(eng, st, 'cond', t, e)

    def on_jump(self, eng, st, s):
        self.note(eng, st, 'jump', s, s)

    def extra(self, eng, st, e, obj, argv, argl):
        n = e['n']
        if n == 'AddError':
            self.note(eng, st, 'adderr', argv, e)
            return E()
        if obj and n in ('find', 'count', 'at', 'operator[]', 'emplace', 'insert', 'try_emplace', 'insert_or_assign', 'clear', 'contains', 'erase'):
            self.note(eng, st, n, (obj, argv), e)
        return None

    def on_return(self, eng, st, v, s):
        self.note(eng, st, 'ret', v, s)


KEYED = ('unordered_map<TXString', 'std::map<TXString', 'unordered_set<TXString')


def last(f):
    return f.split('::')[-1]


def path(t):
    """member path of a collection, newest first; recursion levels collapse to the member name"""
    while t[0] == 'elem':
        t = t[1]
    return t[2] if t[0] == 'fld' else None


def idents(t, c):
    return text_ident(t, ('elem', c))


def eq_parts(t, p=True):
    """(a, b, polarity) of an equality between texts"""
    t, p = literal(t, p)
    if t[0] == 'bin' and t[1] == '==':
        return t[2], t[3], p
    if t[0] == 'call' and t[1] in ('EqualNoCase', 'Compare', 'CompareNoCase', 'operator==') and t[3] and t[4]:
        return t[3][0], t[4][0], p if t[1].startswith(('Equal', 'oper')) else not p
    return None


def flat(t):
    if isinstance(t, tuple) and t and t[0] == 'set':
        for x in t[1]:
            yield x
    else:
        yield t


def match_fact(t, p):
    """does this branch fact say that the searched object was found (or that loading is aborted)?"""
    if t[0] == 'any':
        return all(match_fact(x, p) for x in t[1] if const_int(x) is None or bool(const_int(x)) == p)
    t, p = literal(t, p)
    if t == ('abort',):
        return p
    q = eq_parts(t, p)
    if q and q[2] and NULL not in q[:2]:
        return True
    if t[0] == 'isnull':
        return not p and any(s[0] in ('call', 'elem', 'fld') for s in subterms(t[1]) if isinstance(s, tuple) and s)
    if t[0] in ('elem', 'fld', 'call') and p:
        return True
    return False


def name_links(P, cls):
    """pointer members the node reference of a class is made from, directly or through the objects it asks"""
    out, seen = set(), set()

    def walk(y):
        if isinstance(y, dict):
            if y.get('k') == 'mem' and y.get('f') and y.get('t', '').rstrip().endswith('*'):
                out.add(y['f'])
            if y.get('k') == 'call' and y.get('fn') in P.funcs and (y.get('cls') or '').startswith('SceneData::Gdtf'):
                func(y['fn'])
            for z in y.values():
                if isinstance(z, (dict, list)):
                    walk(z)
        elif isinstance(y, list):
            for z in y:
                walk(z)

    def func(k):
        if k not in seen:
            seen.add(k)
            walk(P.funcs[k]['body'])
    for k, f in P.funcs.items():
        if f.get('cls') == cls and f['n'] == 'GetNodeReference' and f.get('body'):
            func(k)
    return out


def early(P, uses, wrote):
    """[(class, link member, where)] of node references that are used as keys before the links they are made from are set
    uses: [(position, term, where)], wrote: {member: [position]}"""
    first, memo = {}, {}
    for i, t, w in uses:
        for s in subterms(t):
            if not (isinstance(s, tuple) and s and s[0] == 'call' and s[1] == 'GetNodeReference' and s[3]):
                continue
            for o in s[3][0] if isinstance(s[3][0], frozenset) else [s[3][0]]:
                if o[0] == 'elem' and o[1][0] == 'fld':
                    first.setdefault(o[1][2], (i, w))
    for f, (i, w) in sorted(first.items()):
        t = next((x['t'] for c in P.classes.values() for x in c['fields'] if x['f'] == f), '')
        for cls in [c for c in P.classes if c.startswith('SceneData::Gdtf') and (c + ' *' in t)]:
            if cls not in memo:
                memo[cls] = name_links(P, cls)
            for m in sorted(memo[cls] & set(wrote)):
                yield cls, m, f, w, i > min(wrote[m])


def order(fn, P, comp):
    """source order of [test/fill | recursive call] in a self-recursive function"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'call':
                for y in [x.get('o')] + x.get('a', []):
                    walk(y)
                if x.get('fn') == fn['key']:
                    out.append('rec')
                elif x.get('n') == 'GetNodeReference':
                    out.append('self')
                return
            for y in x.values():
                if isinstance(y, (dict, list)):
                    walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(fn['body'])
    return out


def run(P, tier):
    C = Check('C25', 'every look-up index holds the first element of exactly the collections the scan of the same function searches, under the same text, is rebuilt from empty before it is consulted, and the scan only stops at a match; hash functors of text keys fold case like text equality does',
              'interprocedural dataflow over the reference resolution pass: contents of every keyed index at each look-up against the alternative scan')
    h = H(P)
    k = [k for k, f in P.funcs.items() if f['q'] == 'SceneData::GdtfFixture::ResolveAllReferences']
    if not k:
        raise Broken('the reference resolution pass was not found')
    eng = Engine(P, h, inline_res)
    eng.recur = 2
    eng.run(k[0])
    seq = h.seq
    ftype = {}
    for c in P.classes.values():
        for f in c['fields']:
            ftype[f['f']] = f['t']
    finds, fills, clears = {}, {}, {}
    for i, x in enumerate(seq):
        if x[0] in ('find', 'count', 'at', 'contains', 'emplace', 'insert', 'try_emplace', 'insert_or_assign', 'operator[]', 'clear'):
            for o in x[1][0]:
                if o[0] != 'fld' or not any(t in ftype.get(o[2], '').replace('VectorworksMVR::', '') for t in KEYED):
                    continue
                if x[0] in ('find', 'count', 'at', 'contains'):
                    finds.setdefault(o[2], []).append((i, o, x))
                elif x[0] == 'clear':
                    clears.setdefault(o[2], []).append((i, o, x))
                else:
                    fills.setdefault(o[2], []).append((i, o, x))
    for m in sorted(finds):
        sm = short(m.rsplit('::', 1)[0]) + '.' + last(m)
        w0 = finds[m][0][2][3]
        fl = fills.get(m, [])
        C.ob('filled', sm, bool(fl), w0, '' if fl else 'the index %s is consulted but never filled' % sm)
        if not fl:
            continue
        C.ob('built-before-use', sm, fl[0][0] < finds[m][0][0], fl[0][2][3], '' if fl[0][0] < finds[m][0][0] else 'the index %s is consulted before it is built' % sm)
        cl = [c for c in clears.get(m, []) if c[0] < fl[0][0]]
        C.ob('rebuilt', sm, bool(cl), fl[0][2][3], '' if cl else 'the index %s is filled without being emptied first, so objects of an earlier load stay in it' % sm)
        base = cl[0][2][2] if cl else frozenset()
        icoll, iid = set(), set()
        for i, o, x in fl:
            ok = x[0] in ('emplace', 'insert', 'try_emplace') or any(mentions(t, lambda s: isinstance(s, tuple) and s and s[0] in ('iter', 'call') and o in s) for t, p in x[2])
            C.ob('first-wins', sm, ok, x[3], '' if ok else 'of several elements with the same key the index %s keeps the last, a scan finds the first' % sm)
            walked = {r for l in x[5] for r in (l[0] or ())}
            extra = [(t, p) for t, p in x[2] - base if t != ('abort',) and not (t[0] == 'empty' and (t[1] in walked or t[1][0] == 'fld' and t[1][1] == THIS))]
            C.ob('all-elements', sm, not extra, x[3], '' if not extra else 'an element is entered into the index %s only if %s' % (sm, [('' if p else 'not ') + show(t) for t, p in extra]))
            if x[0] == 'operator[]':
                continue
            for v in x[1][1][-1] if x[1][1] else ():
                c = coll_of(v)
                if c is None:
                    for s in subterms(v):
                        if isinstance(s, tuple) and s and s[0] == 'elem':
                            c = s[1]
                            v = s
                            break
                if c is None:
                    continue
                icoll.add(path(c))
                for kk in x[1][1][0]:
                    iid |= text_ident(kk, v) or {'?' + show(kk)}
        # the scans that stand in for this index
        byfn = {}
        for i, o, x in finds[m]:
            byfn.setdefault(x[4][-1], []).append((i, x))
        for fk, l in sorted(byfn.items()):
            fn = P.funcs[fk]
            nm = '%s in %s' % (sm, fn['q'].split('::')[-1] if 'lambda' not in fk else 'lambda')
            keys = {t for i, x in l for t in x[1][1][0]}
            scoll, sid = set(), set()
            for y in seq:
                if y[0] != 'cond' or fk not in y[4]:
                    continue
                for t in flat(y[1]):
                    q = eq_parts(t)
                    if not q:
                        continue
                    for a, b in ((q[0], q[1]), (q[1], q[0])):
                        if b not in keys and not (b[0] == 'set' and set(b[1]) & keys):
                            continue
                        for s in subterms(a):
                            if isinstance(s, tuple) and len(s) >= 2 and s[0] == 'elem' and path(s[1]):
                                idt = text_ident(a, s)
                                if idt:
                                    scoll.add(path(s[1]))
                                    sid |= idt
                                    break
            C.ob('fallback', nm, bool(scoll), l[0][1][3], '' if scoll else '%s consults the index %s but finds nothing when the index is not built' % (fn['q'], sm))
            if not scoll:
                continue
            C.ob('same-collection', nm, scoll == icoll, l[0][1][3], '' if scoll == icoll else 'the index %s holds elements of %s, the scan searches %s' % (sm, sorted(short(c) for c in icoll), sorted(short(c) for c in scoll)))
            C.ob('same-text', nm, sid == iid, l[0][1][3], '' if sid == iid else 'the index %s is keyed by %s, the scan compares %s' % (sm, sorted(iid), sorted(sid)))
            o = order(fn, P, 'cmp')
            if 'rec' in o:
                fo = {tuple(order(P.funcs[x[4][-1]], P, 'fill')[:2]) for i, oo, x in fl if 'rec' in order(P.funcs[x[4][-1]], P, 'fill')}
                bad = fo and (o[0] == 'rec') != (list(fo)[0][0] == 'rec')
                C.ob('same-order', nm, not bad, l[0][1][3], '' if not bad else 'index and scan visit nested elements in a different order, so duplicates resolve differently')
    # the texts elements are entered under are final
    wrote = {}
    for i, x in enumerate(seq):
        if x[0] == 'write' and x[1][0][1][0] == 'elem':
            wrote.setdefault(x[1][0][2], []).append(i)
    uses = [(i, t, x[3]) for m in fills for i, o, x in fills[m] if x[1][1] for t in x[1][1][0]]
    for cls, m, f, w, ok in early(P, sorted(uses, key=lambda u: u[0]), wrote):
        C.ob('key-final', '%s by %s' % (short(f), short(m)), ok, w, '' if ok else 'the elements of %s are entered into an index by their node reference before %s, which it is made from, is resolved' % (short(f), short(m)))
    # filling an index is not left early
    fillers = {id(l[1]) for m in fills for i, o, x in fills[m] for l in x[5]}
    for x in seq:
        if x[0] != 'jump' or x[1]['k'] == 'continue':
            continue
        lp = [l for l in x[5] if l[2] == len(x[4])]
        if not lp or id(lp[-1][1]) not in fillers:
            continue
        facts = x[2] - lp[-1][3]
        ok = ('abort',) in {t for t, p in facts if p}
        C.ob('fill-complete', '%s %s' % (P.funcs[x[4][-1]]['n'], x[1]['k']), ok, x[3], '' if ok else 'the filling of an index ends early, when %s' % [('' if p else 'not ') + show(t) for t, p in facts])
    # scans stop only at a match
    look = {x[4][-1] for m in finds for i, o, x in finds[m]}
    for x in seq:
        if x[0] in ('count', 'find', 'contains') and any(o[0] == 'L' for o in x[1][0]):
            look.add(x[4][-1])
    n = 0
    for x in seq:
        if x[0] != 'jump' or x[1]['k'] == 'continue' or x[4][-1] not in look:
            continue
        lp = [l for l in x[5] if l[2] == len(x[4])]
        if not lp:
            continue
        facts = x[2] - lp[-1][3]
        n += 1
        ok = any(match_fact(t, p) for t, p in facts)
        fn = P.funcs[x[4][-1]]
        C.ob('scan-to-match', '%s %s#%s' % (fn['n'], x[1]['k'], ','.join(sorted(short(path(r) or show(r)) for r in (lp[-1][0] or ())))), ok, x[3],
             '' if ok else 'a scan that stands in for an index ends before a match, when %s' % [('' if p else 'not ') + show(t) for t, p in facts])
    # hash functors
    good = {}
    for c in P.classes.values():
        ks = [kk for kk, f in P.funcs.items() if f.get('cls') == c['q'] and f['n'] == 'operator()' and [p['t'] for p in f['p']] in (['const VectorworksMVR::TXString &'], ['VectorworksMVR::TXString']) and f['ret'] == 'unsigned long']
        for kk in ks:
            calls = set()

            def walk(y, d=0):
                if isinstance(y, dict):
                    if y.get('k') == 'call':
                        calls.add(y['n'])
                        if d < 3 and y.get('fn') in P.funcs and not P.funcs[y['fn']].get('cls', '').endswith('TXString'):
                            walk(P.funcs[y['fn']]['body'], d + 1)
                    for z in y.values():
                        if isinstance(z, (dict, list)):
                            walk(z, d)
                elif isinstance(y, list):
                    for z in y:
                        walk(z, d)
            walk(P.funcs[kk]['body'])
            ok = bool(calls & {'MakeLower', 'MakeUpper', 'tolower', 'towlower', 'toupper', 'towupper'})
            good[c['q']] = ok
            C.ob('hash', c['q'], ok, P.funcs[kk]['file'].replace('/repo/', '') + ':%d' % P.funcs[kk]['l'], '' if ok else 'text keys compare without regard to case but %s hashes them as they are' % c['q'])
    for f, t in sorted(ftype.items()):
        for pre in ('unordered_map<VectorworksMVR::TXString', 'unordered_set<VectorworksMVR::TXString'):
            if pre in t:
                fun = [c for c in good if c in t] or ['std::hash<VectorworksMVR::TXString>']
                ok = all(good.get(c, False) for c in fun)
                C.ob('hashed-key', short(f), ok, '', '' if ok else '%s hashes its text keys with regard to case although they compare without' % f)
    C.need('same-collection', 6)
    return C.finish(P, tier)
