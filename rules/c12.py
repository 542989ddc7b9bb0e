"""C12: the count, the element access and the creation of an API list work on the same list; the object handed out stands for the model element."""
import re
import c08
from apimodel import *
from report import Check, Broken

NOERR = 0


def stems(name):
    """(role, stem) of a list method"""
    m = re.match(r'GetCount(\w+)$', name)
    if m:
        return 'count', m.group(1)
    m = re.match(r'Get(\w+?)(s|es)?Count$', name)
    if m:
        return 'count', m.group(1)
    m = re.match(r'Get(\w+)At$', name)
    if m:
        return 'at', m.group(1)
    m = re.match(r'(?:Create|Add)(\w+)$', name)
    if m:
        return 'create', m.group(1)
    return None, None


def iface_out(f):
    """indices of the parameters an interface pointer is handed out through"""
    return [i for i, p in enumerate(f['p']) if re.match(r'VectorworksMVR::(\w+::)?I[A-Z_]\w+ \*\*$', p['t'])]


def counted(m):
    """lists whose size is written to an out parameter"""
    r = {}
    for l, vals, pc, w, i in m.h.writes:
        if slotof(l) is None:
            continue
        for v in vals:
            for s in subterms(uncast(v)):
                if isinstance(s, tuple) and len(s) == 2 and s[0] == 'size':
                    r.setdefault(mpath(s[1]) or show(s[1]), (w, v))
    return r


def elements(t):
    """element accesses inside a term: (list path, index term)"""
    for s in subterms(t):
        if isinstance(s, tuple) and len(s) >= 2 and s[0] in ('idx', 'elem'):
            yield mpath(s[1]) or show(s[1]), s[2] if len(s) > 2 else None, s


def wrapped(m):
    """what the objects got from VWQueryInterface are filled with: {iid term: set of (field, value)}"""
    r = {}
    for l, vals, pc, w, i in m.h.writes:
        b = l
        if l[0] == 'fld' and uncast(l[1])[0] == 'out' and uncast(l[1])[1] == 'VWQueryInterface':
            for v in vals:
                r.setdefault(uncast(l[1]), []).append((l[2], v, pc, w))
    return r



def is_query(t):
    t = uncast(t)
    return isinstance(t, tuple) and t[:1] == ('out',) and t[1] == 'VWQueryInterface'


def about_query(t):
    """facts about the success of the query itself, which cannot fail for a known identifier (C11)"""
    return any(isinstance(s, tuple) and s[:1] in (('out',), ('call',)) and s[1] == 'VWQueryInterface' for s in subterms(t))


def extra(pc, ref):
    """branch facts of pc that are not known where ref holds, without those about the query"""
    return [(t, p) for t, p in pc if (t, p) not in ref and not about_query(t)]


def given_or_new(t):
    return bool(params_in(t)) or any(isinstance(s, tuple) and s[:1] == ('new',) for s in subterms(t))


def success(f, m):
    """states in which the method returns success"""
    for st, v in m.fr.rets:
        if f['ret'] not in ('unsigned int', 'VectorworksMVR::VCOMError') or v is None or any(const_int(x) in (NOERR, None) for x in v):
            yield st, v


def alternatives(ws, pc):
    """one of the writes happens on every path that leads to pc"""
    if any(not extra(w[2], pc) for w in ws):
        return True
    # writes on complementary branches
    ex = [extra(w[2], pc) for w in ws]
    for e in ex:
        if len(e) == 1 and any(len(o) == 1 and o[0][0] == e[0][0] and o[0][1] != e[0][1] for o in ex):
            return True
    return False


def model_value(v):
    v = uncast(v)
    if v[0] == 'addr':
        v = uncast(v[1])
    return v


def run(P, tier):
    C = Check('C12', 'for every list of an API class the lists that Count measures, At indexes and Create appends to are the same; At uses the index it was given; Create hands out the object it appended; every interface pointer handed out with success is a newly queried object that was given its model object',
              'interprocedural provenance of counted, indexed, appended and wrapped objects in all interface methods')
    for cls in wrapper_classes(P):
        sc = cls.split('::')[-1]
        lists = {}
        single = {}
        for k, f in sorted(methods(P, cls).items()):
            if not f.get('virt') or not f.get('body'):
                continue
            role, st = stems(f['n'])
            outs = iface_out(f)
            if not role and not outs:
                continue
            m = analyse_method(P, k)
            name = '%s::%s' % (sc, f['n'])
            where = '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
            key = (st or '').rstrip('s').lower()
            wr = wrapped(m)
            # what is handed out
            given = []          # (value, pc, where)
            for o, ws in wr.items():
                given += [(v, pc, w) for fl, v, pc, w in ws]
            for l, vals, pc, w, i in m.h.writes:
                s = slotof(l)
                if s and '&' in f['p'][s[0]]['t'] + f['p'][s[0]].get('st', '') or s and '*' in f['p'][s[0]]['t']:
                    given += [(v, pc, w) for v in vals if not is_query(v)]
            for st_, v in m.fr.rets:
                given += [(x, st_.pc, where) for x in v or ()]
            if role == 'count' and not any('&' not in p['t'] for p in f['p']):
                c = counted(m)
                if c:
                    lists.setdefault(key, {})['count'] = (set(c), name, where)
            elif role == 'at':
                idx = {}
                for v, pc, w in given:
                    for path, ix, t in elements(v):
                        idx.setdefault(path, []).append((ix, w))
                # parameters that choose the element
                ints = [i for i, p in enumerate(f['p']) if i not in outs and re.sub('const |&| ', '', p['t']) in ('unsignedlong', 'unsignedint', 'int', 'size_t')]
                for path, ixs in idx.items():
                    if not isinstance(path, tuple):
                        C.skip('element', '%s/%s' % (name, str(path)[:60]), 'the list is local to the method')
                        continue
                    ixs = [(ix, w) for ix, w in ixs if ix is not None]      # elements met in a loop are judged by the branch facts only
                    good = [ix for ix, w in ixs if ix is not None and slotof(ix) and slotof(ix)[0] in ints and not slotof(ix)[1]]
                    bad = [(ix, w) for ix, w in ixs if not (ix is not None and slotof(ix) and slotof(ix)[0] in ints and not slotof(ix)[1])]
                    if good:
                        lists.setdefault(key, {}).setdefault('at', (set(), name, where))[0].add(path)
                    if not ixs:
                        continue
                    ok = not bad
                    C.ob('element', '%s/%s' % (name, '.'.join(path)), ok, where, '' if ok else '%s hands out element [%s] of %s instead of the one at the index it was given' % (
                        f['n'], show(bad[0][0])[:60], '.'.join(path)))
                used = any(slotof(x) and slotof(x)[0] in ints for v, pc, w in given for t in [v] + [y for y, p in pc] for x in subterms(t) if isinstance(x, tuple) and x[:1] == ('param',))
                if ints:
                    C.ob('index-used', name, used, where, '' if used else '%s hands out something that does not depend on the index it was given' % f['n'])
            pushes = [(o, v) for c in m.h.calls if c[0] in ('push_back', 'emplace_back') for o in c[1] or () for v in (c[2][-1] if c[2] else ())]
            if role == 'create':
                news = {model_value(v) for v, pc, w in given if model_value(v)[0] == 'new' and not show(v).startswith('new(char')}
                own = [(o, v) for o, v in pushes if mpath(o) or o[0] == 'fld' and params_in(o)]
                if outs and wr:
                    if own:
                        lists.setdefault(key, {}).setdefault('create', (set(), name, where))[0].update(mpath(o) for o, v in own if mpath(o))
                        app = {uncast(v) for o, v in own}
                        firsts = [(fl, v) for ws in wr.values() for fl, v, pc, w in ws if model_value(v)[0] == 'new' and len([1 for x in news]) >= 1]
                        bad = [v for fl, v in firsts if model_value(v) not in app and v[1:2] and fl.split('::')[-1] not in ('fContext',) and model_value(v) in news and not held(m, model_value(v))]
                        C.ob('created', name, bool(firsts) and not bad, where, '' if firsts and not bad else '%s hands out %s, which is not the object it appended (%s)' % (f['n'], show(bad[0])[:60] if bad else 'nothing', ', '.join(show(x)[:50] for x in app)))
                    else:
                        st_members = {mpath(l) for l, vals, pc, w, i in m.h.writes if mpath(l) and any(uncast(v) in news for v in vals)}
                        single.setdefault(key, {})['create'] = (st_members, name, where)
                        C.ob('created', name, bool(st_members), where, '' if st_members else '%s hands out a new object that it does not store anywhere' % f['n'])
                if own:
                    pcs = [c[3] for c in m.h.calls if c[0] in ('push_back', 'emplace_back') and any(mpath(o) or o[0] == 'fld' and params_in(o) for o in c[1] or ())]
                    for st_, v in success(f, m):
                        # whether it is appended may depend on what the caller passed, not on what the list holds
                        bad = [e for e in (([t for t, p in extra(pc, st_.pc) if not given_or_new(t)]) for pc in pcs)]
                        ok = any(not e for e in bad)
                        C.ob('appended', name, ok, where, '' if ok else '%s returns success where it appends the object only if %s' % (f['n'], show(min(bad, key=len)[0])[:100]))
                if own and not (outs and wr):
                    lists.setdefault(key, {}).setdefault('create', (set(), name, where))[0].update(mpath(o) for o, v in own if mpath(o))
                arguments(P, C, f, m, name, where, outs, wr, news)
            if not role and outs and f['n'].startswith('Get'):
                mem = {mpath(model_value(v)) for v, pc, w in given if mpath(model_value(v))}
                single.setdefault(f['n'][3:].rstrip('s').lower(), {})['get'] = (mem, name, where)
            # the object handed out
            if f['n'].startswith('Set'):
                continue
            for i in outs:
                ws = [(l, vals, pc, w) for l, vals, pc, w, n in m.h.writes if slotof(l) == (i, ())]
                sets = [w for w in ws if any(not (x == ('null',) or const_int(x) == 0) for x in w[1])]
                for st_, v in success(f, m):
                    C.ob('set', '%s/%s' % (name, f['p'][i]['n']), alternatives(sets, st_.pc), where,
                         '' if alternatives(sets, st_.pc) else '%s can return success without handing out an object' % f['n'])
                    fills = [(fl, v, pc, w) for ws2 in wr.values() for fl, v, pc, w in ws2 if v != ('null',)]
                    objs = {uncast(x) for w in sets for x in w[1]}
                    filled = all(any(not extra(pc, st_.pc) or alternatives([(0, 0, pc_) for fl, v_, pc_, w_ in wr.get(o, [])], st_.pc) for fl, v2, pc, w in wr.get(o, [])) for o in objs if is_query(o))
                    if not filled and any(model_value(x[1])[0] == 'new' for o in objs for x in wr.get(o, [])) and f['n'].startswith('Get'):
                        C.skip('stands-for', name, 'the API object reads its model object itself')
                        continue
                    C.ob('stands-for', '%s/%s' % (name, f['p'][i]['n']), filled, where, '' if filled else '%s can hand out an API object that was not given its model object' % f['n'])
        for key, d in sorted(lists.items()):
            base = d.get('count') or d.get('at')
            if not base or len(d) < 2:
                continue
            for role in ('at', 'create'):
                if role in d and d[role] is not base and d[role][0]:
                    a, b = base[0], d[role][0]
                    # a list that is filled and read together with the counted one is as good
                    ok = a == b or bool(b) and all(y in a or any(twins(P, cls, x, y) for x in a) for y in b)
                    C.ob('same-list', '%s/%s' % (d[role][1], role), ok, d[role][2], '' if ok else '%s works on %s while %s works on %s' % (
                        d[role][1], names(b), base[1], names(a)))
        for key, d in sorted(single.items()):
            if 'get' in d and 'create' in d:
                ok = bool(d['get'][0] & d['create'][0])
                C.ob('same-member', d['create'][1], ok, d['create'][2], '' if ok else '%s stores the new object in %s while %s returns %s' % (d['create'][1], names(d['create'][0]), d['get'][1], names(d['get'][0])))
    C.need('same-list', 40)
    C.need('element', 30)
    C.need('created', 20)
    C.need('appended', 20)
    C.need('argument', 50)
    C.need('argument-used', 80)
    C.need('set', 60)
    C.need('stands-for', 60)
    return C.finish(P, tier)


def chain(l):
    """(object made here, members below it) of a location"""
    r = []
    while isinstance(l, tuple) and l[:1] == ('fld',):
        r.append(l[2].split('::')[-1])
        l = uncast(l[1])
        if l[:1] == ('new',):
            return l, tuple(reversed(r))
    return None, ()


def depends(t, i):
    return any(isinstance(x, tuple) and slotof(x) and slotof(x)[0] == i for x in subterms(t))


def places(P, c):
    """property name -> members of the model object that the setters and getters of an API class work on"""
    if c in _places:
        return _places[c]
    r = {}
    for k, f in methods(P, c).items():
        if not f.get('virt') or not f.get('body'):
            continue
        if f['n'].startswith('Get'):
            g = c08.getter_map(P, k)
            if len(g) == 1:
                for vs in g.values():
                    r.setdefault(c08.plain(f['n'][3:]), set()).update(p[1:] for p, sh in vs)
        elif f['n'].startswith('Set') and len(f['p']) == 1:
            r.setdefault(c08.plain(f['n'][3:]), set()).update(p[1:] for p, s, sh, v, w in c08.setter_map(P, k)['map'])
    _places[c] = {n: {p for p in v if p} for n, v in r.items()}
    return _places[c]


_places = {}


def arguments(P, C, f, m, name, where, outs, wr, news):
    """what is passed to a method that creates an element ends up where the element's own setter and getter of that name look for it"""
    pl = {}
    for o in wr:
        for g in iids_in(o):
            for c in factory(P)[0].get(g, ()):
                for n, v in places(P, c).items():
                    pl.setdefault(n, set()).update(v)
    ins = [i for i in range(len(f['p'])) if i not in outs]
    for i in ins:
        n = c08.plain(f['p'][i]['n'])
        terms = [(t, l) for l, vals, pc, w, _ in m.h.writes for t in list(vals)]
        seen = any(depends(t, i) or depends(l, i) for t, l in terms) or any(depends(t, i) for l, vals, pc, w, _ in m.h.writes for t, q in pc) or \
            any(depends(v, i) for c in m.h.calls for a in c[2] or () for v in a or ())
        C.ob('argument-used', '%s/%s' % (name, f['p'][i]['n']), seen, where, '' if seen else '%s does nothing with %s' % (f['n'], f['p'][i]['n']))
        dest = {chain(l)[1] for t, l in terms if chain(l)[0] in news and depends(t, i)}
        want = set().union(*[v for x, v in pl.items() if x == n])
        if not want and len(n) > 2:
            want = set().union(*[v for x, v in pl.items() if n in x])
        if want and dest:
            ok = any(c08.related(a, b) for a in dest for b in want)
            C.ob('argument', '%s/%s' % (name, f['p'][i]['n']), ok, where, '' if ok else '%s stores %s in %s, while the %s of the object it creates is %s' % (
                f['n'], f['p'][i]['n'], names(dest), n, names(want)))


def held(m, new):
    """the new object is stored in a member of something else"""
    return any(mpath(l) and any(uncast(v) == new for v in vals) for l, vals, pc, w, i in m.h.writes)


def names(ps):
    return ', '.join(sorted('.'.join(p) if isinstance(p, tuple) else p for p in ps)) or 'nothing'


def twins(P, cls, a, b):
    """two lists that every method of the model appends to together"""
    if not (isinstance(a, tuple) and isinstance(b, tuple)) or a[:-1] != b[:-1]:
        return False
    import c10
    fs = {}
    for k, f in P.funcs.items():
        for x in c10.nodes(f.get('body')):
            if x['k'] == 'call' and x.get('n') in ('push_back', 'emplace_back', 'insert') and isinstance(x.get('o'), dict) and x['o'].get('k') == 'mem':
                q = x['o'].get('f', '').split('::')[-1]
                if q in (a[-1], b[-1]):
                    fs.setdefault(k, set()).add(q)
    return bool(fs) and all(len(v) == 2 for v in fs.values())
