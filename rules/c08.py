"""C08: what a Set method of an API object stores is what the Get method of the same name returns."""
from apimodel import *
from report import Check, Broken

NOT_PROPERTY = {'SetPointer'}
# conversions that undo each other: the overload that takes the API type and the one that takes the model type
INVERSE = {'ConvertCColor', 'ConvertMatrix'}


def setter_map(P, k):
    """what a setter stores: (member path, parameter slot, how, value, where)"""
    m = analyse_method(P, k)
    r = []
    for l, vals, pc, w, i in m.h.writes:
        p = mpath(l)
        if not p:
            continue
        for v in vals:
            s = slotof(v)
            if s:
                r.append((p, s, 'id', v, w))
                continue
            ss = slots_in(v)
            for s in ss:
                r.append((p, s, shape(v, s), v, w))
    return {'m': m, 'map': r}


def getter_map(P, k):
    """what a getter returns: slot -> {(member path, how)}; the value of a value-returning getter is slot 0"""
    m = analyse_method(P, k)
    r = {}
    outs = {}
    for l, vals, pc, w, i in m.h.writes:
        s = slotof(l)
        if s:
            for v in vals:
                if v[0] == 'out':
                    outs.setdefault(v, set()).add(s)
    for l, vals, pc, w, i in m.h.writes:
        ss = {slotof(l)} - {None}
        if not ss and l[0] == 'fld' and l[1] in outs:
            ss = {(a, q + (l[2].split('::')[-1],)) for a, q in outs[l[1]]}
        for s in ss:
            for v in vals:
                add_members(r.setdefault(s, set()), v)
    f = P.funcs[k]
    for v in m.val:
        if const_int(v) is None and v[0] != 'enum':
            add_members(r.setdefault((0, ()), set()), v)
    return r


def add_members(acc, v):
    p = mpath(v)
    if p:
        acc.add((p, 'id'))
        return
    ps = members_in(v)
    for p in ps:
        acc.add((p, shape(v)))


def shape(v, slot=None):
    """how a term is made from the one thing it is about"""
    v = uncast(v)
    if v[0] == 'ctor':
        args = [a for a in v[2:] if isinstance(a, (tuple, frozenset))]
        if len(args) == 1 and isinstance(args[0], tuple) and args[0] and isinstance(args[0][0], (tuple, frozenset)):
            args = list(args[0])
        at = [k for k, a in enumerate(args) if slot is not None and slot in slots_in(a)]
        return ('made', v[1], at[0] if len(at) == 1 and len(args) > 1 else None)
    if v[0] == 'out':
        return ('part', v[1], v[2])
    if v[0] == 'call':
        return ('call', v[1], None)
    if v[0] in ('bin', 'op', 'un'):
        return ('expr', show(v)[:80], None)
    return (v[0], '', None)


def shape_mismatch(a, b):
    """what is wrong with storing it one way and returning it the other way; None when they fit"""
    if a == 'id' and b == 'id':
        return None
    for x in (a, b):
        if x[0] == 'expr':
            return x[1]
    ka, kb = (None if x == 'id' else x[2] for x in (a, b))
    if ka is not None and kb is not None and ka != kb:
        return 'component %d, stored as component %d' % (kb, ka)
    ca, cb = (x[1] if x != 'id' and x[0] == 'call' else None for x in (a, b))
    if ca != cb and (ca in INVERSE or cb in INVERSE):
        return 'it %s' % ('without %s' % ca if ca else 'through %s' % cb)
    return None


def candidates(P, f, slot, gks, G):
    """what the getter returns in the position of a setter parameter"""
    many = len(f['p']) > 1
    one = {gs[0] for gs in G} == {0}
    if many and one:
        # one composed result for several parameters
        n = plain(f['p'][slot[0]]['n'])
        named = [(p, sh, gs) for gs, vs in G.items() if len(gs[1]) == 1 and plain(gs[1][0]) == n for p, sh in vs]
        if named:
            return named
        return [(p, sh, gs) for gs, vs in G.items() for p, sh in vs]
    return [(p, sh, gs) for gs, vs in G.items() if slot_match(slot, gs) for p, sh in vs]


def plain(n):
    n = n.lower()
    for pre in ('out', 'in', 'f'):
        if n.startswith(pre) and len(n) > len(pre) + 1:
            n = n[len(pre):]
    return n


def slot_match(a, b):
    return a[0] == b[0] and (a[1][:len(b[1])] == b[1] or b[1][:len(a[1])] == a[1])


def related(a, b):
    n = min(len(a), len(b))
    return n > 0 and a[:n] == b[:n]


def slot_name(f, s):
    ps = f['p']
    n = ps[s[0]]['n'] if s[0] < len(ps) else 'value'
    return '.'.join((n or str(s[0]),) + s[1])


def is_out(p):
    t = p['t']
    if 'const' in t:
        return False
    return t.endswith('&') or t.endswith('**')


BITS = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64,
        'long long': 64, 'unsigned long long': 64, 'float': 32, 'double': 64, 'long double': 80}


def nodes(x):
    if isinstance(x, dict):
        if 'k' in x:
            yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def lossy(C, P, sc, k):
    """conversions to a type that cannot hold the value, in the accessor and the model accessors it calls"""
    m = analyse_method(P, k)
    f = P.funcs[k]
    fns = {k} | {c[5].get('fn') for c in m.h.calls if c[7] < 3 and modelled(P, c[5].get('fn')) and P.funcs[c[5]['fn']]['n'].startswith(('Set', 'Get', 'Is', 'Convert'))}
    for q in fns:
        g = P.funcs[q]
        bad = None
        for x in nodes([g.get('body'), g.get('inits')]):
            if x['k'] != 'cast' or x['e']['k'] in ('bin', 'un', 'int', 'float') or 'cv' in x:
                continue
            if (x.get('ft'), x.get('t')) == ('int', 'unsigned short') and g.get('cls') == 'SceneData::GdtfDmxChannel':
                continue        # DMXAddress: a slot of the footprint, at most 512 of them
            ck, a, b = x.get('ck'), BITS.get(x.get('ft')), BITS.get(x.get('t'))
            if ck == 'FloatingToIntegral' or ck in ('FloatingCast', 'IntegralCast') and a and b and b < a or ck in ('FloatingToBoolean',):
                bad = x
        C.ob('lossless', '%s::%s/%s' % (sc, f['n'], g['q'].split('::')[-1] if q != k else ''), bad is None, '%s:%s' % (g['file'].split('/repo/')[-1], bad['l'] if bad else g['l']), '' if bad is None else '%s converts %s to %s' % (g['q'], bad.get('ft'), bad.get('t')))


def substitute(C, P, sc, k):
    """a constant given to the caller in place of the stored value"""
    m = analyse_method(P, k)
    f = P.funcs[k]
    name = '%s::%s' % (sc, f['n'])
    cases = []
    for l, vals, pc, w, i in m.h.writes:
        if slotof(l) and any(constant(v) for v in vals) and not any(const_int(v) == 0 and len(v) > 1 and v[0] == 'null' for v in vals):
            cases.append((pc, w))
    status = any(const_int(v) not in (None, 0) for v in m.val)      # error codes, not values
    if not any(is_out(p) for p in f['p']) and not status:
        cases += [(st.pc, '') for st, vs in m.fr.rets if any(constant(v) for v in vs)]
    for pc, w in cases:
        about = [(t, b) for t, b in pc if any(len(p) > 1 for p in members_in(t))]
        where = w or '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
        bad = bool(about) and not any(not b and len(p) == 1 for t, b in pc for p in [mpath(t)] if p)
        if bad and w and fails_then(m, about):
            bad = False
        C.ob('no-substitute', name, not bad, where, '' if not bad else '%s gives a constant in place of the stored value when %s' % (f['n'], ', '.join(('' if b else 'not ') + show(t)[:60] for t, b in about)))


def constant(v):
    return v[0] in ('str', 'int', 'float', 'enum') or const_int(v) is not None and v[0] != 'null'


def fails_then(m, about):
    """every return under these conditions is an error"""
    return all(not any(const_int(x) == 0 for x in v) for st, v in m.fr.rets if all(l in st.pc for l in about))


def gate(m):
    """conditions on members that hold at every NoError return of a method"""
    r = None
    for st, v in m.fr.rets:
        if any(const_int(x) == 0 for x in v):
            lits = {(t, b) for t, b in st.pc if any(len(p) > 1 for p in members_in(t))}
            r = lits if r is None else r & lits
    return sorted(r or (), key=str)


def modelled(P, fn):
    return fn in P.funcs and (P.funcs[fn]['file'].endswith(MODEL) or '/Implementation/' in P.funcs[fn]['file'])


def was_null_now_set(st, i):
    about = lambda t: any(isinstance(x, tuple) and x and isinstance(x[0], str) and slotof(x) == (i, ()) for x in subterms(t))
    was = any(b and t[0] == 'isnull' and slotof(t[1]) == (i, ()) for t, b in st.pc)
    now = any(t[0] == 'any' and about(t) for t, b in st.pc)
    return was and now


def slot_head(t):
    s = slotof(t)
    return ('param', s[0]) if s else None


def returns_ok(m):
    return any(const_int(x) == 0 for st, v in m.fr.rets for x in v)


def run(P, tier):
    C = Check('C08', 'for every Set/Get pair of an API wrapper class each component of each parameter reaches the model member the getter returns in the same position, unchanged; every return of NoError has stored / has filled the out-parameter; a getter writes no member',
              'flow-sensitive dataflow over the wrapper methods with the model methods inlined; parameter-to-member and member-to-result maps compared slot by slot; must-write facts at every return')
    npair = 0
    state = settable(P)
    for cls in wrapper_classes(P):
        by = {}
        for k, f in methods(P, cls).items():
            by.setdefault(f['n'], []).append(k)
        sc = cls.split('::')[-1]
        for name in sorted(by):
            if is_getter(name):
                for k in by[name]:
                    check_getter(C, P, sc, k, state)
            if not name.startswith('Set') or name in NOT_PROPERTY:
                continue
            stem = name[3:]
            g = by.get('Get' + stem) or by.get('Is' + stem) or by.get(stem) or by.get(stem[2:] if stem.startswith('Is') else '')
            for k in by[name]:
                if g:
                    npair += 1
                    pair(C, P, sc, stem, k, g, state)
                else:
                    C.skip('pair', '%s::%s' % (sc, name), 'no getter of this name')
                    stores(C, P, sc, k, setter_map(P, k))
    C.need('stored', 160)
    C.need('same', 160)
    C.need('get-filled', 160)
    return C.finish(P, tier)


def is_getter(n):
    return n.startswith(('Get', 'Is')) and n not in ('GetPointer',) and not n.startswith('Issue')


def pair(C, P, sc, stem, sk, gks, state):
    S = setter_map(P, sk)
    f = P.funcs[sk]
    stores(C, P, sc, sk, S)
    G = {}
    for gk in gks:
        for s, vs in getter_map(P, gk).items():
            G.setdefault(s, set()).update(vs)
    where = '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
    # position by position
    slots = {}
    for path, slot, shape, val, w in S['map']:
        slots.setdefault(slot, []).append((path, shape, val, w))
    for slot, ws in sorted(slots.items(), key=str):
        cand = candidates(P, f, slot, gks, G)
        key = '%s::Set%s/%s' % (sc, stem, slot_name(f, slot))
        ok = [(w, c) for w in ws for c in cand if related(w[0], c[0])]
        C.ob('same', key, bool(ok), ws[0][3], '' if ok else 'Set%s puts %s into %s, Get%s returns %s there' % (
            stem, slot_name(f, slot), ' and '.join(sorted('.'.join(w[0]) for w in ws)), stem, ' or '.join(sorted('.'.join(c[0]) for c in cand)) or 'something else'))
        # nothing else is overwritten with it
        other = [w for w in ws if w[1] == 'id' and not any(related(w[0], c[0]) for c in cand)]
        if ok and other:
            # a member no getter of this name returns
            C.ob('only', key, False, other[0][3], 'Set%s also puts %s into %s' % (stem, slot_name(f, slot), '.'.join(other[0][0])))
        stray = sorted({'.'.join(c[0]) for c in cand if not any(related(w[0], c[0]) for w in ws)})
        C.ob('returns-only', key, not ok or not stray, where, '' if not ok or not stray else 'Get%s can also return %s in that place' % (stem, ' or '.join(stray)))
        for w, c in ok:
            bad = shape_mismatch(w[1], c[1])
            C.ob('unchanged', key, not bad, w[3], '' if not bad else 'Set%s stores %s, Get%s returns %s' % (stem, show(w[2])[:80], stem, bad))
    # what the getter asks for before it answers, the setter has arranged
    for gk in gks:
        gm = analyse_method(P, gk)
        for lit, b in gate(gm):
            mem = {p for p in members_in(lit) if p}
            for st, v in S['m'].fr.rets:
                if not any(const_int(x) == 0 for x in v):
                    continue
                done = {mpath(t[1]) for t in st.must if t[0] == 'w'}
                ok = (lit, b) in st.pc or bool(done & mem) or any(related(d, p) and len(d) <= len(p) for d in done if d for p in mem)
                key = '%s::%s needs %s%s' % (sc, P.funcs[gk]['n'], '' if b else 'not ', show(lit)[:70])
                C.ob('answers', key, ok, where, '' if ok else 'Get%s only answers when %s%s, which Set%s does not see to' % (stem, '' if b else 'not ', show(lit)[:80], stem))
    for gk in gks:
        substitute(C, P, sc, gk)
    # and no other settable member is changed along with it
    mine = {w[0] for ws in slots.values() for w in ws}
    for l, vals, pc, w, i in S['m'].h.writes:
        p = mpath(l)
        if not p or l[0] != 'fld' or l[2] not in state or any(slots_in(v) for v in vals):
            continue
        if any(related(p, x) for x in mine) or vals and all(v == ('null',) for v in vals):
            continue        # an alternative reference is dropped
        C.ob('frame', '%s::Set%s' % (sc, stem), False, w, 'Set%s also changes %s' % (stem, '.'.join(p)))
    C.ob('frame', '%s::Set%s' % (sc, stem), True, where)
    # no digits or bits are lost on the way
    for k in [sk] + list(gks):
        lossy(C, P, sc, k)
    # a part of the result the setter does not take
    for gs, vs in G.items():
        if slots and len({q[0] for q in G}) <= len(f['p']) and not any(q[0] == gs[0] for q in slots) and any(p for p, sh in vs):
            C.ob('same', '%s::Get%s/%s' % (sc, stem, slot_name(P.funcs[gks[0]], gs)), False, where, 'Get%s returns %s, which Set%s does not take' % (stem, ' or '.join(sorted('.'.join(p) for p, sh in vs if p)), stem))


def stores(C, P, sc, k, S):
    f = P.funcs[k]
    where = '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
    for i, p in enumerate(f['p']):
        got = {s for path, s, shape, val, w in S['map'] if s[0] == i}
        key = '%s::%s/%s' % (sc, f['n'], p['n'] or i)
        if not got and any(i in params_in(a) and not modelled(P, c[5].get('fn')) for c in S['m'].h.calls for av in c[2] for a in av if not c[0].startswith('operator')):
            C.skip('stored', key, 'handed to a function outside the model')
            continue
        C.ob('stored', key, bool(got), where, '' if got else '%s never stores its parameter %s' % (f['n'], p['n']))
    paths = {}
    for path, s, shape, val, w in S['map']:
        paths.setdefault(s, set()).add(path)
    for st, v in S['m'].fr.rets:
        if not any(const_int(x) == 0 for x in v):
            continue
        done = {mpath(t[1]) for t in st.must if t[0] == 'w'}
        for s, ps in paths.items():
            hit = any(p in done or any(p[:n] in done for n in range(1, len(p))) for p in ps) or already(st, ps, s)
            C.ob('set-on-success', '%s::%s/%s' % (sc, f['n'], slot_name(f, s)), hit, where, '' if hit else '%s can return NoError without having stored %s (when %s)' % (f['n'], slot_name(f, s), ', '.join(('' if b else 'not ') + show(t)[:60] for t, b in st.pc)))


def already(st, paths, slot):
    """the branch says the member has the value already"""
    for t, b in st.pc:
        if b and members_in(t) & paths and slot[0] in params_in(t):
            return True
    return False


def settable(P):
    """members some Set method of the API stores a parameter in"""
    r = set()
    for cls in wrapper_classes(P):
        for k, f in methods(P, cls).items():
            if f['n'].startswith('Set') and f['n'] not in NOT_PROPERTY:
                for l, vals, pc, w, i in analyse_method(P, k).h.writes:
                    if mpath(l) and l[0] == 'fld' and any(slots_in(v) for v in vals):
                        r.add(l[2])
    return r


def check_getter(C, P, sc, k, state):
    f = P.funcs[k]
    m = analyse_method(P, k)
    where = '%s:%s' % (f['file'].split('/repo/')[-1], f['l'])
    name = '%s::%s' % (sc, f['n'])
    # a getter leaves the object as it is
    ws = [(mpath(l), w) for l, v, pc, w, i in m.h.writes if mpath(l) and l[0] == 'fld' and l[2] in state]
    C.ob('get-readonly', name, not ws, ws[0][1] if ws else where, '' if not ws else '%s changes %s' % (f['n'], '.'.join(ws[0][0])))
    outs = [i for i, p in enumerate(f['p']) if is_out(p)]
    if not outs:
        return
    wr = {}
    for l, v, pc, w, i in m.h.writes:
        s = slotof(l)
        if s and s[0] in outs:
            wr.setdefault(s[0], set()).add(s[1])
    for i in outs:
        if i not in wr:
            # handed to a function that fills it
            passed = any(('param', i) == slot_head(a) for c in m.h.calls for av in c[2] for a in av)
            C.ob('get-filled', '%s/%s' % (name, f['p'][i]['n']), passed or not returns_ok(m), where, '' if passed else '%s never fills %s' % (f['n'], f['p'][i]['n']))
    for st, v in m.fr.rets:
        if not any(const_int(x) == 0 for x in v):
            continue
        done = {slotof(t[1]) for t in st.must if t[0] == 'w'} - {None}
        for i in outs:
            if was_null_now_set(st, i):
                # the pointer was null and is not any more: the branch that filled it was taken
                cond = [set(pc) for l, vs, pc, w, n in m.h.writes if slotof(l) == (i, ())]
                done |= {slotof(l) for l, vs, pc, w, n in m.h.writes if slotof(l) and any(c <= set(pc) for c in cond)}
        for i, parts in wr.items():
            for q in parts:
                ok = (i, q) in done or any((i, q[:n]) in done for n in range(len(q))) or any(d[0] == i and d[1][:len(q)] == q for d in done)
                C.ob('get-filled', '%s/%s' % (name, f['p'][i]['n']), ok, where, '' if ok else '%s can return NoError without having filled %s (when %s)' % (f['n'], '.'.join((f['p'][i]['n'],) + q), ', '.join(('' if b else 'not ') + show(t)[:60] for t, b in st.pc)))
