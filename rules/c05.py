"""C05: the attribute check of a node class agrees with its writer and reader."""
from gmodel import *
from report import Check, Broken
from c01 import all_node
from c02 import field_cls
from c25 import eq_parts


class H(XmlHooks):
    def __init__(self, P):
        super().__init__(P)
        self.checks = []

    def extra(self, eng, st, e, obj, argv, argl):
        if e['n'] == 'CheckNodeAttributes':
            self.checks.append((argl, argv, st.pc, eng.where(e), dict(st.env)))
            return E()
        return None


class L(XmlHooks):
    def __init__(self, P):
        super().__init__(P)
        self.jumps = []
        self.errors = []

    def on_jump(self, eng, st, s):
        lp = [l for l in eng.loops if l[2] == len(eng.stack)]
        if lp and s['k'] != 'continue':
            self.jumps.append((s['k'], st.pc - lp[-1][3], eng.where(s)))

    def extra(self, eng, st, e, obj, argv, argl):
        if e['n'] == 'AddError':
            self.errors.append((st.pc, eng.where(e)))
            return E()
        return None


def counted(t):
    return any(isinstance(s, tuple) and s and (s[0] in ('size', 'length') or s[0] == 'call' and s[1] in ('size', 'length')) for s in subterms(t))


def done(t, p):
    """nothing is left to check, or the attribute looked for was found in a list"""
    if t[0] == 'any':
        return all(done(x, p) for x in t[1])
    if t[0] == 'empty':
        return p
    q = eq_parts(t, p)
    return bool(q) and q[2] and not counted(t)


def whole_list(P, C):
    """the check itself goes through both lists and all attributes: it is not left, and no error kept back, because of a number"""
    for k, f in sorted(P.funcs.items()):
        if f['n'] != 'CheckNodeAttributes' or not f.get('body'):
            continue
        h = L(P)
        Engine(P, h, lambda *a: False).run(k)
        for kind, facts, w in h.jumps:
            ok = bool(facts) and not any(counted(t) for t, p in facts) and any(done(t, p) for t, p in facts)
            C.ob('check-complete', '%s %s' % (f['n'], kind), ok, w, '' if ok else 'the attribute check of a node ends early when %s' % [('' if p else 'not ') + show(t) for t, p in facts])
        for pc, w in h.errors:
            bad = [(t, p) for t, p in pc if counted(t)]
            C.ob('check-complete', '%s AddError' % f['n'], not bad, w, '' if not bad else 'a wrong attribute of a node is only reported if %s' % [('' if p else 'not ') + show(t) for t, p in bad])


def must_env(env, pc):
    return not [l for l in base_pc(pc) if not all_node(l[0])]


def run(P, tier):
    C = Check('C05', 'for every node class: attributes written or read are accepted by the check run after reading, attributes demanded by the check are always written, attributes accepted by the check are read; the check runs exactly once and unconditionally after reading',
              'dataflow over OnErrorCheck (contents of the needed/optional lists at the check call) against the write and read tables')
    MI = MethodIndex(P)
    NODE = ('param', 0, 'node')
    n = 0
    for cls in concrete(P):
        sc = short(cls)
        T = analyse_cls(P, cls, MI)
        ke = T.ke
        if not ke:
            continue
        h = H(P)
        eng = Engine(P, h, inline_gdtf)
        ex, _, _, _ = eng.run(ke, args=[NODE], this_cls=cls)
        w, r = writes(T), reads(T)
        aw = {a: set() for (np, a) in w if np == ''}
        for (np, a), d in w.items():
            if np == '':
                for (conv, src, g), (where, v) in d.items():
                    aw[a].add(frozenset(x for x in g if not all_node(x[0])))
        ar = {a for (np, a) in r if np == ''}
        fn = P.funcs[ke]
        where = '%s:%d' % (fn['file'].replace('/repo/', ''), fn['l'])
        own = [c for c in h.checks if eng.one(c[1][0]) == NODE]
        if not aw and not ar:
            if not own:
                continue
        C.ob('checked', sc, len(own) >= 1, where, '' if own else 'attributes of %s are never checked after reading' % sc)
        if not own:
            continue
        n += 1
        for i, (argl, argv, pc, cw, env) in enumerate(own):
            bad = [l for l in base_pc(pc) if not all_node(l[0])]
            C.ob('check-unconditional', sc, not bad, cw, '' if not bad else 'the attribute check of %s runs only if %s' % (sc, [('' if p else 'not ') + show(t) for t, p in bad]))
            lists = []
            ok = True
            for j in (1, 2):
                names = {}
                locs = argl[j]
                for ev in h.events:
                    if ev['kind'] in ('push', 'insert') and set(ev['obj']) & set(locs):
                        b = [l for l in base_pc(ev['pc']) if not all_node(l[0])]
                        for v in ev['value']:
                            st = [x for x in subterms(v) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'str']
                            for x in st:
                                names.setdefault(x[1], []).append((b, ev['where']))
                            if not st:
                                ok = False
                for v in argv[j]:       # initialiser lists
                    for s in subterms(v):
                        if isinstance(s, tuple) and s and s[0] == 'str' and s[1] not in names:
                            names.setdefault(s[1], []).append(([], cw))
                lists.append(names)
            if not ok:
                C.skip('lists', sc, 'a name in the list is not a constant')
                continue
            N, O = lists
            gN = {a: [frozenset(x[0]) for x in v] for a, v in N.items()}
            gO = {a: [frozenset(x[0]) for x in v] for a, v in O.items()}
            for a in sorted(set(aw) | ar):
                gw = aw.get(a, set()) or {frozenset()}
                cex = implies(gw, gN.get(a, []) + gO.get(a, []))
                C.ob('accepted', '%s.%s' % (sc, a), cex is None, cw, '' if cex is None else 'attribute "%s" of %s is %s but reported as an error by the check that follows reading%s' % (a, sc, 'written' if a in aw else 'read', cex))
            for a in sorted(gN):
                g = aw.get(a)
                cex = ' (never written)' if g is None else implies(gN[a], g, lambda f: (field_cls(P, cls, f.split('::')[-1], raw=True) or '').rstrip().endswith(('*', 'Ptr')))
                C.ob('needed-written', '%s.%s' % (sc, a), cex is None, cw, '' if cex is None else 'attribute "%s" is demanded from %s nodes but not always written%s' % (a, sc, cex))
            for a in sorted(set(N) | set(O)):
                C.ob('accepted-read', '%s.%s' % (sc, a), a in ar, cw, '' if a in ar else 'attribute "%s" is accepted on %s nodes but never read' % (a, sc))
    if n < 40:
        raise Broken('only %d node classes with an attribute check' % n)
    C.need('accepted', 150)
    # the order in ReadFromNode: read, then check, always
    for cls in concrete(P) + [GBASE]:
        k = MI.find(cls, 'ReadFromNode')
        if not k or P.funcs[k].get('cls') != cls and cls != GBASE:
            continue
        h = Order(P)
        eng = Engine(P, h, lambda e, kk, c: False)
        ex, _, _, _ = eng.run(k, args=[NODE], this_cls=cls)
        fn = P.funcs[k]
        must = ex.must if ex else E()
        C.ob('read-then-check', short(cls), 'read' in must and 'checked' in must and not h.bad, '%s:%d' % (fn['file'].replace('/repo/', ''), fn['l']), 'loading a %s node does not always read it and then check it' % short(cls))
    whole_list(P, C)
    C.need('read-then-check', 1)
    return C.finish(P, tier)


def implies(A, B, is_ptr=None):
    """does (disjunction of the guards A) imply (disjunction of the guards B)? None, or a counterexample text.
    Conditions are atoms; two comparisons of one value with different constants exclude each other.  With
    is_ptr, pointer members count as set (an unset mandatory reference is the user's omission)."""
    A, B = [frozenset(x) for x in A], [frozenset(x) for x in B]
    if any(not b for b in B):
        return None
    atoms = sorted({t for g in A + B for t, p in g}, key=str)
    if not B:
        return ''
    if len(atoms) > 12:
        return None
    for m in range(1 << len(atoms)):
        v = {t: bool(m >> i & 1) for i, t in enumerate(atoms)}
        bad = False
        eq = {}
        for t, x in v.items():
            if t[0] == 'bin' and t[1] == '==' and x:
                for c, o in ((t[2], t[3]), (t[3], t[2])):
                    if const_int(c) is not None:
                        eq.setdefault(o, set()).add(const_int(c))
            if is_ptr and ptr_atom(t, is_ptr) is not None and x != ptr_atom(t, is_ptr):
                bad = True
        if bad or any(len(s) > 1 for s in eq.values()):
            continue
        if any(all(v[t] == p for t, p in g) for g in A) and not any(all(v[t] == p for t, p in g) for g in B):
            return ' when ' + ' and '.join(('' if x else 'not ') + show(t) for t, x in v.items())
    return None


def ptr_atom(t, is_ptr):
    """truth value of the atom when the pointer it tests is set, None if it is no pointer test"""
    if t[0] == 'isnull':
        return False
    if t[0] == 'bin' and t[1] == '==' and NULL in (t[2], t[3]):
        return False
    if t[0] == 'fld' and is_ptr(t[2]):
        return True
    return None


class Order(XmlHooks):
    def __init__(self, P):
        super().__init__(P)
        self.bad = []

    def on_call(self, eng, st, e, obj, argv, argl):
        if e['n'] == 'OnReadFromNode':
            st.must = st.must | {'read'}
            st.may = st.may | {'read'}
        if e['n'] == 'OnErrorCheck':
            if 'read' not in st.must:
                self.bad.append(eng.where(e))
            if 'checked' in st.may:
                self.bad.append(eng.where(e))
            st.must = st.must | {'checked'}
            st.may = st.may | {'checked'}
        return super().on_call(eng, st, e, obj, argv, argl)


def analyse_cls(P, cls, MI):
    return analyse(P, cls, MI)
