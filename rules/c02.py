"""C02: every child container a GDTF node class writes is read back into the same container, as the same kind of node."""
from gmodel import *
from report import Check, Broken
from c01 import all_node, const_like

# members whose children are not stored as child nodes of this class on purpose
WRITE_ONLY = {}


def node_name(P, MI, cls):
    k = MI.find(cls, 'GetNodeName')
    if not k:
        return None
    eng = Engine(P, None, inline_gdtf)
    ex, val, _, fr = eng.run(k, this_cls=cls)
    v = [t[1] for t in val if t[0] == 'str']
    return v[0] if len(v) == 1 and len(val) == 1 else None


class H(XmlHooks):
    def __init__(self, P):
        super().__init__(P)
        self.news = []

    def on_new(self, eng, st, e, site, *a):
        self.news.append((site, st.pc, eng.where(e), e))


def container_of(t, pushes, depth=0):
    """member fields an element term comes from"""
    r = set()
    if depth > 4:
        return r
    for s in subterms(t):
        if isinstance(s, tuple) and len(s) == 3 and s[0] == 'fld' and s[1] == THIS:
            r.add(s[2].split('::')[-1])
        if isinstance(s, tuple) and s and s[0] == 'L' and s in pushes:
            for v in pushes[s]:
                r |= container_of(v, {k: x for k, x in pushes.items() if k != s}, depth + 1)
    return r


def local_pushes(events):
    p = {}
    for ev in events:
        if ev['kind'] in ('push', 'insert'):
            for o in ev['obj']:
                if o[0] == 'L':
                    p.setdefault(o, set()).update(ev['value'])
    return p


def names_of(pc, node):
    """required node names in a branch context, and whether every literal is about nodes"""
    names = set()
    for t, pol in pc:
        if t[0] == 'bin' and t[1] == '==' and pol:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == 'nodename' and b[0] == 'str' and (node is None or a[1] == node):
                    names.add(b[1])
    return names


def check_children(C, P, cls, hw, hr, names):
    sc = short(cls)
    pw = local_pushes(hw.events)
    # ---- writes
    W = {}
    for ev in hw.events:
        if ev['kind'] != 'childwrite':
            continue
        for o in ev['obj']:
            for f in container_of(o, pw) or {None}:
                W.setdefault((f, nodepath(ev['node'])), []).append(ev)
    # ---- reads: which member receives objects read from which node
    new_names = {}
    for site, pc, where, e in hr.news:
        new_names.setdefault(site, set()).add(frozenset(names_of(pc, None)))
    R = {}
    stored = {}
    for ev in hr.events:
        if ev['kind'] in ('push', 'insert'):
            for o in ev['obj']:
                f = this_field(o)
                if f:
                    for v in ev['value']:
                        stored.setdefault(v, {}).setdefault(f, []).append(ev)
        if ev['kind'] == 'set':
            f = this_field(ev['loc'])
            if f:
                for v in ev['value']:
                    if v[0] == 'new':
                        stored.setdefault(v, {}).setdefault(f, []).append(ev)
    for ev in hr.events:
        if ev['kind'] != 'childread':
            continue
        for o in ev['obj']:
            if o[0] == 'new':
                for f, evs in stored.get(o, {None: []}).items():
                    R.setdefault(f, []).append((o, ev, evs))
            else:
                f = this_field(o)
                R.setdefault(f, []).append((o, ev, []))
    for (f, np), evs in sorted(W.items(), key=str):
        nm = '%s.%s' % (sc, f)
        where = evs[0]['where']
        if f is None:
            C.skip('child', '%s@%s' % (sc, np), 'written child not resolved to a member')
            continue
        rs = R.get(f, [])
        C.ob('readback', nm, bool(rs), where, '' if rs else 'children in member %s are written by %s but never read back into it' % (f, sc))
        # condition of the write: only the presence of the child itself
        for ev in evs:
            for lit, pol in base_pc(ev['pc']):
                gf = this_fields(lit)
                if not gf or gf <= {f}:
                    if gf and lit[0] == 'bin' and lit[1] == '==' and not any(const_like(x) and x[0] in ('null', 'int') for x in lit[2:]):
                        pass
                    continue
                C.ob('write-condition', nm + '|' + show(lit), False, ev['where'], 'children in member %s of %s are written only if %s%s' % (f, sc, '' if pol else 'not ', show(lit)))
        C.ob('write-condition', nm, True, where)
        for o, ev, sevs in rs:
            rnode = ev['node']
            # place
            if rnode[0] == 'kid':
                rp = nodepath(rnode[1])
                direct = None
            elif rnode[0] == 'child':
                rp = nodepath(rnode[1])
                direct = rnode[2][1] if rnode[2] and rnode[2][0] == 'str' else None
            else:
                C.skip('place', nm, 'node the child is read from not resolved')
                continue
            paths = {p for (g, p) in W if g == f}
            C.ob('place', nm, rp in paths or None in paths, ev['where'], '' if rp in paths or None in paths else 'children in %s of %s are written below "%s" but read below "%s"' % (f, sc, np, rp))
            # node name
            cl = o[1] if o[0] == 'new' else field_cls(P, cls, f)
            want = names.get(cl)
            if want is None:
                C.skip('name', nm, 'node name of %s is not a constant' % cl)
            else:
                if direct is not None:
                    have = {direct}
                elif o[0] == 'new':
                    have = set()
                    for fs in new_names.get(o, ()):
                        have |= fs
                    have |= names_of(ev['pc'], rnode)
                else:
                    have = names_of(ev['pc'], rnode)
                C.ob('name', '%s<-%s' % (nm, short(cl)), have == {want}, ev['where'], '' if have == {want} else '%s writes %s children as node "%s" but reads them from node(s) %s' % (sc, short(cl), want, sorted(have)))
            # stored, appended, unconditional
            for sev in sevs:
                if sev['kind'] == 'insert':
                    C.ob('order', nm, False, sev['where'], 'children of %s are inserted out of document order' % sc)
                else:
                    C.ob('order', nm, True, sev['where'])
                bad = [(t, p) for t, p in base_pc(sev['pc']) if not all_node(t) and not flagless(t) and not vacant(t, p, f)]
                C.ob('store-condition', nm, not bad, sev['where'], '' if not bad else 'a child read for %s of %s is kept only if %s' % (f, sc, [('' if p else 'not ') + show(t) for t, p in bad]))
            bad = [(t, p) for t, p in base_pc(ev['pc']) if not all_node(t) and not flagless(t)]
            C.ob('read-condition', nm, not bad, ev['where'], '' if not bad else 'a child of %s is read only if %s' % (sc, [('' if p else 'not ') + show(t) for t, p in bad]))
            if o[0] == 'new' and not sevs and o not in stored:
                C.ob('stored', nm, False, ev['where'], 'a child read by %s is never stored' % sc)
    for f, rs in sorted(R.items(), key=str):
        if f is None:
            for o, ev, _ in rs:
                C.ob('stored', '%s:%s' % (sc, short(o[1]) if o[0] == 'new' else show(o)), False, ev['where'], 'a %s read by %s is not stored in any member' % (o[1] if o[0] == 'new' else show(o), sc))
            continue
        if not any(g == f for g, p in W):
            C.ob('writeback', '%s.%s' % (sc, f), False, rs[0][1]['where'], 'children are read into %s by %s but never written' % (f, sc))
        else:
            C.ob('writeback', '%s.%s' % (sc, f), True)


def entry_points(C, P, MI, classes, names, hooks, inline, wname, allow=None):
    """every object writes one element of its own name and passes it on, and reads itself from the element it is given"""
    for cls in classes:
        sc = short(cls)
        for m, inner, want in ((wname, 'OnPrintToFile', 'child'), ('ReadFromNode', 'OnReadFromNode', 'param')):
            k = MI.find(cls, m)
            if not k:
                continue
            h = EntryHooks(P, hooks, inner, m)
            h.name = names.get(cls)
            Engine(P, h, lambda eng, key, call, inner=inner, m=m: call.get('n') != inner and (call.get('n') == m or inline(eng, key, call))).run(k, args=[('param', 0, 'node'), ('param', 1, 'exchange')], this_cls=cls)
            nm = '%s.%s' % (sc, m)
            where = h.calls[0][2] if h.calls else ''
            C.ob('entry', nm, len(h.calls) > 0, where, '' if h.calls else '%s of %s does not call %s' % (m, sc, inner))
            for node, pc, w in h.calls:
                if want == 'param':
                    ok = node == ('param', 0, 'node')
                else:
                    ok = node is not None and node[0] == 'child' and node[1] == ('param', 0, 'node') and (names.get(cls) is None or node[2] == ('str', names[cls]) or (node[2] and node[2][0] != 'str'))
                C.ob('entry-node', nm, ok, w, '' if ok else '%s of %s passes on %s' % (m, sc, show(node) if node else 'an unknown node'))
                bad = [(t, p) for t, p in base_pc(pc) if not all_node(t) and not flagless(t) and not (allow and allow(cls, t, p))]
                bad = [(t, p) for t, p in bad if this_fields(t)]
                C.ob('entry-condition', nm, not bad, w, '' if not bad else '%s is only %s if %s' % (sc, 'written' if want == 'child' else 'read', [('' if p else 'not ') + show(t) for t, p in bad]))


class EntryHooks:
    def __init__(self, P, base, inner, outer):
        self.h = base(P)
        self.inner = inner
        self.outer = outer
        self.calls = []

    def __getattr__(self, n):
        if n in ('h', 'inner', 'outer', 'calls', 'name'):
            raise AttributeError(n)
        return getattr(self.h, n)

    def on_call(self, eng, st, e, obj, argv, argl):
        if e['n'] == self.inner:
            self.calls.append((eng.one(argv[0]), st.pc, eng.where(e)))
            return E()
        if e['n'] == self.outer:
            return None
        if e['n'] == 'GetNodeName' and self.name is not None and not argv and all(o == THIS for o in obj or ()):
            return E([('str', self.name)])
        return self.h.on_call(eng, st, e, obj, argv, argl)


def run(P, tier):
    C = Check('C02', 'each child list or child object written below a node is read from the same place, under the node name its class writes, into the same member, appended in document order, with no condition other than the presence of the node',
              'dataflow over OnPrintToFile/OnReadFromNode: provenance of every child passed to WriteToNode and of every object passed to ReadFromNode and of the container it is appended to')
    MI = MethodIndex(P)
    names = {c: node_name(P, MI, c) for c in concrete(P)}
    nc = 0
    for cls in concrete(P):
        kw, kr = MI.find(cls, 'OnPrintToFile'), MI.find(cls, 'OnReadFromNode')
        if not kw or not kr:
            continue
        NODE = ('param', 0, 'node')
        hw, hr = H(P), H(P)
        Engine(P, hw, inline_gdtf).run(kw, args=[NODE], this_cls=cls)
        Engine(P, hr, inline_gdtf).run(kr, args=[NODE], this_cls=cls)
        check_children(C, P, cls, hw, hr, names)
        nc += 1
    entry_points(C, P, MI, concrete(P), names, XmlHooks, inline_gdtf, 'WriteToNode')
    for c, n in names.items():
        if n is None and c not in ABSTRACT:
            C.skip('name', c, 'no constant node name')
    # same-construction: a child kind is created with the same constant arguments by the reader and by the API of its owner
    for cls in concrete(P):
        sites = {}
        for k, f in P.funcs.items():
            if f.get('cls') == cls:
                for e in find(f['body'], 'new'):
                    ct = e.get('e') or {}
                    if e.get('t') in names and ct.get('k') == 'ctor':
                        a = tuple(x.get('v') if isinstance(x, dict) and x.get('k') == 'int' else None for x in ct.get('a', []))
                        if any(x is not None for x in a):
                            sites.setdefault(e['t'], {}).setdefault(a, []).append((f['q'], e.get('l')))
        for t, d in sites.items():
            C.ob('construction', '%s>%s' % (short(cls), short(t)), len(d) == 1, '', '' if len(d) == 1 else '%s creates %s with different constant arguments: %s' % (short(cls), short(t), {str(a): v for a, v in d.items()}))
    if nc < 60:
        raise Broken('only %d node classes' % nc)
    C.need('readback', 45)
    C.need('name', 60)
    return C.finish(P, tier)


ABSTRACT = {'SceneData::GdtfObject'}


def vacant(t, p, f):
    """the member that takes the only child is still empty (it is created before it is read)"""
    if t[0] == 'isnull':
        return p and this_field(t[1]) == f if t[1][0] == 'fld' else False
    return t[0] == 'fld' and not p and this_field(t) == f


def flagless(t):
    """state that is not data: allocation results, abort flags"""
    return t[0] in ('new', 'abort') or (t[0] == 'isnull' and t[1][0] in ('new', 'child', 'kid')) or (t[0] == 'bin' and any(isinstance(x, tuple) and x and x[0] == 'new' for x in t))


def field_cls(P, cls, f, raw=False):
    c = cls
    while c:
        cl = P.classes.get(c)
        if cl is None:
            return None
        for x in cl['fields']:
            if x['n'] == f:
                return x['t'] if raw else x['t'].rstrip(' *')
        c = cl['bases'][0] if cl['bases'] else None


def find(n, kind):
    if isinstance(n, list):
        for x in n:
            yield from find(x, kind)
    elif isinstance(n, dict):
        if n.get('k') == kind:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from find(v, kind)
