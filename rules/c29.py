"""C29: the objects of an MVR scene and the objects below them load back where they were saved."""
from mmodel import *
from report import Check, Broken
from c02 import check_children, entry_points, names_of, flagless
from c01 import all_node

EX = 'SceneData::SceneDataExchange'


class H(MvrHooks):
    def __init__(self, P):
        super().__init__(P)
        self.news = []
        self.jumps = []

    def on_new(self, eng, st, e, site, *a):
        self.news.append((site, st.pc, eng.where(e), e))

    def on_call(self, eng, st, e, obj, argv, argl):
        if e['n'] == 'ReadChildObjs' and len(eng.stack) >= 1:
            self.ev(eng, st, 'descend', e, node=eng.one(argv[0]), into=argv[1])
            return E()
        return super().on_call(eng, st, e, obj, argv, argl)

    def on_jump(self, eng, st, s):
        self.jumps.append((s, st.pc, eng.where(s), [f.fn['q'] for f in eng.stack], list(eng.loops)))


def inline_top(eng, key, call):
    if call.get('n') == 'ReadChildObjs':
        return False
    return inline_mvr(eng, key, call)


def const_name(P, MI, cls):
    k = MI.find(cls, 'GetNodeName')
    if not k:
        return None
    ex, val, _, fr = Engine(P, None, inline_mvr).run(k, this_cls=cls)
    v = [t[1] for t in val if t[0] == 'str']
    return v[0] if len(v) == 1 and len(val) == 1 else None


def mpath(t):
    """element names from the root (or from the node handed in) down to a node term; '*' is any child"""
    p = []
    while t and t[0] in ('child', 'kid'):
        if t[0] == 'child':
            p.append(t[2][1] if t[2] and t[2][0] == 'str' else '?')
        else:
            p.append('*')
        t = t[1]
    return '/'.join(reversed(p))


def method(P, name):
    k = [k for k, f in P.funcs.items() if f['q'] == EX + '::' + name]
    if not k:
        raise Broken('%s::%s not found' % (EX, name))
    return k[0]


def attrs_below(env, v, seen=None):
    """attribute terms a value is made of, looking into temporaries"""
    seen = seen if seen is not None else set()
    r = set()
    for s in subterms(v):
        if not isinstance(s, tuple) or not s:
            continue
        if s[0] == 'attr':
            r.add(s)
        if s[0] == 'tmp' and s not in seen:
            seen.add(s)
            for l, vs in env.items():
                if l[0] == 'fld' and l[1] == s:
                    for x in vs:
                        r |= attrs_below(env, x, seen)
    return r


def store_of(o):
    """(owner, member) of a container term"""
    if o[0] == 'fld':
        return o[1], o[2].split('::')[-1]
    return None


def run(P, tier):
    C = Check('C29', 'every object list of a scene and of each scene object that is written below an element is read from that element: for each child the reader creates an object of the class that writes this node name, with the uuid of the same element, reads it from that element and appends it to the list it was written from, on every path that is not aborted; every object the API creates is put into a list that is written; the descent into child lists covers every kind of object that can hold children',
              'flow-sensitive dataflow over the scene reader and writer: provenance of every object created, read, stored and descended into, and branch conditions of each step')
    MI = MethodIndex(P)
    names = {c: const_name(P, MI, c) for c in all_subclasses(P, MBASE)}
    subs = {c: set(all_subclasses(P, c)) | {c} for c in names}
    groups = subs.get('SceneData::SceneDataGroupObj', set())
    nsub = 0
    childlist = set()
    for cls in sorted(all_subclasses(P, MBASE)):
        kw, kr = MI.find(cls, 'OnPrintToFile'), MI.find(cls, 'OnReadFromNode')
        if not kw or not kr:
            continue
        args = [('param', 0, 'node'), ('param', 1, 'exchange')]
        hw, hr = H(P), H(P)
        Engine(P, hw, inline_mvr).run(kw, args=args, this_cls=cls)
        Engine(P, hr, inline_mvr).run(kr, args=args, this_cls=cls)
        # the child list of groups is written here but read by the scene reader (see below)
        for ev in hw.events:
            if ev['kind'] == 'childwrite' and any(f.endswith('fChildObjs') for o in ev['obj'] for f in this_fields(o)):
                childlist.add((cls, mpath(ev['node'])))
        hw.events = [ev for ev in hw.events if not (ev['kind'] == 'childwrite' and any('fChildObjs' in this_fields(o) for o in ev['obj']))]
        check_children(C, P, cls, hw, hr, names)
        jumps(C, hr, short(cls) + ' reader')
        jumps(C, hw, short(cls) + ' writer')
        nsub += 1
    entry_points(C, P, MI, sorted(all_subclasses(P, MBASE)), names, MvrHooks, inline_mvr, 'PrintToFile', lambda cls, t, p: names.get(cls) == names.get('SceneData::SceneDataGroupObj') and empty_group(t, p))
    # ---- the scene itself
    hw = H(P)
    Engine(P, hw, inline_top).run(method(P, 'WriteXml'))
    top = {}
    for ev in hw.events:
        if ev['kind'] == 'childwrite':
            for o in ev['obj']:
                for f in this_fields(o):
                    top.setdefault(f, {})[mpath(ev['node'])] = ev
                    bad = [(t, p) for t, p in base_pc(ev['pc']) if not quiet_write(t)]
                    C.ob('write-condition', 'scene.' + f, not bad, ev['where'], '' if not bad else 'the objects in %s are written only if %s' % (f, lits(bad)))
    jumps(C, hw, 'scene writer')
    wattr = {(mpath(ev['node']), ev['name'][1]) for ev in hw.events if ev['kind'] == 'write' and ev['name'] and ev['name'][0] == 'str'}
    read_kinds = {}
    for entry, pre in (('ReadFromGeneralSceneDescription', ''), ('ReadChildObjs', '')):
        h = H(P)
        k = method(P, entry)
        f = P.funcs[k]
        args = None
        if entry == 'ReadChildObjs':
            args = [('param', 0, 'node'), ('param', 1, 'into')]
        ex, _, _, _ = Engine(P, h, inline_top).run(k, **({'args': args} if args else {}))
        env = ex.env if ex else {}
        jumps(C, h, entry)
        # root attributes
        for ev in h.events:
            if ev['kind'] == 'read' and ev['name'] and ev['name'][0] == 'str' and mpath(ev['node']) == '' and entry != 'ReadChildObjs':
                ok = ('', ev['name'][1]) in wattr
                C.ob('root-attribute', ev['name'][1], ok, ev['where'], '' if ok else 'the attribute %s of the root element is read but never written' % ev['name'][1])
        newname, newpc = {}, {}
        for site, pc, where, e in h.news:
            newname.setdefault(site, set()).add(frozenset(names_of(pc, None)))
            newpc.setdefault(site, []).append((pc, where))
        stored, readn, desc = {}, {}, {}
        for ev in h.events:
            if ev['kind'] in ('push', 'insert'):
                for o in ev['obj']:
                    s = store_of(o)
                    if s:
                        for v in ev['value']:
                            stored.setdefault(v, {}).setdefault(s, []).append(ev)
            elif ev['kind'] == 'childread':
                for o in ev['obj']:
                    readn.setdefault(o, []).append(ev)
            elif ev['kind'] == 'descend':
                for o in ev['into']:
                    o = undyn(P, o, subs)
                    if o is not None:
                        desc.setdefault(o, []).append(ev)
        for site in sorted(newpc, key=str):
            if site[0] != 'new' or site[1] not in names:
                continue
            cls, sc = site[1], short(site[1])
            where = newpc[site][0][1]
            rs = readn.get(site, [])
            C.ob('scene-read', sc, bool(rs), where, '' if rs else 'a %s created while reading a scene is not read from its element' % sc)
            if not rs:
                continue
            nodes = {ev['node'] for ev in rs}
            node = rs[0]['node']
            ok = len(nodes) == 1 and node is not None and node[0] in ('kid', 'child')
            C.ob('scene-node', sc, ok, rs[0]['where'], '' if ok else 'a %s is read from %s' % (sc, sorted(show(n) for n in nodes)))
            if not ok:
                continue
            path = mpath(node[1])
            # node name
            have = set()
            for fs in newname.get(site, ()):
                have |= fs
            have |= names_of(rs[0]['pc'], node)
            if names.get(cls) is None:
                C.skip('scene-name', sc, 'node name is not a constant')
            else:
                C.ob('scene-name', sc, have == {names[cls]}, rs[0]['where'], '' if have == {names[cls]} else 'a %s is written as node "%s" but read from node(s) %s' % (sc, names[cls], sorted(have)))
            # identity
            if cls != 'SceneData::SceneDataProviderObj':
                gv = set()
                for l, vs in env.items():
                    if l[0] == 'fld' and l[1] == site and l[2].endswith('::fGuid'):
                        for x in vs:
                            gv |= attrs_below(env, x)
                own = {a for a in gv if a[1] == node and a[2] == ('str', 'uuid')}
                ok = bool(own) and own == gv
                C.ob('scene-uuid', sc, ok, where, '' if ok else 'a %s read from an element does not get the uuid of that element but %s' % (sc, sorted(show(a) for a in gv) or 'another one'))
            # container
            sts = stored.get(site, {})
            good = []
            for (owner, m), evs in sts.items():
                if owner == THIS and path in top.get(m, {}):
                    good.append((m, evs))
                elif owner == ('param', 1, 'into') and m == 'fChildObjs' and any(path == p for c, p in childlist):
                    good.append((m, evs))
            C.ob('scene-list', sc, bool(good), where, '' if good else 'a %s read from "%s" is kept in %s, which is not what is written there' % (sc, path, sorted('%s.%s' % (show(o), m) for o, m in sts) or 'no list'))
            for m, evs in good:
                ins = [ev for ev in evs if ev['kind'] == 'insert']
                C.ob('scene-order', sc, not ins, evs[0]['where'], '' if not ins else '%s objects are inserted out of document order' % sc)
                conds = [data_lits(ev['pc'], site, names.get(cls)) for ev in evs]
                ok = any(not c for c in conds)
                C.ob('scene-store-condition', sc, ok, evs[0]['where'], '' if ok else 'a %s is kept only if %s' % (sc, lits(conds[0])))
            conds = [data_lits(pc) for pc, w in newpc[site]]
            C.ob('scene-create-condition', sc, any(not c for c in conds), where, '' if any(not c for c in conds) else 'a %s is created only if %s' % (sc, lits(conds[0])))
            conds = [data_lits(ev['pc'], site, names.get(cls)) for ev in rs]
            C.ob('scene-read-condition', sc, any(not c for c in conds), rs[0]['where'], '' if any(not c for c in conds) else 'a %s is read only if %s' % (sc, lits(conds[0])))
            # children
            if cls in groups:
                ds = [ev for ev in desc.get(site, []) if ev['node'] == node]
                C.ob('scene-descend', sc, bool(ds), where, '' if ds else 'the child list of a %s is written but never read into it' % sc)
                if ds:
                    conds = [data_lits(ev['pc'], site, names.get(cls)) for ev in ds]
                    C.ob('scene-descend-condition', sc, any(not c for c in conds), ds[0]['where'], '' if any(not c for c in conds) else 'the child list of a %s is read only if %s' % (sc, lits(conds[0])))
            read_kinds.setdefault(cls, set()).add(path)
    # what the API can put into a list
    for k, f in P.funcs.items():
        if f.get('cls') != EX or not f['n'].startswith('Create'):
            continue
        h = H(P)
        Engine(P, h, inline_top).run(k)
        for site, pc, where, e in h.news:
            if site[1] not in names or (site[1] == 'SceneData::SceneDataSymbolObj'):
                continue
            sc = short(site[1])
            C.ob('created-read', sc, site[1] in read_kinds, where, '' if site[1] in read_kinds else '%s objects can be created but are never created while reading a scene' % sc)
            sts = set()
            for ev in h.events:
                if ev['kind'] in ('push', 'insert') and site in ev['value']:
                    for o in ev['obj']:
                        s = store_of(o)
                        if s:
                            sts.add(s)
            ok = any((o == THIS and m in top) or (o != THIS and m == 'fChildObjs') for o, m in sts)
            C.ob('created-written', '%s.%s' % (f['n'], sc), ok, where, '' if ok else 'a %s made by %s is in no list that is written (%s)' % (sc, f['n'], sorted(m for o, m in sts)))
    C.notes['scene_lists_written'] = {f: sorted(d) for f, d in top.items()}
    C.notes['kinds_read'] = {short(c): sorted(p) for c, p in read_kinds.items()}
    C.need('scene-read', 10)
    C.need('readback', 50)
    C.need('created-written', 8)
    return C.finish(P, tier)


def lits(b):
    return [('' if p else 'not ') + show(t) for t, p in b]


def about(t, site):
    """the condition concerns the object itself: that it exists or what kind it is"""
    if t == site:
        return True
    if t[0] == 'dyn':
        return True
    if t[0] in ('isnull', 'un'):
        return about(t[-1], site)
    if t[0] == 'any':
        return all(x[0] in ('new', 'dyn') or x == NULL or const_int(x) is not None for x in t[1])
    if t[0] == 'bin':
        return any(about(x, site) for x in t[2:])
    return False


def quiet_write(t):
    """result of creating an element or a file object"""
    return not this_fields(t)


def jumps(C, h, nm):
    """a walk over the children of an element (or over the list being written) is only left when the import is aborted"""
    for s, pc, where, stack, loops in h.jumps:
        lp = [l for l in loops if l[2] == len(stack)]
        if not lp or s['k'] == 'continue':
            continue
        facts = pc - lp[0 if s['k'] == 'ret' else -1][3]       # a return leaves every loop of its function
        xml = any(t[0] == 'kid' and p for t, p in facts)
        lst = 'writer' in nm and any(this_fields(x) for l in lp[0 if s['k'] == 'ret' else -1:] for x in (l[0] or ()))
        if not xml and not lst:
            continue
        if any(t == ('abort',) and p for t, p in facts):
            continue
        C.ob('walk', '%s:%s %s' % (nm, stack[-1].split('::')[-1], s['k']), False, where, 'the walk over the children ends early when %s' % lits([(t, p) for t, p in facts if t != ('abort',)]))
    C.ob('walk', nm, True)


def data_lits(pc, site=None, name=None):
    """conditions that are about the contents of the scene, not about the presence of its elements"""
    r = []
    for t, p in base_pc(pc):
        if env_lit(t) or flagless(t) or (site and about(t, site)):
            continue
        if name is not None and t[0] == 'bin' and t[1] == '==' and any(x[0] == 'nodename' for x in t[2:]) and ((('str', name) in t[2:]) != p) and (p or ('str', name) in t[2:]):
            r.append((t, p))
            continue
        if all_node(t) and not any(isinstance(s, tuple) and s and s[0] == 'attr' for s in subterms(t)):
            continue
        r.append((t, p))
    return r


def env_lit(t):
    """the document could be parsed and has a root element"""
    if t[0] == 'out' and t[1] == 'GetRootNode':
        return True
    if t[0] == 'isnull':
        return env_lit(t[1])
    if t[0] == 'bin' and t[1] in ('==', '!='):
        return any(x[0] == 'call' and 'IXMLFile' in str(x[2]) and x[1] in ('ReadBuffer', 'GetRootNode', 'ReadFile') for x in t[2:] if isinstance(x, tuple))
    return False


def undyn(P, v, subs):
    """the object behind a checked downcast, None when the cast cannot succeed for it"""
    if v[0] == 'dyn':
        t = v[1].replace('*', '').replace('const ', '').strip()
        if v[2][0] == 'new' and v[2][1] not in subs.get(t, ()):
            return None
        return v[2]
    return v


def empty_group(t, p):
    """a group that holds nothing is not written: the one documented exception"""
    if t[0] == 'all':
        return not p and all(empty_group(l, not lp) or not this_fields(l) for l, lp in t[1:]) and any(empty_group(l, not lp) for l, lp in t[1:])
    if t[0] == 'empty':
        return not p and this_field(t[1]) == 'fChildObjs' if t[1][0] == 'fld' else False
    if t[0] == 'bin' and t[1] == '==':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == 'size' and a[1][0] == 'fld' and this_field(a[1]) == 'fChildObjs' and const_int(b) == 0:
                return not p
    return False
