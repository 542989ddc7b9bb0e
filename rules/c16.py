"""C16: an MVR-xchange message that is sent is read back as the same message."""
import re
from flow import Engine, State, subterms, THIS
from report import Check, Broken
from c10 import nodes

WIDTH = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'float': 24,
         'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'uint32_t': 32, 'uint64_t': 64, 'int32_t': 32, 'int64_t': 64, 'uint16_t': 16, 'size_t': 64,
         'Uint32': 32, 'Sint32': 32, 'Uint64': 64, 'Sint64': 64, 'double': 53}
UNDEF = 'MVR_UNDEFINED'
MSG = 'IMVRxchangeMessage'
E = frozenset


def short(q):
    return q.split('::')[-1]


def member(loc, root):
    """in.JOIN.Commits[].Comment of a location below the message parameter"""
    r = []
    while isinstance(loc, tuple) and loc:
        if loc == root:
            return '.'.join(reversed(r)).replace('.[]', '[]')
        if loc[0] == 'fld':
            r.append(short(loc[2]))
            loc = loc[1]
        elif loc[0] == 'elem':
            r.append('[]')
            loc = loc[1]
        else:
            return None
    return None


def jkey(loc):
    """(base, 'Commits[].FileName') of a location inside a JSON value; None when no text key is involved"""
    r = []
    while isinstance(loc, tuple) and loc and loc[0] == 'elem':
        i = loc[2] if len(loc) > 2 else None
        r.append(i[1] if isinstance(i, tuple) and i[0] == 'str' else '[]')
        loc = loc[1]
    if not r:
        return None
    return loc, '.'.join(reversed(r)).replace('.[]', '[]')


def aliases(h, root):
    """locals that are appended to a list of the message: what is stored in them is stored in the element"""
    r = {}
    for obj, argv, argl, pc, lf, n in h.push:
        for o in obj:
            m = member(o, root)
            for a in (argl[0] if argl and m else ()):
                if a[0] == 'L':
                    r[a] = m + '[]'
    return r


def amember(loc, root, al):
    m = member(loc, root)
    if m is not None:
        return m
    x = loc
    while isinstance(x, tuple) and x and x[0] in ('fld', 'elem'):
        x = x[1]
    if x in al:
        t = member(loc, x)
        return al[x] + ('.' + t if t and not t.startswith('[]') else t or '')
    return None


def members_in(t, root):
    """members of the message a value is computed from (longest paths only)"""
    out = set()

    def walk(x):
        if not isinstance(x, (tuple, E)):
            return
        if isinstance(x, tuple) and x and x[0] in ('fld', 'elem'):
            m = member(x, root)
            if m:
                out.add(m)
                return
        for y in x:
            walk(y)
    walk(t)
    r = set()
    for m in out:
        r.add(re.sub(r'(\.fBuffer(\[\])?|\.[abcd])$', '', m))
    return r


def keys_in(t):
    out = set()

    def walk(x):
        if not isinstance(x, (tuple, E)):
            return
        if isinstance(x, tuple) and x and x[0] == 'elem':
            j = jkey(x)
            if j and j[1].replace('[]', ''):
                out.add(j[1])
                return
        for y in x:
            walk(y)
    walk(t)
    return out


def parts_ok(t, root):
    """a uuid put together from its four numbers: a, b, c, d of one member, in this order"""
    bad = []
    for x in subterms(t):
        if isinstance(x, tuple) and len(x) > 3 and x[0] in ('ctor', 'call') and 'VWUUID' in str(x[1:3]):
            a = x[2:] if x[0] == 'ctor' else x[4]
            f = [y for y in a if isinstance(y, tuple) and y and y[0] == 'fld' and re.search(r'::[abcd]$', y[2])]
            if len(f) >= 2 and (len(set(y[1] for y in f)) > 1 or [y[2][-1] for y in f] != sorted(set(y[2][-1] for y in f)) or len(f) != 4):
                bad.append([short(y[2]) for y in f])
    return bad


class Hooks:
    def __init__(s, root, text=None):
        s.root, s.text = root, text
        s.w = []          # (location, values, pc, loop facts, node)
        s.push = []       # (list location, value, argument location, pc, loop facts, name)
        s.req = set()     # keys that are read without a look whether they are there
        s.asked = set()
        s.opaque = []
        s.conds = []      # conditions that are evaluated
        s.convs = []      # conversions of a text from JSON that can fail
        s.ends = []       # states at the end of the root function

    def on_cond(s, eng, *a):
        s.conds.append(str(a[1]))

    def on_return(s, eng, st, v, node):
        if len(eng.stack) == 1:
            s.ends.append((st.must, dict(st.env), st.pc))

    def loopfacts(s, eng):
        r = E()
        for l in eng.loops:
            r |= l[3]
        return r

    def on_call(s, eng, st, e, obj, argv, argl):
        q = e.get('q') or ''
        if 'basic_json' not in q and 'nlohmann' not in q:
            if e.get('n') == 'ConvertUUID' and e.get('t') in ('bool', '_Bool') and argv and any(keys_in(a) for a in argv[0]):
                s.convs.append((sorted(set().union(*[keys_in(a) for a in argv[0]])), e))
            if e.get('n') in ('push_back', 'emplace_back', 'insert', 'push_front', 'emplace') and obj:
                s.push.append((obj, argv, argl, st.pc, s.loopfacts(eng), e['n']))
            return None
        n = e.get('n') or ''
        op = e.get('op')
        if op == '[]' or n in ('at', 'value'):
            ks = [a for a in (argv[0] if argv else ()) if a[0] == 'str']
            if not argv or len(ks) != len(argv[0]):
                if argv and not all(a[0] in ('int', 'last') for a in argv[0]):
                    s.opaque.append(e.get('l'))
            for k in ks:
                if s.text is not None and k[1] == 'Type' and all(not keys_in(o) for o in obj):
                    return E([('str', s.text)]), E([('str', s.text)])
            locs = E(('elem', b, k) for b in obj for k in ks)
            if n == 'at':
                for l in locs:
                    s.req.add((jkey(l)[1], any(k[1] in str(p) and 'contains' in str(p) for p in st.pc)))
            if locs:
                r = set()
                for l in locs:
                    r |= eng.read(l, st)
                return E(r), locs
            return None
        if n in ('get', 'get_ref', 'get_ptr') or n.startswith('operator ') or n == 'get_to':
            r = set()
            for l in obj:
                r |= eng.read(l, st)
            t = (e.get('t') or '').replace('const ', '').rstrip('& ')
            if t in WIDTH:
                r = {('conv', t, v) for v in r}
            if n == 'get_to' and argl:
                for l in argl[0]:
                    eng.write(l, E(r), st, e)
            return E(r), obj
        if n in ('push_back', 'emplace_back', 'insert', 'emplace', 'update', 'merge_patch') or op == '+=':
            s.push.append((obj, argv, argl, st.pc, s.loopfacts(eng), n if op != '+=' else 'push_back'))
            for o in obj:
                if o[0] == 'L':
                    st.env[o] = E([('jlocal', o)])
            if n in ('update', 'merge_patch', 'insert', 'emplace'):
                s.opaque.append(e.get('l'))
            return E([('void',)]), obj
        return None

    def on_write(s, eng, st, loc, vals, node, init=False):
        s.w.append((loc, vals, st.pc, s.loopfacts(eng), node))
        m = member(loc, s.root)
        if m:
            st.must = st.must | {('w', m)}
        j = jkey(loc)
        if j:
            st.must = st.must | {('j', j)}
            if j[0][0] == 'L':
                st.env[j[0]] = E([('jlocal', j[0])])


def ftype(P, loc):
    if loc[0] != 'fld':
        return ''
    for q, c in P.classes.items():
        for f in c['fields']:
            if f['f'] == loc[2]:
                return f['t'].replace('const ', '')
    return ''


def find(P):
    enc, dec = [], []
    for k, f in P.funcs.items():
        if not f.get('body') or f.get('cls') != 'MVRxchangeNetwork::MVRxchangePacket':
            continue
        for i, p in enumerate(f['p']):
            if MSG in p['t'] and f.get('acc', 'public') == 'public' and not f.get('ctor'):
                (enc if p['t'].startswith('const ') else dec).append((k, i, p['n']))
    if len(enc) != 1 or len(dec) != 1:
        raise Broken('C16: the functions that turn a message into a package and back are not found (%d, %d)' % (len(enc), len(dec)))
    return enc[0], dec[0]


def policy(eng, key, call):
    f = eng.P.funcs.get(key)
    return bool(f and f.get('body') and '/mvrxchange/' in f['file'])


def run_one(P, ent, typ=None, text=None, tf=None, seed=None):
    k, i, n = ent
    root = ('param', i, n)
    h = Hooks(root, text)
    eng = Engine(P, h, inline=policy)
    st = State()
    if typ is not None:
        st.env[('fld', root, tf)] = E([typ])
    st.env.update(seed or {})
    out = eng.run(k, state=st)[0]
    return h, eng, out


def jsonpaths(h):
    """full key of every JSON location: an object built on the side and appended to a list belongs below that list"""
    below = {}
    for obj, argv, argl, pc, lf, n in h.push:
        for o in obj:
            j = jkey(o)
            if not j:
                continue
            for a in (argl[0] if argl else ()):
                if a[0] == 'L':
                    below[a] = (j[0], j[1] + '[]')
            for v in (argv[0] if argv else ()):
                for x in subterms(v):
                    if isinstance(x, tuple) and x and x[0] == 'jlocal':
                        below.setdefault(x[1], (j[0], j[1] + '[]'))
    for loc, vals, pc, lf, node in h.w:
        j = jkey(loc)
        for v in vals if j else ():
            for x in subterms(v):
                if isinstance(x, tuple) and x and x[0] == 'jlocal' and x[1] != j[0]:
                    below.setdefault(x[1], j)

    def full(base, key, n=0):
        if base in below and n < 4:
            b, p = below[base]
            return full(b, p + ('.' + key if not key.startswith('[]') else key) if key else p, n + 1)
        return key
    return full


def const_only(v):
    return not any(isinstance(x, tuple) and x and x[0] in ('fld', 'elem', 'param', 'L', 'top') for x in subterms(v))


def check(P, C):
    enc, dec = find(P)
    tfs = [q + '::' + f['n'] if not f['f'].startswith(q) else f['f'] for q, c in P.classes.items() if q.endswith('::' + MSG) for f in c['fields'] if f['n'] == 'Type']
    if not tfs:
        raise Broken('C16: the member Type of %s is not found' % MSG)
    tf = tfs[0]
    okf = [f['f'] for q, c in P.classes.items() if q.endswith('::' + MSG) for f in c['fields'] if f['n'] == 'RetIsOK'][0]
    ens = [(q, d) for q, d in P.enums.items() if q.endswith('::MVRxchangeMessageType')]
    if not ens:
        raise Broken('C16: MVRxchangeMessageType is not found')
    wfile = P.funcs[enc[0]]['file']
    where_w = '%s %s' % (wfile, P.funcs[enc[0]]['q'].split('::')[-1])
    where_r = '%s %s' % (P.funcs[dec[0]]['file'], P.funcs[dec[0]]['q'].split('::')[-1])
    rootw, rootr = ('param', enc[1], enc[2]), ('param', dec[1], dec[2])
    texts = {}
    table = {}
    for q, v in enumerators(ens[0][1]):
        h, eng, out = run_one(P, enc, ('enum', q, v), None, tf)
        full = jsonpaths(h)
        written, final = {}, {}
        for loc, vals, pc, lf, node in h.w:
            j = jkey(loc)
            if not j or j[1].startswith('[]'):
                continue
            p = full(*j)
            written.setdefault(p, []).append((vals, pc, lf, loc, node))
        for obj, argv, argl, pc, lf, n in h.push:
            for o in obj:
                j = jkey(o) or ((o, '') if o[0] == 'L' else None)
                if j and argv and full(*j):
                    written.setdefault(full(*j) + '[]', []).append((argv[0], pc, lf, o, n))
        t = set()
        for vals, pc, lf, loc, node in written.get('Type', ()):
            for v_ in vals:
                s = [x[1] for x in subterms(v_) if isinstance(x, tuple) and x and x[0] == 'str']
                t |= set(s)
        name = short(q)
        if not t:
            continue
        C.ob('text', name, len(t) == 1, where_w, '' if len(t) == 1 else 'more than one type text is written for %s: %s' % (name, sorted(t)))
        t = sorted(t)[0]
        if t in texts:
            C.ob('text', name, False, where_w, '%s and %s are both written as "%s"' % (texts[t][0], name, t))
        texts[t] = (name, ('enum', q, v))
        table[t] = (written, h, out)
    if len(texts) < 5:
        raise Broken('C16: only %d message types with a text found' % len(texts))
    # the members of a package as the writer leaves them
    left = {}
    for t in texts:
        for loc, vals, pc, lf, node in table[t][1].w:
            if loc[0] == 'fld' and loc[1] == THIS:
                left.setdefault(loc, []).extend(vals)
    seed = {}
    for l, vs in left.items():
        c = [v for v in vs if v[0] == 'int']
        ty = next((f['t'] for q, d in P.classes.items() if q == 'MVRxchangeNetwork::MVRxchangePacket' for f in d['fields'] if f['f'] == l[2]), '')
        other = [v for v in vs if v[0] != 'int' and not any(isinstance(x, tuple) and x and x[0] == 'L' for x in subterms(v))]      # (the byte order is turned through locals)
        if c and not other:
            seed[l] = E([max(sorted(set(c)), key=c.count)])
        elif ty.replace('const ', '') in WIDTH:
            seed[l] = E([('int', 1000)])
    for t, (name, en) in sorted(texts.items()):
        written, hw, outw = table[t]
        h, eng, out = run_one(P, dec, None, t, tf, seed)
        got = set()
        for loc, vals, pc, lf, node in h.w:
            if loc == ('fld', rootr, tf):
                got |= {short(v[1]) if v[0] == 'enum' else '?' for v in vals}
        got.discard(UNDEF)
        C.ob('back', name, got == {name}, where_r, '' if got == {name} else 'a message of type "%s" (%s) is read as %s' % (t, name, sorted(got) or 'no type'))
        ok = always(h.ends, ('w', 'Type'), okf, tf, rootr)
        C.ob('back', name + ' always', ok, where_r, '' if ok else 'a message of type "%s" can be read without an error and without a type' % t)
        al = aliases(h, rootr)
        read = {}      # member -> [(keys, pc, lf, loc, vals)]
        for loc, vals, pc, lf, node in h.w:
            m = amember(loc, rootr, al)
            if not m or m in ('Type',) or loc[0] == 'L':
                continue
            m = re.sub(r'(\.fBuffer(\[\])?)$', '', m)
            ks = set()
            for v in vals:
                if v[0] != 'mut':
                    ks |= keys_in(v)
            if ks:
                read.setdefault(m, []).append((ks, pc, lf, loc, vals))
                x = loc
                while isinstance(x, tuple) and x and x[0] in ('fld', 'elem'):
                    if x[0] == 'elem' and len(x) > 2 and x[2][0] == 'int' and any('[]' in k for k in ks):
                        C.ob('list', '%s.%s(read)' % (name, m), False, where_r, 'every element of the list is read into the same element of %s' % m)
                    x = x[1]
        for obj, argv, argl, pc, lf, n in h.push:
            for o in obj:
                m = amember(o, rootr, al)
                ks = set().union(*[keys_in(v) for v in argv[0]]) if argv else set()
                if m and ks:
                    read.setdefault(m + '[]', []).append((ks, pc, lf, o, argv[0]))
        if h.opaque or hw.opaque:
            C.skip('field', name, 'a JSON value is accessed in a way the analysis does not follow (line %s)' % (h.opaque + hw.opaque)[0])
            continue
        wm = {}
        for p, l in written.items():
            if p == 'Type':
                continue
            ms = set()
            for vals, pc, lf, loc, node in l:
                for v in vals:
                    ms |= members_in(v, rootw)
                    bad = parts_ok(v, rootw)
                    C.ob('uuid', '%s.%s' % (name, p), not bad, where_w, '' if not bad else 'the uuid written as "%s" is put together from %s' % (p, bad[0]))
            ms = {m for m in ms}
            wm[p] = ms
            after = False
            for vals, pc, lf, loc, node in l:
                if any(members_in(v, rootw) for v in vals):
                    after = True
                elif after and not extra(pc, lf):
                    C.ob('single', '%s.%s' % (name, p), False, where_w, '"%s" of %s is overwritten with a constant' % (p, name))
        # every member the reader takes from a key was written to that key
        allkeys = set()
        for m, l in sorted(read.items()):
            keys = set()
            for ks, pc, lf, loc, vals in l:
                keys |= ks
                if len(ks) > 1:
                    C.ob('field', '%s.%s' % (name, m), False, where_r, '%s of %s is read from several fields %s' % (m, name, sorted(ks)))
            allkeys |= keys
            src = [k for k in keys if m in wm.get(k, ())]
            C.ob('field', '%s.%s' % (name, m), bool(src), where_r,
                 '' if src else '%s of %s is read from "%s", which is written from %s' % (m, name, ', '.join(sorted(keys)), ', '.join(sorted(set().union(*[wm.get(k, set()) for k in keys]))) or 'nothing'))
            for k in src:
                only = wm[k] == {m}
                C.ob('single', '%s.%s' % (name, k), only, where_w, '' if only else '"%s" of %s is written from %s but read into %s' % (k, name, ', '.join(sorted(wm[k])), m))
            wt = WIDTH.get(ftype(P, l[0][3]), 0)
            nar = sorted({x[1] for ks, pc, lf, loc, vals in l for v in vals for x in subterms(v) if isinstance(x, tuple) and x and x[0] == 'conv' and WIDTH[x[1]] < wt})
            C.ob('width', '%s.%s' % (name, m), not nar, where_r, '' if not nar else '%s of %s is read as %s, which cannot hold all its values' % (m, name, nar[0]))
            # on every path that ends without an error
            if '[]' not in m:
                ok = always(h.ends, ('w', m), okf, tf, rootr)
                C.ob('always', '%s.%s' % (name, m), ok, where_r, '' if ok else '%s of %s is not read on every path that ends without an error' % (m, name))
            else:
                free = [1 for ks, pc, lf, loc, vals in l if not (extra(pc, lf))]
                C.ob('always', '%s.%s' % (name, m), bool(free), where_r, '' if free else '%s of %s is only read under a condition' % (m, name))
        for ks, e in h.convs:
            hit = any("'call', 'ConvertUUID'" in c and all(("('str', '%s')" % k.split('.')[-1].replace('[]', '')) in c for k in ks[:1]) for c in h.conds)
            C.ob('valid', '%s.%s' % (name, ks[0]), hit, where_r, '' if hit else 'whether "%s" of %s is a uuid is not looked at: a broken text is read without an error' % (ks[0], name))
        # every key that is written is read
        for p in sorted(wm):
            if not wm[p] and all(const_only(v) for l in written[p] for v in l[0]):
                continue
            if p.endswith('[]') and any(k.startswith(p + '.') for k in wm):
                continue
            hit = [k for k in allkeys if k == p or k == p + '[]']
            C.ob('read', '%s.%s' % (name, p), bool(hit), where_r, '' if hit else '"%s" of %s is written but never read' % (p, name))
        # what the reader needs, the writer always writes
        for k, guarded in sorted(h.req):
            if guarded or k == 'Type':
                continue
            if '[]' in k:
                ok = any(not extra(pc, lf) for vals, pc, lf, loc, node in written.get(k, ()))
            else:
                ok = k in written and any(always(hw.ends, ('j', jkey(x[3])) ) for x in written[k] if jkey(x[3]))
            C.ob('needed', '%s.%s' % (name, k), ok, where_w, '' if ok else 'the reader refuses a %s without "%s", the writer does not always write it' % (name, k))
        # lists keep their order and every element
        for p, l in sorted(written.items()):
            for vals, pc, lf, loc, node in l:
                if p.endswith('[]') and isinstance(node, str):
                    ok = node in ('push_back', 'emplace_back') and not extra(pc, lf)
                    C.ob('list', '%s.%s' % (name, p), ok, where_w, '' if ok else 'not every element of "%s" is appended, or not at the end' % p)
        for obj, argv, argl, pc, lf, n in h.push:
            for o in obj:
                m = member(o, rootr)
                if m:
                    ok = n in ('push_back', 'emplace_back') and not extra(pc, lf)
                    C.ob('list', '%s.%s(read)' % (name, m), ok, where_r, '' if ok else 'not every element of %s is appended while reading, or not at the end' % m)
    # unknown types are an error
    h, eng, out = run_one(P, dec, None, '?no such type?', tf, seed)
    got = set()
    for loc, vals, pc, lf, node in h.w:
        if loc == ('fld', rootr, tf):
            got |= {short(v[1]) if v[0] == 'enum' else '?' for v in vals}
    got.discard(UNDEF)
    C.ob('unknown', 'type', not got, where_r, '' if not got else 'a message with an unknown type text is read as %s' % sorted(got))
    live = [e for e in h.ends if not failed(e[1], okf, tf, rootr)]
    C.ob('unknown', 'error', not live, where_r, '' if not live else 'a message with an unknown type text is read without an error')
    service(P, C, tf)
    return texts


def service(P, C, tf):
    """what the service does with a message that came in"""
    fs = [k for k, f in P.funcs.items() if f.get('body') and '/mvrxchange/' in f['file'] and f.get('ret', '').endswith(MSG) and f['p'] and MSG in f['p'][0]['t']]
    if len(fs) != 1:
        raise Broken('C16: the handler of incoming messages is not found')
    k = fs[0]
    f = P.funcs[k]
    where = '%s %s' % (f['file'], f['q'])
    root = ('param', 0, f['p'][0]['n'])
    en = dict((short(q), ('enum', q, v)) for e, d in P.enums.items() if e.endswith('::MVRxchangeMessageType') for q, v in enumerators(d))

    def go(t):
        calls = []

        class H:
            def __init__(s):
                s.rets = []

            def on_call(s, eng, st, e, obj, argv, argl):
                calls.append((e, obj, argv, st.pc, [fr.fn for fr in eng.stack]))
                return None

            def on_return(s, eng, st, v, node):
                if len(eng.stack) == 1:
                    s.rets.append((v, st.must, st))
        h = H()
        eng = Engine(P, h, inline=policy)
        st = State()
        st.env[('fld', root, tf)] = E([t])
        eng.run(k, state=st)
        return calls, h

    def groupcalls(calls, names):
        r = []
        for e, obj, argv, pc, st in calls:
            if e.get('n') in names and 'MVRxchangeGroupMember' in str(e.get('cls')):
                r.append((e, obj, argv, pc))
        return r

    def closure_nodes(calls):
        """everything the handler runs for this message, the functions it hands to algorithms included"""
        seen = set()
        for e, obj, argv, pc, st in calls:
            for a in argv:
                for t in a:
                    for x in subterms(t):
                        if isinstance(x, tuple) and x and x[0] == 'lambda' and x[1] not in seen:
                            seen.add(x[1])
        return seen
    # MVR_LEAVE takes the station out of the group
    calls, h = go(en['MVR_LEAVE'])
    gone = groupcalls(calls, ('erase', 'pop_back', 'clear', 'assign', 'swap', 'operator=', 'remove_if'))
    C.ob('group', 'leave', bool(gone), where, '' if gone else 'MVR_LEAVE does not take a station out of the group')
    cmpd = False
    for lk in closure_nodes(calls) | {k}:
        for x in nodes(P.funcs.get(lk, {}).get('body')):
            if x.get('k') == 'call' and x.get('op') in ('==', '!=') or x.get('k') == 'bin' and x.get('op') in ('==', '!='):
                names = {short(y['f']) for y in nodes(x) if y.get('k') == 'mem'}
                if 'stationUUID' in names and 'FromStationUUID' in names:
                    cmpd = True
    for e, obj, argv, pc, st in calls:
        if e.get('op') in ('==', '!=') and 'FromStationUUID' in str(argv) + str(obj) and 'stationUUID' in str(argv) + str(obj):
            cmpd = True
    C.ob('group', 'leave station', cmpd, where, '' if cmpd else 'the station that is taken out of the group is not found by the uuid in MVR_LEAVE')
    # no other message does
    for t in sorted(en):
        if t in ('MVR_LEAVE', 'MVR_JOIN'):
            continue
        c2, h2 = go(en[t])
        bad = groupcalls(c2, ('erase', 'pop_back', 'clear', 'push_back', 'emplace_back', 'insert'))
        C.ob('group', 'not ' + t, not bad, where, '' if not bad else '%s changes the group of stations' % t)
    calls, h = go(en['MVR_JOIN'])
    put = groupcalls(calls, ('push_back', 'emplace_back', 'insert'))
    C.ob('group', 'join', bool(put), where, '' if put else 'MVR_JOIN does not add the station to the group')
    # every message is handed to the callback of the application, whose answer is returned
    for t in sorted(en):
        calls, h = go(en[t])
        cb = [(e, argv) for e, obj, argv, pc, st in calls if e.get('n') == '<ptr>' or e.get('op') == '()' or e.get('fn') in ('<ptr>', '<op>')]
        cb = [(e, argv) for e, argv in cb if argv and any(v == root or v == ('addr', root) for v in argv[0])]
        C.ob('callback', t, bool(cb), where, '' if cb else 'a message %s is not handed to the callback of the application' % t)


def enumerators(d):
    return [(e['q'], e['v']) for e in d['e']]


def extra(pc, lf):
    """conditions a statement stands under, other than that of the loop around it"""
    r = []
    for p in pc - lf:
        t = str(p)
        if "'range'" in t or 'size' in t or "'empty'" in t or 'enditer' in t or "'iter'" in t or 'range' in t or "'ConvertUUID'" in t:
            continue
        r.append(p)
    return r


def failed(env, okf, tf, root):
    v = env.get(('fld', root, okf))
    return v is not None and all(x[0] == 'int' and x[1] == 0 for x in v)


def always(ends, tok, okf=None, tf=None, root=None):
    live = [e for e in ends if okf is None or not failed(e[1], okf, tf, root)]
    return bool(live) and all(tok in e[0] for e in live)


RULE = ('MVRxchangePacket::FromExternalMessage is analysed once per message type, ToExternalMessage once per type text it writes. For each type: the text leads back to the type on every '
        'path without an error; every member is read, on every such path, from the key it was written to; every key that is written is read into its member; nothing the reader requires can be missing; '
        'list elements are all appended in order; uuid texts are checked; unknown types are errors. The handler of incoming messages changes the group for MVR_JOIN and MVR_LEAVE only and hands every '
        'message to the application')


def run(P, tier):
    C = Check('C16', RULE, 'interprocedural dataflow: message writer tables against message reader tables')
    check(P, C)
    for kind, n in (('back', 10), ('field', 25), ('read', 25), ('always', 25), ('needed', 25), ('callback', 6)):
        C.need(kind, n)
    return C.finish(P, tier)
