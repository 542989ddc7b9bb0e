"""C31: nothing that is handed out or kept points into a local variable or a temporary."""
import re
import facts
from report import Check
from c10 import nodes

RAW = True
OWN = re.compile('^' + re.escape(facts.REPO) + r'/(src|mdns_cpp)/')
FOREIGN = re.compile(r'/(json\.h|miniz[^/]*|tinyxml2[^/]*|mdns\.h|sha256[^/]*)$')
EXT, THIS, TEMP = ('ext',), ('this',), ('temp',)
# class types whose value is itself only a view of somebody else's memory
VIEW = re.compile(r'(basic_string_view|initializer_list|reference_wrapper|__normal_iterator|_Rb_tree_(const_)?iterator|_(Const_)?[Nn]ode_(const_)?iterator|_List_(const_)?iterator|mutable_buffer|const_buffer)')
# class types that own what they hold and hand out positions or elements of it
OWNER = re.compile(r'^(const )?(class |struct )?(VectorworksMVR::)?(TXString|std::(__cxx11::)?(basic_string|string|vector|map|set|list|deque|array|unordered_map|unordered_set|unique_ptr|optional|pair|ostringstream|stringstream|wstring|u16string)\b)')
SMART = re.compile(r'(shared_ptr|weak_ptr|VCOMPtr|\bI[A-Z]\w*Ptr$)')
PART = {'at', 'operator[]', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'data', 'c_str', 'str', 'operator*', 'operator->', 'top', 'lower_bound', 'upper_bound', 'get', 'value',
        'GetCharPtr', 'operator const char *', 'operator const unsigned char *', 'operator const wchar_t *', 'GetData'}
VALUES = {'data', 'get', 'begin', 'end'}
ASYNC = re.compile(r'^(async_\w+|post|dispatch|defer|async|thread)$')
WAIT = re.compile(r'^(run|run_for|run_one|run_until|poll|wait|wait_for|wait_until|join|get)$')
CHARS = re.compile(r'(char|wchar_t|char16_t|TXChar|UCChar) ?\*$')


def bare(t):
    return re.sub(r'\b(const|volatile|class|struct)\b ?', '', (t or '')).strip()


class Lives:
    def __init__(s, P):
        s.P = P
        s.memo = {}
        s.freed = set()         # pointer members whose memory goes with the object
        for k, f in P.funcs.items():
            if f.get('dtor') and s.own(k):
                s.frees(k, set())

    def own(s, key):
        f = s.P.funcs.get(key)
        return f if f and f.get('body') and OWN.match(f['file']) and not FOREIGN.search(f['file']) else None

    def frees(s, k, seen):
        if k in seen or len(seen) > 8:
            return
        seen.add(k)
        f = s.P.funcs[k]
        for x in nodes(f['body']):
            e = x.get('e') if x['k'] == 'del' else (x.get('a') or [None])[0] if x['k'] == 'call' and x.get('n') == 'free' else None
            while isinstance(e, dict) and e.get('k') == 'cast':
                e = e['e']
            if isinstance(e, dict) and e.get('k') == 'mem' and (not e.get('b') or e['b'].get('k') == 'this'):
                s.freed.add(e['f'])
            if x['k'] == 'call' and s.own(x.get('fn')) and x.get('o', {}).get('k') == 'this':
                s.frees(x['fn'], seen)

    # -- what a function hands back, seen from its call
    def returns(s, key):
        if key in s.memo:
            return s.memo[key]
        s.memo[key] = {EXT}
        f = s.P.funcs[key]
        W = Func(s, key)
        r = set()
        for x in W.mine('ret'):
            if x.get('e'):
                r |= {('bad',) if o[0] in ('local', 'temp') else o for o, _ in W.handed(x['e'], f['ret'])}
        s.memo[key] = r or {EXT}
        return s.memo[key]


def isref(t):
    return (t or '').rstrip().endswith('&')


def isptr(t):
    return (t or '').rstrip().rstrip('const').rstrip().endswith('*')


class Func:
    """origins of pointers and references inside of one function"""
    def __init__(s, L, key):
        s.L, s.P, s.key = L, L.P, key
        s.f = f = L.P.funcs[key]
        s.par = {p['d'] if 'd' in p else p.get('id'): (i, p) for i, p in enumerate(f['p'])}
        s.parn = {p['n']: (i, p) for i, p in enumerate(f['p'])}
        s.decl, s.rfor = {}, {}
        s.asg = {}
        for x in nodes(f.get('body')):
            if x['k'] == 'decl':
                for v in x['v']:
                    s.decl[v.get('d')] = v
            elif x['k'] == 'rfor' and isinstance(x.get('v'), dict):
                s.rfor[x['v'].get('d')] = x
            elif x['k'] == 'bin' and x.get('as') == 1 and x['op'] == '=' and x['a'].get('k') == 'var':
                s.asg.setdefault(x['a'].get('d'), []).append(x['b'])
        s.busy = set()

    def mine(s, kind):
        return [x for x in nodes(s.f.get('body'), lam=False) if x['k'] == kind] if False else [x for x in s.walk(s.f.get('body')) if x['k'] == kind]

    def walk(s, n):
        if isinstance(n, list):
            for y in n:
                yield from s.walk(y)
        elif isinstance(n, dict):
            if 'k' in n:
                yield n
                if n['k'] == 'lambda':
                    return
            for v in n.values():
                if isinstance(v, (dict, list)):
                    yield from s.walk(v)

    def handed(s, e, t):
        """origins of what an expression converted to type t refers to: [(origin, node)]"""
        if isref(t):
            return [(o, e) for o in s.owner(e)]
        if isptr(t):
            return [(o, e) for o in s.points(e)]
        if VIEW.search(t or ''):
            return [(o, e) for o in s.points(e)]
        return []

    # -- the object an lvalue or class value is part of
    def owner(s, e):
        if not isinstance(e, dict):
            return {EXT}
        k = e.get('k')
        if k == 'cast':
            if isptr(e.get('ft')) and not isptr(e.get('t')):
                return s.points(e['e'])
            return s.owner(e['e'])
        if k == 'this':
            return {THIS}
        if k == 'var':
            return s.variable(e)
        if k == 'mem':
            if not e.get('b'):
                return {THIS}
            return s.points(e['b']) if e.get('ar') else s.owner(e['b'])
        if k == 'idx':
            b = e['b']
            return s.points(b)
        if k == 'un' and e['op'] == '*':
            return s.points(e['e'])
        if k == 'un' and e['op'] in ('++', '--'):
            return s.owner(e['e']) if not e.get('post') else {TEMP}
        if k == 'bin' and e.get('as'):
            return s.owner(e['a'])
        if k == 'bin' and e['op'] == ',':
            return s.owner(e['b'])
        if k == 'cond':
            return s.owner(e['a']) | s.owner(e['b'])
        if k == 'call':
            return s.called(e, ref=True)
        if k in ('ctor', 'list', 'lambda'):
            return {TEMP}
        if k in ('int', 'num', 'bool', 'float', 'bin', 'un', 'enum', 'char'):
            return {TEMP}
        return {EXT}

    def variable(s, e):
        d = e.get('d')
        if e.get('g') or d is None:
            return {EXT}
        if d in s.rfor and d not in s.decl:
            x = s.rfor[d]
            v = x['v']
            if isref(v.get('t')):
                return s.owner(x['r'])
            return {('local', e['n'])}
        v = s.decl.get(d)
        if v is None:
            p = s.parn.get(e['n'])
            if p is None:
                return {EXT}
            i, q = p
            return {('arg', i)} if isref(q['t']) else {('local', e['n'])}
        if v.get('static'):
            return {EXT}
        t = v.get('t') or ''
        if isref(t):
            if d in s.busy:
                return set()
            s.busy.add(d)
            r = s.owner(v.get('init')) if v.get('init') else {EXT}
            s.busy.discard(d)
            return {('local', e['n']) if o == TEMP else o for o in r}
        return {('local', e['n'])}

    # -- the object a pointer (or view) value leads to
    def points(s, e):
        if not isinstance(e, dict):
            return {EXT}
        k = e.get('k')
        if k == 'cast':
            t, ft = e.get('t'), e.get('ft')
            if (ft or '').rstrip().endswith(']'):
                return s.owner(e['e'])
            return s.points(e['e'])
        if k == 'this':
            return {THIS}
        if k == 'un' and e['op'] == '&':
            return s.owner(e['e'])
        if k == 'un' and e['op'] in ('++', '--'):
            return s.points(e['e'])
        if k == 'bin' and e['op'] in ('+', '-') and not e.get('as'):
            r = set()
            for y in (e['a'], e['b']):
                if isptr(y.get('t')) or (y.get('t') or '').endswith(']') or VIEW.search(y.get('t') or ''):
                    r |= s.points(y)
            return r or {EXT}
        if k == 'bin' and e.get('as'):
            return s.points(e['b']) if e['op'] == '=' else s.points(e['a'])
        if k == 'cond':
            return s.points(e['a']) | s.points(e['b'])
        if k == 'var':
            t = e.get('t') or ''
            if t.endswith(']'):
                return s.variable(e)
            d = e.get('d')
            if e.get('g') or d in s.busy:
                return {EXT}
            v = s.decl.get(d)
            if OWNER.match(bare(t)) and not isptr(t) and not VIEW.search(t):
                return s.variable(e)
            if v is None:
                if d in s.rfor:
                    return {EXT}
                p = s.parn.get(e['n'])
                return {('arg', p[0])} if p else {EXT}
            if not (isptr(t) or VIEW.search(t)):
                return {EXT}
            s.busy.add(d)
            r = set()
            for i in ([v['init']] if v.get('init') else []) + s.asg.get(d, []):
                r |= s.points(i)
            s.busy.discard(d)
            return {('local', o[0]) if o == TEMP and False else o for o in r} or {EXT}
        if k == 'mem':
            t = e.get('t') or ''
            if t.endswith(']') or e.get('f') in s.L.freed:
                return s.owner(e)
            return {EXT}
        if k == 'call':
            return s.called(e, ref=False)
        if k == 'ctor':
            a = e.get('a') or []
            if VIEW.search(e.get('t') or '') and a:
                return set().union(*[s.points(y) if isptr(y.get('t')) or VIEW.search(y.get('t') or '') or y.get('k') == 'call' else s.owner(y) for y in a[:1]])
            if e.get('cp') and a:
                return s.points(a[0])
            return {EXT}
        return {EXT}

    def called(s, e, ref):
        f = s.L.own(e.get('fn'))
        g = s.P.funcs.get(e.get('fn'))
        rt = (g or {}).get('ret') or e.get('rt') or ''
        o = e.get('o')
        n = e.get('n')
        ot = bare((o or {}).get('t')) if o else ''
        if o is None and e.get('op') and e.get('a'):
            o, ot = e['a'][0], bare(e['a'][0].get('t'))
        back = None
        if f is not None and (isref(rt) or isptr(rt)) and not (f.get('virt') and e.get('virt')) and not OWNER.match(bare(f.get('cls', ''))):
            back = s.L.returns(e['fn'])
            r = set()
            for b in back:
                if b == THIS and o is not None:
                    r |= s.points(o) if e.get('ar') else s.owner(o)
                elif b[0] == 'arg':
                    a = (e.get('a') or [])
                    if b[1] < len(a):
                        p = f['p'][b[1]]
                        r |= s.owner(a[b[1]]) if isref(p['t']) else s.points(a[b[1]])
                else:
                    r.add(EXT)          # a bad one is reported in the function itself
            return r or {EXT}
        if not ref and (isptr(e.get('t')) and not CHARS.search(bare(e.get('t'))) or SMART.search(bare(e.get('t')))) and n not in VALUES:
            return {EXT}            # a pointer that was read from where it is kept
        if o is not None and (n in PART or (n or '').startswith('operator ') and CHARS.search(n)):
            if SMART.search(ot):
                return {EXT}
            if OWNER.match(ot) and not isptr(ot):
                if e.get('ar'):
                    return s.points(o)
                if 'unique_ptr' in ot and n in ('get', 'operator*', 'operator->'):
                    return s.owner(o)
                if ot.startswith('std::') and n == 'str':
                    return {TEMP}
                return s.owner(o)
            if VIEW.search(ot):
                return s.points(o)
        if ref:
            if g is not None and (isref(rt)):
                return {EXT}
            if g is None and n in ('operator=', 'operator<<', 'operator+=', 'append', 'assign', 'operator[]', 'at', 'move', 'forward', 'operator*', 'operator->', 'get', 'front', 'back'):
                if n in ('move', 'forward') and e.get('a'):
                    return s.owner(e['a'][0])
                if n in ('operator=', 'operator+=', 'append', 'assign') and o is not None:
                    return s.points(o) if e.get('ar') else s.owner(o)
                return {EXT}
            t = e.get('t') or ''
            if isptr(t):
                return {EXT}
            if g is not None and not isref(rt):
                return {TEMP}
            return {EXT}
        return {EXT}


def show(e):
    if not isinstance(e, dict):
        return '?'
    k = e.get('k')
    if k == 'cast':
        return show(e['e'])
    if k == 'call':
        return ((show(e['o']) + '.') if e.get('o') else '') + (e.get('n') or '') + '()'
    return e.get('n') or k


def word(o, f):
    return {'local': 'the local %s' % (o[1] if len(o) > 1 else ''), 'temp': 'a temporary'}[o[0]]


def run(P, tier):
    C = Check('C31', __doc__, 'lifetime (points-into) dataflow over the syntax tree of every function: what a returned, stored or kept pointer or reference leads to', 'proof-modulo')
    L = Lives(P)
    for key in sorted(P.funcs):
        f = L.own(key)
        if not f:
            continue
        W = Func(L, key)
        w = lambda n: '%s:%s' % (f['file'].replace(facts.REPO + '/', ''), n.get('l') or f['l'])
        name = f['q']
        num = {}

        def tell(kind, what, got, node, text):
            bad = [o for o, _ in got if o[0] in ('local', 'temp')]
            i = num[(kind, what)] = num.get((kind, what), 0) + 1
            C.ob(kind, '%s/%s#%d' % (name, what, i), not bad, w(node), text % (word(bad[0], f),) if bad else '')
        # returned
        if isref(f['ret']) or isptr(f['ret']) or VIEW.search(f['ret']):
            for x in W.mine('ret'):
                if x.get('e'):
                    tell('returned', show(x['e']), W.handed(x['e'], f['ret']), x, '%s returns a %s into %%s' % (name, 'reference' if isref(f['ret']) else 'pointer'))
        for x in W.walk(f.get('body')):
            if x['k'] == 'decl':
                for v in x['v']:
                    t = v.get('t') or ''
                    if isptr(t) and v.get('init') or VIEW.search(t) and v.get('init'):
                        got = [(o, x) for o in W.points(v['init']) if o == TEMP]
                        tell('kept', v['n'], got, x, '%s in %s points into %%s that is gone at the end of the statement' % (v['n'], name))
                    elif isref(t) and v.get('init') and not direct(W, v['init']):
                        got = [(o, x) for o in W.owner(v['init']) if o == TEMP]
                        tell('kept', v['n'], got, x, '%s in %s refers into %%s that is gone at the end of the statement' % (v['n'], name))
            elif x['k'] == 'bin' and x.get('as') and x['op'] == '=' and isptr(x['a'].get('t')):
                a = x['a']
                tgt = where_to(W, a)
                if tgt is None:
                    continue
                got = [(o, x) for o in W.points(x['b']) if o[0] == 'temp' or o[0] == 'local' and tgt == 'out']
                tell('stored', show(a), got, x, '%s keeps a pointer into %%s in %s' % (name, show(a)))
            elif x['k'] == 'rfor' and isinstance(x.get('r'), dict):
                got = [(o, x) for o in W.owner(x['r']) if o == TEMP] if not direct(W, x['r']) else []
                tell('walked', show(x['r']), got, x, '%s walks a part of %%s that is gone before the first round' % name)
            elif x['k'] in ('call', 'ctor') and ASYNC.match(x.get('n') or (x.get('q') or '').split('::')[-1] or bare(x.get('t')).split('::')[-1] or ''):
                later(C, W, x, name, w(x), num)
    C.need('returned', 500)
    C.need('kept', 300)
    C.need('stored', 150)
    return C.finish(P, tier)


def direct(W, e):
    """a reference bound to a temporary as a whole keeps it alive"""
    while isinstance(e, dict) and e.get('k') == 'cast':
        e = e['e']
    if e.get('k') in ('ctor', 'list', 'lambda', 'int', 'num', 'bool', 'float', 'bin', 'enum', 'str', 'char'):
        return True
    if e.get('k') == 'call':
        g = W.P.funcs.get(e.get('fn'))
        return bool(g) and not isref(g['ret'])
    if e.get('k') == 'cond':
        return direct(W, e['a']) and direct(W, e['b'])
    return False


def where_to(W, a):
    """'out': the pointer stays after the call; 'in': a local pointer"""
    while a.get('k') == 'cast':
        a = a['e']
    if a.get('k') == 'var':
        d = a.get('d')
        if a.get('g'):
            return 'out'
        v = W.decl.get(d)
        if v is None:
            p = W.parn.get(a['n'])
            return 'out' if p and isref(p[1]['t']) else 'in'
        return 'out' if v.get('static') else 'in'
    o = W.owner(a)
    if any(x[0] in ('this', 'arg', 'ext') for x in o):
        return 'out'
    return None


def later(C, W, call, name, where, num):
    blocked = waited(W, call)
    kept, held = set(), False
    mine = max((q for q in W.P.classes if (W.f['q'] + '::').startswith(q + '::') and 'lambda' not in q and 'anonymous' not in q), key=len, default='')
    for l in lambdas(call.get('a')):
        for c in l.get('caps') or []:
            if c.get('ref'):
                continue
            kept.add(c.get('d'))
            held = held or 'shared_ptr' in (c.get('t') or '') and bool(mine) and mine.split('::')[-1] in c['t']
    shared = any('enable_shared_from_this' in str(b) for b in W.P.classes.get(mine, {}).get('bases', []))
    for a in call.get('a') or []:
        for b in nodes(a):
            if b['k'] == 'call' and b.get('n') == 'buffer' and b.get('a'):
                i = num[('memory', call.get('n'))] = num.get(('memory', call.get('n')), 0) + 1
                x = b['a'][0]
                got = W.points(x) | (W.owner(x) if not isptr(x.get('t')) else set())
                bad = [o for o in got if o[0] in ('local', 'temp', 'arg')]
                why = ''
                if bad:
                    why = 'works on memory of %s' % ('an argument of the function' if bad[0][0] == 'arg' else word(bad[0], W.f))
                else:
                    r = root(x)
                    if r is None or r.get('k') == 'this':
                        if not held:
                            why = 'works on memory of the object, the handler does not keep the object'
                    elif r.get('k') == 'var' and not r.get('g') and r.get('d') not in kept:
                        why = 'works on memory of %s, the handler does not keep it' % r['n']
                C.ob('memory', '%s/%s#%d' % (name, call.get('n'), i), not why or blocked, where, '' if not why or blocked else '%s in %s %s: nothing keeps that until the operation has finished' % (call.get('n'), name, why))
    for l in lambdas(call.get('a')):
        if shared and any(c.get('this') for c in l.get('caps') or []):
            i = num[('self', call.get('n'))] = num.get(('self', call.get('n')), 0) + 1
            C.ob('self', '%s/%s#%d' % (name, call.get('n'), i), held or blocked, where, '' if held or blocked else 'the handler given to %s in %s works on the object and does not keep it' % (call.get('n'), name))
    for a in call.get('a') or []:
        for l in lambdas(a):
            caps = l.get('caps') or []
            refs = [c.get('n') for c in caps if c.get('ref') or c.get('r')]
            i = num[('async', call.get('n'))] = num.get(('async', call.get('n')), 0) + 1
            C.ob('async', '%s/%s#%d' % (name, call.get('n'), i), not refs or blocked, where, 'the handler given to %s in %s refers to the local %s, nothing in the function waits for it' % (call.get('n'), name, ', '.join(str(r) for r in refs)) if refs and not blocked else '')


def root(e):
    while isinstance(e, dict):
        k = e.get('k')
        if k in ('cast', 'un'):
            e = e.get('e')
        elif k == 'mem':
            e = e.get('b') or {'k': 'this'}
        elif k == 'idx':
            e = e.get('b')
        elif k == 'call':
            e = e.get('o') or (e.get('a') or [None])[0]
        elif k == 'bin':
            e = e['a'] if isptr(e['a'].get('t')) else e['b']
        else:
            return e
    return None


def waited(W, call):
    after = False
    for y in W.walk(W.f['body']):
        if y is call:
            after = True
        elif after and y['k'] == 'call' and waits(W.L, y):
            return True
    return False


def waits(L, call, depth=3):
    if WAIT.match(call.get('n') or ''):
        return True
    f = L.own(call.get('fn'))
    return bool(f) and depth > 0 and any(y['k'] == 'call' and waits(L, y, depth - 1) for y in nodes(f['body']))


def lambdas(a):
    if isinstance(a, list):
        for y in a:
            yield from lambdas(y)
    elif isinstance(a, dict):
        if a.get('k') == 'lambda':
            yield a
            return
        for v in a.values():
            if isinstance(v, (dict, list)):
                yield from lambdas(v)
