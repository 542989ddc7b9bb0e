"""C34: numbers, truth values, enumerators and pointers have a defined value before they are read."""
import re
import facts
from report import Check, Broken
from c10 import nodes
from conc import strip

RAW = True      # looks at the code exactly as written
BASIC = ('int', 'bool', 'double', 'float', 'char', 'long', 'short', 'unsigned', 'signed', 'wchar_t', 'char16_t', 'char32_t')
OWN = re.compile('^' + re.escape(facts.REPO) + r'/(src|mdns_cpp)/')
FOREIGN = re.compile(r'/(json\.h|miniz[^/]*|tinyxml2[^/]*|mdns\.h|sha256[^/]*)$|/mdns_cpp/')
PLAIN = re.compile(r'^(const )?(volatile )?')


def bare(t):
    t = (t or '').strip()
    while True:
        u = re.sub(r'^(const|volatile) ', '', t)
        u = re.sub(r' (const|volatile)$', '', u)
        if u == t:
            return t
        t = u


class Types:
    def __init__(s, P):
        s.P = P
        s.ctors = {}
        for k, f in P.funcs.items():
            if f.get('ctor'):
                s.ctors.setdefault(f['cls'], []).append(k)
        s.memo = {}

    def scalar(s, t):
        t = bare(t)
        if t.endswith('*'):
            return True
        if '[' in t or t.endswith('&') or '(' in t or '<' in t:
            return False
        return bool(t) and (t.split()[0] in BASIC or t in s.P.enums)

    def usermade(s, q):
        """the class has a constructor of its own (its members are the constructor's business)"""
        c = s.P.classes.get(q)
        return any(m.get('ctor') and not m.get('impl') and not m.get('dflt') for m in c.get('methods', []))

    def parts(s, t, depth=0):
        """member paths of an object of type t that are left indeterminate by default-initialisation"""
        t = bare(t)
        if s.scalar(t):
            return [()]
        c = s.P.classes.get(t)
        if c is None or depth > 4 or s.usermade(t) or c.get('union') or 'anonymous' in t or 'unnamed' in t:
            return []
        if t in s.memo:
            return s.memo[t]
        r = []
        for b in c.get('bases', []):
            r += s.parts(b, depth + 1)
        for f in c.get('fields', []):
            if 'init' in f or '[' in f['t']:
                continue
            r += [(f['f'],) + p for p in s.parts(f['t'], depth + 1)]
        s.memo[t] = r
        return r


class Flow:
    """definite assignment over the statements of one function; places are (root, member, ...) tuples"""

    def __init__(s, T, A, k, report=None):
        s.T, s.A, s.P = T, A, T.P
        s.k = k
        s.f = T.P.funcs[k]
        s.report = report
        s.local = {}        # d -> type of the locals left indeterminate
        s.free = set()      # roots we gave up on
        s.exits = []
        s.loops = []
        s.refs = {}

    # --- entry points
    def run(s):
        st = set()
        if s.f.get('ctor'):
            for i in s.f.get('inits') or []:
                st = s.init(i, st)
        st = s.stmt(s.f.get('body') or {'k': 'seq', 's': []}, st)
        if st is not None:
            s.exits.append((st, s.f.get('el')))
        return s.exits

    def init(s, i, st):
        e = i.get('e')
        if isinstance(e, dict):
            st = s.ev(e, st)
        if i.get('deleg'):
            k = e.get('fn') if isinstance(e, dict) else None
            for p in s.A.members(k) if k else ():
                st = st | {('this',) + p}
        elif i.get('f'):
            x = strip(e) if isinstance(e, dict) else {}
            whole = ('this', i['f'])
            if x.get('k') == 'ctor' and not x.get('a') and not x.get('zi') and not i.get('w') and not s.T.scalar(i['t']) and s.T.parts(i['t']):
                pass                  # an implicit default constructor that leaves members alone
            else:
                st = st | {whole}
        return st

    # --- places
    def place(s, e):
        """the place an lvalue expression stands for, or None"""
        e = strip(e)
        k = e.get('k')
        if k == 'var' and not e.get('g'):
            if e.get('d') in s.refs:
                return s.refs[e['d']]
            return (e.get('d'),)
        if k == 'mem':
            b = strip(e['b']) if e.get('b') else {'k': 'this'}
            if b.get('k') == 'this':
                return ('this', e.get('f'))
            if e.get('ar') and not (b.get('k') == 'var' and s.param(b.get('d'))):
                return None
            p = s.place(b)
            return None if p is None else p + (e.get('f'),)
        if k == 'un' and e.get('op') == '*':
            x = strip(e['e'])
            if x.get('k') == 'un' and x.get('op') == '&':
                return s.place(x['e'])
            if x.get('k') == 'this':
                return ('this',)
            if x.get('k') == 'var' and s.param(x.get('d')):
                return (x['d'],)
        return None

    def has(s, st, p):
        return any(p[:i] in st for i in range(1, len(p) + 1))

    def missing(s, st, p, t):
        """indeterminate parts of the tracked local at place p"""
        if p is None or p[0] not in s.local or p[0] in s.free:
            return []
        out = []
        for q in s.local[p[0]][1]:
            full = (p[0],) + q
            if full[:len(p)] == p and not s.has(st, full):
                out.append(full)
        return out

    def read(s, e, st):
        p = s.place(e)
        if p is None or st is None or not s.report:
            return
        m = s.missing(st, p, e.get('t'))
        if m:
            s.report(e, s.local[p[0]][0], m, p)

    # --- expressions: evaluates and returns the state after
    def ev(s, e, st, lv=False):
        if st is None or not isinstance(e, dict):
            return st
        k = e.get('k')
        if k in ('var', 'mem'):
            if k == 'mem' and e.get('b') and strip(e['b']).get('k') not in ('this', 'var', 'mem'):
                st = s.ev(e['b'], st, lv=True)
            elif k == 'mem' and e.get('ar') and e.get('b') and strip(e['b']).get('k') in ('var', 'mem'):
                st = s.ev(e['b'], st)
            if not lv:
                s.read(e, st)
            return st
        if k == 'cast':
            return s.ev(e['e'], st, lv)
        if k == 'bin':
            if e.get('as'):
                if e['op'] == '=':
                    st = s.ev(e['b'], st)
                    st = s.ev(e['a'], st, lv=True)
                    p = s.place(e['a'])
                    return st | {p} if p and st is not None else st
                st = s.ev(e['a'], st)
                return s.ev(e['b'], st)
            if e['op'] in ('&&', '||'):
                t, f = s.cond(e, st)
                return s.meet(t, f)
            st = s.ev(e['a'], st)
            return s.ev(e['b'], st)
        if k == 'un':
            if e['op'] == '&':
                p = s.place(e['e'])
                st = s.ev(e['e'], st, lv=True)
                if p and p[0] in s.local:
                    s.free.add(p[0])          # its address is taken somewhere else
                return st
            if e['op'] == '!':
                t, f = s.cond(e, st)
                return s.meet(t, f)
            return s.ev(e['e'], st)
        if k == 'cond':
            t, f = s.cond(e['c'], st)
            return s.meet(s.ev(e['a'], t, lv), s.ev(e['b'], f, lv))
        if k in ('call', 'ctor', 'new'):
            return s.call(e, st)
        if k == 'lambda':
            for c in e.get('caps', []):
                if c.get('d') is not None:
                    if c.get('ref'):
                        s.free.add(c['d'])
                    elif isinstance(c.get('e'), dict):
                        st = s.ev(c['e'], st, lv=True)
            return st
        if k == 'idx':
            st = s.ev(e['b'], st, lv=True)
            return s.ev(e['i'], st)
        if k == 'throw':
            s.ev(e.get('e'), st)
            return None
        if k in ('szof', 'sizeof', 'typeid', 'decltype'):
            return st
        for x in ('e', 'a', 'b', 'c', 'i', 'v', 's'):
            y = e.get(x)
            for z in y if isinstance(y, list) else [y]:
                if isinstance(z, dict) and 'k' in z:
                    st = s.ev(z, st)
        return st

    def call(s, e, st, used=True):
        o = e.get('o')
        fn = e.get('fn')
        f = s.P.funcs.get(fn)
        argp = []
        if e.get('op') == '=' and o is not None and len(e.get('a', [])) == 1:
            st = s.ev(e['a'][0], st)
            st = s.ev(o, st, lv=True)
            p = s.place(o)
            return st | {p} if p and st is not None else st
        if isinstance(o, dict):
            st = s.ev(o, st, lv=not e.get('ar'))
            p = s.place(o)
            if p and p[0] in s.local and not e.get('cm') and not e.get('ar'):
                if len(p) == 1:
                    s.free.add(p[0])          # a method that may set its members
                elif st is not None:
                    st = st | {p}
        if isinstance(e.get('ce'), dict):
            st = s.ev(e['ce'], st)
        pts = e.get('pt', [])
        out = []
        for i, a in enumerate(e.get('a', []) or []):
            if not isinstance(a, dict):
                continue
            pt = pts[i] if i < len(pts) else ''
            x = strip(a)
            byref = pt.endswith('&') and not pt.startswith('const ') and not pt.endswith('const &')
            byptr = x.get('k') == 'un' and x.get('op') == '&'
            if byref or byptr:
                tgt = a if byref else x['e']
                st = s.ev(tgt, st, lv=True)
                p = s.place(tgt)
                if p:
                    out.append((i, p))
            elif pt.endswith('&'):
                st = s.ev(a, st)
            else:
                st = s.ev(a, st)
        if st is None or e.get('nr'):
            return None
        for i, p in out:
            if p[0] != 'this' and p[0] not in s.local and not s.param(p[0]):
                continue
            w = s.A.writes(e, i)
            if w == 'must' or w == 'may' and used:
                st = st | {p}
        if (f is None or not f.get('body')) and e.get('k') == 'call' and (e.get('o') or {}).get('k') == 'this' and not e.get('cm'):
            st = st | {('this',)}             # not part of the sources
        elif f is not None and (e.get('o') or {}).get('k') == 'this' and e.get('k') == 'call' and not (e.get('virt') and not e.get('nv') and s.P.overriders.get(fn)):
            for p in s.A.members(fn):
                st = st | {('this',) + p}
        return st

    def param(s, d):
        return any(p['d'] == d for p in s.f.get('p', []))

    def meet(s, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return s.norm(a) & s.norm(b) | {p for p in a | b if s.has(a, p) and s.has(b, p)}

    def norm(s, a):
        return a

    def cond(s, e, st):
        """states when e is true and when it is false"""
        if st is None:
            return None, None
        x = strip(e)
        if x.get('k') == 'bin' and x.get('op') == '&&':
            t, f = s.cond(x['a'], st)
            t2, f2 = s.cond(x['b'], t)
            return t2, s.meet(f, f2)
        if x.get('k') == 'bin' and x.get('op') == '||':
            t, f = s.cond(x['a'], st)
            t2, f2 = s.cond(x['b'], f)
            return s.meet(t, t2), f2
        if x.get('k') == 'un' and x.get('op') == '!':
            t, f = s.cond(x['e'], st)
            return f, t
        r = s.ev(e, st)
        c = x.get('cv', x.get('v') if x.get('k') == 'int' else None)
        if x.get('k') == 'int' or x.get('cv') is not None:
            if c:
                return r, None
            return None, r
        return r, r

    # --- statements
    def block(s, lst, st):
        for x in lst:
            if isinstance(x, dict):
                if x.get('k') in ('case', 'default') and s.sw:
                    st = s.meet(st, s.sw[-1])
                if st is None:
                    if not any(y.get('k') in ('case', 'default') for y in nodes(x)):
                        continue
                    if x.get('k') not in ('case', 'default'):
                        continue
                st = s.stmt(x, st)
        return st

    sw = ()

    def stmt(s, x, st):
        k = x.get('k')
        if k == 'seq':
            return s.block(x.get('s', []), st)
        if k in ('case', 'default'):
            sub = x.get('s')
            if isinstance(sub, list):
                return s.block(sub, st)
            if isinstance(sub, dict):
                if sub.get('k') in ('case', 'default') and s.sw:
                    st = s.meet(st, s.sw[-1])
                return s.stmt(sub, st)
            return st
        if st is None:
            return None
        if k == 'decl':
            for v in x['v']:
                st = s.decl(v, st)
            return st
        if k == 'if':
            if isinstance(x.get('init'), dict):
                st = s.stmt(x['init'], st)
            if isinstance(x.get('cvd'), dict):
                st = s.decl(x['cvd'], st)
                t = f = st
            else:
                t, f = s.cond(x['c'], st)
            t = s.stmt(x['th'], t) if isinstance(x.get('th'), dict) and t is not None else t
            if isinstance(x.get('el'), dict):
                f = s.stmt(x['el'], f) if f is not None else None
            return s.meet(t, f)
        if k in ('while', 'for', 'do', 'rfor'):
            if k == 'for' and isinstance(x.get('i'), dict):
                st = s.stmt(x['i'], st)
            if k == 'rfor':
                st = s.ev(x['r'], st, lv=True)
            brk = []
            con = []
            s.loops.append((brk, con))
            if k == 'do':
                b = s.stmt(x['b'], st)
                for c in con:
                    b = s.meet(b, c)
                t, f = s.cond(x['c'], b) if b is not None else (None, None)
                out = f
            else:
                if k == 'rfor' or not isinstance(x.get('c'), dict):
                    t, f = st, (st if k == 'rfor' else None)
                else:
                    t, f = s.cond(x['c'], st)
                b = s.stmt(x['b'], t) if isinstance(x.get('b'), dict) and t is not None else t
                for c in con:
                    b = s.meet(b, c)
                if isinstance(x.get('inc'), dict) and b is not None:
                    s.ev(x['inc'], b)
                out = f
            s.loops.pop()
            for b in brk:
                out = s.meet(out, b)
            return out
        if k == 'switch':
            if isinstance(x.get('cvd'), dict):
                st = s.decl(x['cvd'], st)
            st = s.ev(x['c'], st)
            body = x.get('b') or {'k': 'seq', 's': []}
            brk = []
            s.loops.append((brk, None))
            s.sw = list(s.sw) + [st]
            out = s.block(body.get('s', []) if body.get('k') == 'seq' else [body], None)
            s.sw = s.sw[:-1]
            s.loops.pop()
            if not s.exhaustive(x):
                out = s.meet(out, st)
            for b in brk:
                out = s.meet(out, b)
            return out
        if k == 'break':
            if s.loops:
                s.loops[-1][0].append(st)
            return None
        if k == 'continue':
            for b, c in reversed(s.loops):
                if c is not None:
                    c.append(st)
                    break
            return None
        if k == 'ret':
            if isinstance(x.get('e'), dict):
                st = s.ev(x['e'], st)
            if st is not None:
                s.exits.append((st, x.get('l')))
            return None
        if k == 'try':
            out = s.stmt(x['b'], st)
            for h in x.get('h', []):
                if isinstance(h.get('b'), dict):
                    out = s.meet(out, s.stmt(h['b'], st))
            return out
        if k == 'throw':
            s.ev(x, st)
            return None
        if k in ('call',):
            return s.call(x, st, used=False)
        if k == 'cast' and isinstance(x.get('e'), dict) and strip(x['e']).get('k') == 'call':
            return s.call(strip(x['e']), st, used=False)
        return s.ev(x, st)

    def exhaustive(s, x):
        vals = set()
        for n in nodes(x.get('b') or {}):
            if n.get('k') == 'default':
                return True
            if n.get('k') == 'case':
                v = strip(n['v']) if isinstance(n.get('v'), dict) else {}
                vals.add(v.get('cv', v.get('v')))
        t = bare(strip(x['c']).get('t'))
        en = s.P.enums.get(t)
        return bool(en) and all(c.get('v') in vals for c in en.get('c', en.get('consts', [])) or [{'v': object()}])

    def decl(s, v, st):
        if v.get('st'):
            return st            # static storage is zeroed
        t = v.get('t', '')
        i = v.get('init')
        if t.endswith('&') and isinstance(i, dict):
            p = s.place(i)
            st = s.ev(i, st, lv=True)
            if p and p[0] in s.local:
                s.refs[v['d']] = p
            return st
        x = strip(i) if isinstance(i, dict) else None
        left = None
        if x is None:
            left = s.T.parts(t) if '[' not in t else []
        elif x.get('k') == 'ctor' and not x.get('a') and not x.get('zi') and not x.get('li'):
            left = s.T.parts(t)
        if left:
            s.local[v['d']] = (v, left)
            return {p for p in st if p[0] != v['d']}
        if isinstance(i, dict):
            st = s.ev(i, st)
        return st


class Assign:
    """what functions certainly or possibly assign: their reference and pointer parameters and their members"""

    def __init__(s, T):
        s.T, s.P = T, T.P
        s.memo = {}
        s.busy = set()

    def outs(s, k):
        """(set of certainly assigned places at every exit, Flow)"""
        if k in s.memo:
            return s.memo[k]
        if k in s.busy or k not in s.P.funcs:
            return None
        s.busy.add(k)
        fl = Flow(s.T, s, k)
        ex = [e[0] for e in fl.run()]
        s.busy.discard(k)
        r = None
        for x in ex:
            r = x if r is None else fl.meet(r, x)
        s.memo[k] = r if r is not None else set()
        return s.memo[k]

    def members(s, k):
        r = s.outs(k)
        return {p[1:] for p in r or () if p[0] == 'this' and len(p) > 1}

    def writes(s, e, i):
        """must | may | no"""
        f = s.P.funcs.get(e.get('fn'))
        if f is None or e.get('virt') and not e.get('nv') and s.P.overriders.get(e.get('fn')) or i >= len(f.get('p', [])):
            return 'must'
        if not OWN.match(f['file']):
            return 'must'
        p = f['p'][i]
        if p['t'].endswith('const *') or p['t'].startswith('const ') or p['t'][-1:] not in ('&', '*') or p['t'].endswith('**'):
            return 'must'
        r = s.outs(e['fn'])
        if r is None:
            return 'must'
        if (p['d'],) in r:
            return 'must'
        left = s.T.parts(p['t'][:-1].strip())
        if left and all(any(((p['d'],) + q)[:j] in r for j in range(1, len(q) + 2)) for q in left):
            return 'must'
        return 'may'


def told(f, d):
    """some other local is set together with d and asked later: which of the two paths ran is known to the code"""
    flags = set()
    for n in nodes(f['body']):
        blocks = [n['s']] if n.get('k') == 'seq' else [[n[x]] for x in ('th', 'el', 'b') if n.get('k') in ('if', 'for', 'rfor', 'while', 'do') and isinstance(n.get(x), dict) and n[x].get('k') != 'seq']
        for b in blocks:
            sets = set()
            for x in b:
                y = strip(x) if isinstance(x, dict) else {}
                if y.get('k') == 'bin' and y.get('as') or y.get('k') == 'call' and y.get('op') == '=':
                    z = strip(y['a'] if y['k'] == 'bin' else y['o']) if y['k'] == 'bin' or y.get('o') else {}
                    while z.get('k') == 'mem' and z.get('b'):
                        z = strip(z['b'])
                    if z.get('k') == 'var':
                        sets.add(z.get('d'))
            if d in sets:
                flags |= sets - {d}
    for n in nodes(f['body']):
        if n.get('k') in ('if', 'while', 'for', 'do', 'cond', 'switch') and isinstance(n.get('c'), dict) and any(x.get('d') in flags for x in nodes(n['c']) if x.get('k') == 'var'):
            return True
    return False


def run(P, tier):
    C = Check('C34', 'every constructor of the library gives every number, truth value, enumerator and pointer among the members a value on every path, and no function reads a local variable of such a type before something has been assigned to it', 'definite-assignment analysis over all paths of every constructor and function, with summaries of what a called function certainly assigns through its reference parameters')
    T = Types(P)
    A = Assign(T)
    # ---- constructors
    for q, c in sorted(P.classes.items()):
        if not OWN.match(c['file']) or FOREIGN.search(c['file']) or 'unnamed' in q or 'anonymous' in q:
            continue
        fl = [f for f in c.get('fields', []) if '[' not in f['t']]
        for k in sorted(T.ctors.get(q, [])):
            f = P.funcs[k]
            if f.get('dflt') or f.get('impl'):
                continue
            flow = Flow(T, A, k)
            exits = flow.run()
            for m in fl:
                for part in T.parts(m['t']):
                    p = ('this', m['f']) + part
                    name = '.'.join(x.split('::')[-1] for x in p[1:])
                    bad = [l for st, l in exits if not flow.has(st, p)]
                    C.ob('member', '%s/%s' % (k, name), not bad, where='%s:%s' % (f['file'], f['l']),
                         note='the constructor %s leaves %s without a value%s' % (k.split('(')[0] + '(' + k.split('(', 1)[1][:60], name, ' on the path that ends in line %s' % bad[0] if bad and len(bad) < len(exits) else ''))
    # ---- locals
    for k, f in sorted(P.funcs.items()):
        if not f.get('body') or not OWN.match(f['file']) or FOREIGN.search(f['file']):
            continue
        seen = {}

        def report(e, v, m, p):
            seen.setdefault(v['d'], (e, v, m))
        flow = Flow(T, A, k, report)
        flow.run()
        for d, (v, left) in sorted(flow.local.items(), key=lambda x: x[0]):
            hit = seen.get(d) if d not in flow.free else None
            nm = v['n']
            if hit and told(f, d):
                C.skip('local', '%s/%s' % (k, nm), 'another local tells whether it was set')
                continue
            C.ob('local', '%s/%s' % (k, nm), hit is None, where='%s:%s' % (f['file'], hit[0].get('l') if hit else v.get('l')),
                 note='%s reads %s, which has no value yet on some path' % (f['q'], '.'.join([nm] + [x.split('::')[-1] for x in (hit[2][0][1:] if hit else ())])))
    C.need('member', 300)
    C.need('local', 100)
    return C.finish(P, tier)
