"""Set-valued forward dataflow over the extracted program.

A single abstract state is propagated through each function (no path enumeration, no solver): every location maps
to the set of terms that may be stored in it; at joins value sets are united and the must-facts (branch facts `pc`,
`must`) are intersected.  Repository helpers are inlined at the call (bounded depth), so extracting or inlining a
helper, renaming a local, reordering independent statements or changing a loop form does not change the result."""
import sys
sys.setrecursionlimit(20000)
from functools import lru_cache

TOP = ('top',)
NULL = ('null',)
THIS = ('this',)
E = frozenset
MAXSET = 40
MAXDEPTH = 14


@lru_cache(maxsize=400000)
def depth(t):
    if not isinstance(t, (tuple, frozenset)):
        return 0
    m = 0
    for x in t:
        if isinstance(x, (tuple, frozenset)):
            d = depth(x)
            if d > m:
                m = d
    return m + 1


def mk(*t):
    if depth(t) > MAXDEPTH:
        return ('top', t[0])
    return t


def const_int(t):
    if t[0] == 'int':
        return t[1]
    if t[0] == 'enum':
        return t[2]
    if t == NULL:
        return 0
    return None


def subterms(t):
    yield t
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                for y in subterms(x):
                    yield y


def mentions(t, pred):
    for s in subterms(t):
        if pred(s):
            return True
    return False


class State:
    __slots__ = ('env', 'pc', 'must', 'may', 'dead')

    def __init__(self, env=None, pc=E(), must=E(), may=E(), dead=False):
        self.env = env if env is not None else {}
        self.pc = pc
        self.must = must
        self.may = may
        self.dead = dead

    def copy(self):
        return State(dict(self.env), self.pc, self.must, self.may, self.dead)

    def assign(self, o):
        self.env, self.pc, self.must, self.may, self.dead = o.env, o.pc, o.must, o.may, o.dead


def join(a, b):
    if a is None or a.dead:
        return b.copy() if b is not None else None
    if b is None or b.dead:
        return a.copy()
    env = {}
    if len(a.env) < len(b.env):
        a, b = b, a
    be = b.env
    for k, v in a.env.items():
        w = be.get(k)
        if w is None:
            if k[0] == 'L':
                env[k] = v
            else:
                env[k] = v | {k}
        elif w == v:
            env[k] = v
        else:
            u = v | w
            env[k] = u if len(u) <= MAXSET else E([TOP])
    for k, v in be.items():
        if k not in env:
            env[k] = v if k[0] == 'L' else v | {k}
    return State(env, a.pc & b.pc, a.must & b.must, a.may | b.may)


def joinall(l):
    r = None
    for s in l:
        r = join(r, s) if r is not None else (s.copy() if s is not None and not s.dead else None)
    return r


class Frame:
    __slots__ = ('fn', 'ctx', 'this', 'closure', 'rets', 'breaks', 'conts', 'own', 'call', 'rlocs', 'parent')


TRANSPARENT_METHODS = {'c_str', 'GetStdString', 'GetCharPtr', 'operator const char *', 'GetUStringPtr', 'data', 'str', 'get', 'GetStdWString', 'get_ptr'}
EMPTY_METHODS = {'IsEmpty', 'empty'}
SIZE_METHODS = {'size', 'length', 'GetLength'}
STRINGY = ('TXString', 'std::basic_string', 'std::__cxx11::basic_string', 'basic_string')
SMART = ('VCOMPtr', 'std::unique_ptr', 'std::shared_ptr', 'IXMLFileNodePtr', 'CComPtr')
UNSTABLE = {'L', 'call', 'attr', 'hasval', 'haschild', 'nodename', 'kid', 'child', 'out', 'iter', 'enditer', 'step', 'size', 'G', 'tmp', 'undef', 'obj', 'idx', 'abort', 'any', 'all', 'set', 'top'}
PARTS = {'fld', 'elem', 'idx', 'param', 'tmp', 'L', 'out', 'new', 'dyn', 'call'}
MUTATORS = {'push_back', 'emplace_back', 'insert', 'emplace', 'erase', 'clear', 'pop_back', 'resize', 'push_front', 'assign', 'swap', 'reserve'}


def is_ref(t):
    return t.endswith('&') and not t.endswith('&&')


def is_constref(t):
    return t.startswith('const ') and t.endswith('&') and not t.endswith('*&')


def flip(op):
    return {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]


def literal(term, pol):
    """normalise a boolean term + polarity"""
    while True:
        if term[0] == 'un' and term[1] == '!':
            term, pol = term[2], not pol
            continue
        if term[0] == 'bin':
            op, a, b = term[1], term[2], term[3]
            if op == '!=':
                term, pol = ('bin', '==', a, b), not pol
                continue
            if op == '>=':
                term, pol = ('bin', '<', a, b), not pol
                continue
            if op == '>':
                term = ('bin', '<', b, a)
                continue
            if op == '<=':
                term, pol = ('bin', '<', b, a), not pol
                continue
            if op == '==':
                ca, cb = const_int(a), const_int(b)
                if ca is not None and cb is None:
                    a, b = b, a
                    ca, cb = cb, ca
                # x == 0 / null / false on booleans
                if b[0] == 'int' and len(b) > 2 and b[2] == 'b':
                    if b[1]:
                        term = a
                        continue
                    term, pol = a, not pol
                    continue
                if b == NULL:
                    return ('isnull', a), pol
                if b[0] == 'str' and b[1] == '':
                    return ('empty', a), pol
                if a[0] == 'str' and a[1] == '':
                    return ('empty', b), pol
                if cb is None and repr(a) > repr(b):
                    a, b = b, a
                if b == ('int', 0) and a[0] == 'size':
                    return ('empty', a[1]), pol
                return ('bin', '==', a, b), pol
            if op == '<' and b[0] == 'size' and a == ('int', 0):
                return ('empty', b[1]), not pol
            if op == '<' and a[0] == 'size' and b == ('int', 1):
                return ('empty', a[1]), pol
        return term, pol


class Engine:
    def __init__(self, P, hooks=None, inline=None, max_depth=8):
        self.wlog = {}
        self.recur = 1       # how often a function may be inlined into itself
        self.written = set()     # members assigned so far
        self._stable = {}
        self.unstable = UNSTABLE
        self.structs = False    # follow copies of objects into their parts
        self.loops = []      # enclosing loops: (range terms or None, statement, frame depth, branch facts at entry)
        self.P = P
        self.hooks = hooks
        self.inline_policy = inline or (lambda eng, key, call: False)
        self.max_depth = max_depth
        self.stack = []
        self.ctxn = 0
        self._own = {}
        self._mi = None
        self.warn = []
        for h in ('on_call', 'on_write', 'on_deref', 'on_index', 'on_scope_exit', 'on_decl', 'on_return', 'on_new', 'on_delete', 'on_ctor', 'on_cond', 'on_cast', 'on_inlined', 'on_read', 'on_jump'):
            setattr(self, h, getattr(hooks, h, None))

    # ---------------------------------------------------------------- frames
    def own_decls(self, fn):
        k = id(fn)
        if k in self._own:
            return self._own[k]
        s = set(p['d'] for p in fn.get('p', []))

        def walk(x):
            if isinstance(x, dict):
                k = x.get('k')
                if k == 'decl':
                    for v in x['v']:
                        s.add(v['d'])
                if 'cvd' in x:
                    s.add(x['cvd']['d'])
                if k in ('rfor', 'catch') and isinstance(x.get('v'), dict):
                    s.add(x['v']['d'])
                for kk, y in x.items():
                    if isinstance(y, (dict, list)):
                        walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(fn.get('body'))
        walk(fn.get('inits'))
        self._own[k] = s
        return s

    def lkey(self, d):
        f = self.stack[-1]
        ctx = f.ctx
        g = f
        while d not in g.own:
            if g.closure is None:
                break
            ctx, g = g.closure.ctx, g.closure
        return ('L', d, ctx)

    def where(self, node=None):
        f = self.stack[-1].fn
        return '%s:%s' % (f['file'].replace('/repo/', ''), node.get('l') if node else f['l'])

    def run(self, key, this=THIS, args=None, state=None, this_cls=None):
        """analyse a function as an entry point; returns (exit_state or None, ret terms)"""
        fn = self.P.funcs[key]
        st = state or State()
        self.stack = []
        self.this_cls = this_cls or fn.get('cls')
        argl = []
        for i, p in enumerate(fn['p']):
            if args and i < len(args) and args[i] is not None:
                a = args[i]
            else:
                a = ('param', i, p['n'])
            argl.append(a)
        rets = self.enter(fn, st, E([this]) if this else E(), [E([a]) for a in argl], [E([a]) for a in argl], None, None)
        return rets

    def enter(self, fn, st, this, argv, argl, closure, call):
        fr = Frame()
        fr.fn = fn
        fr.parent = self.stack[-1] if self.stack else None
        self.ctxn += 1
        fr.ctx = (fn['key'] if len(self.stack) == 0 else '') + '#%d' % (len(self.stack)) + ('' if call is None else '@%s' % call.get('l'))
        if fr.parent:
            fr.ctx = fr.parent.ctx[-60:] + fr.ctx
        fr.this = this
        fr.closure = closure
        fr.rets = []
        fr.rlocs = set()
        fr.breaks = []
        fr.conts = []
        fr.own = self.own_decls(fn)
        fr.call = call
        pc0 = st.pc
        self.stack.append(fr)
        for i, p in enumerate(fn['p']):
            k = ('L', p['d'], fr.ctx)
            if i < len(argv):
                if p['t'].endswith('&'):
                    locs = argl[i] if argl[i] else argv[i]
                    st.env[k] = E(('ref', x) for x in locs)
                else:
                    st.env[k] = argv[i]
            else:
                st.env[k] = E([('param', i, p['n'])])
        for ini in fn.get('inits', []):
            if 'f' in ini:
                for t in this:
                    loc = ('fld', t, ini['f'])
                    v = self.eval(ini['e'], st) if ini.get('e') else E([('undef', ini['f'])])
                    self.write(loc, v, st, ini.get('e') or {}, init=True)
            elif ini.get('e'):
                self.ctor_base(ini, st, this)
        out = self.block(fn['body'], st)
        if out is not None and not out.dead:
            fr.rets.append((out, E()))
            if self.on_return:
                self.on_return(self, out, E(), {'l': fn['el'], 'k': 'ret', 'implicit': True})
        self.stack.pop()
        ex = joinall([s for s, v in fr.rets])
        val = E().union(*[v for s, v in fr.rets]) if fr.rets else E()
        if fn.get('ret') == 'bool' and fr.parent is not None:
            c = self.predicate(fr, pc0)
            if c is not None:
                val = E([c])
        return ex, val, E(fr.rlocs), fr

    def predicate(self, fr, pc0):
        """the condition under which an inlined function that only returns constants returns true"""
        yes, no = [], []
        for s, v in fr.rets:
            c = [const_int(t) for t in v]
            if len(c) != 1 or not isinstance(c[0], int):
                return None
            (yes if c[0] else no).append(s)
        for lst, pol in ((yes, True), (no, False)):
            if len(lst) != 1 or not yes or not no:
                continue
            facts = sorted(lst[0].pc - pc0, key=str)
            if not facts:
                continue
            if len(facts) == 1:
                t, p = facts[0]
                return t if p == pol else ('un', '!', t)
            t = ('all',) + tuple(facts)
            return t if pol else ('un', '!', t)
        return None

    def ctor_base(self, ini, st, this):
        e = ini['e']
        if e and e.get('k') == 'ctor':
            self.eval_ctor(e, st, this)

    # ---------------------------------------------------------------- memory
    def read(self, loc, st):
        v = st.env.get(loc)
        if v is not None:
            if any(x[0] == 'ref' for x in v):
                r = set()
                for x in v:
                    if x[0] == 'ref':
                        r |= self.read(x[1], st)
                    else:
                        r.add(x)
                return E(r)
            return v
        if loc[0] == 'L':
            return E([('undef', loc[1], loc[2])])
        if self.structs and loc[0] in ('fld', 'elem', 'idx'):
            # a part of an object that is a copy of another one
            b = self.read(loc[1], st) if loc[1][0] in ('L', 'fld', 'elem', 'idx') else None
            if b and loc[1] not in b and all(x[0] in PARTS for x in b):
                r = set()
                for x in b:
                    r |= self.read((loc[0], x) + loc[2:], st)
                return E(r)
        return E([loc])

    def resolve(self, loc, st, n=0):
        """follow reference bindings"""
        v = st.env.get(loc)
        if v is not None and n < 12 and any(x[0] == 'ref' for x in v):
            r = set()
            for x in v:
                if x[0] == 'ref':
                    r |= self.resolve(x[1], st, n + 1)
            return E(r)
        return E([loc])

    def write(self, loc, vals, st, node, init=False, weak=False):
        if len(vals) > MAXSET:
            vals = E([TOP])
        if weak or loc[0] in ('elem',):
            old = self.read(loc, st) if loc in st.env or weak else E([loc])
            nv = old | vals
            st.env[loc] = nv if len(nv) <= MAXSET else E([TOP])
        else:
            st.env[loc] = vals
            # assigning a whole object invalidates what was known about its parts
            if not init:
                dead = [k for k in st.env if k[0] in ('fld', 'elem') and k[1] == loc]
                for k in dead:
                    del st.env[k]
        self.logw(loc, vals, st)
        if loc[0] == 'fld' and not init:
            self.written.add(loc[2])
        if self.on_write:
            self.on_write(self, st, loc, vals, node, init)

    def logw(self, loc, vals, st):
        # under which branch facts a local variable received each constant: lets a later test of the variable recover them
        if loc[0] == 'L':
            d = self.wlog.setdefault(loc, {})
            for v in vals:
                d[v] = d[v] & st.pc if v in d else st.pc

    def strip(self, t):
        if t[0] == 'addr':
            return t[1]
        return t

    def copied(self, locs, st):
        """a local container that is an unchanged copy of other containers has their elements"""
        r = set()
        for l in locs:
            v = set()
            for t in (st.env.get(l) if l[0] == 'L' else None) or ():
                while t[0] == 'mut':
                    t = t[2]
                v.add(t)
            if v and all(t[0] in ('fld', 'elem', 'param', 'G') for t in v):
                r |= v
            else:
                r.add(l)
        return E(r)

    # ---------------------------------------------------------------- lvalues
    def lv(self, e, st):
        k = e['k']
        if k == 'var':
            if e.get('g'):
                return E([('G', e['q'])])
            return self.resolve(self.lkey(e['d']), st)
        if k == 'mem':
            bases = self.base(e, st)
            return E(mk('fld', b, e['f']) for b in bases)
        if k == 'un' and e['op'] == '*':
            ts = self.eval(e['e'], st)
            if self.on_deref:
                self.on_deref(self, st, ts, e)
            return E(self.deref(t) for t in ts)
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.eval(e, st)
            return self.lv(e['e'], st)
        if k == 'idx':
            bt = e.get('bt', '')
            if bt.endswith(']'):
                bs = self.lv(e['b'], st)
            else:
                bs = E(self.strip(t) for t in self.eval(e['b'], st))
            ix = self.eval(e['i'], st)
            if self.on_index:
                self.on_index(self, st, bs, ix, e)
            return E(mk('elem', b, i) for b in bs for i in ix)
        if k == 'cast':
            return self.lv(e['e'], st)
        if k == 'call':
            vals, locs = self.call(e, st, want_loc=True)
            if locs:
                return locs
            return vals
        if k == 'bin' and e.get('as'):
            self.eval(e, st)
            return self.lv(e['a'], st)
        if k == 'cond':
            r = [set()]
            def f(x, s): return self.lv(x, s)
            t, fl = self.cond(e['c'], st.copy())
            out = set()
            if t is not None:
                out |= f(e['a'], t)
            if fl is not None:
                out |= f(e['b'], fl)
            j = join(t, fl)
            if j is not None:
                st.assign(j)
            return E(out)
        if k == 'this':
            return self.stack[-1].this
        # temporaries: their value acts as location
        return self.eval(e, st)

    def deref(self, t):
        if t[0] == 'addr':
            return t[1]
        if t[0] == 'iter':
            return mk('elem', t[1])
        return t

    def this_terms(self):
        f = self.stack[-1]
        while not f.this and f.closure is not None:
            f = f.closure
        return f.this

    def base(self, e, st):
        b = e['b']
        if b is None:
            return E([TOP])
        if b['k'] == 'this':
            return self.this_terms()
        if e.get('ar'):
            ts = self.eval(b, st)
            if self.on_deref:
                self.on_deref(self, st, ts, e)
            return E(self.deref(t) for t in ts)
        return self.lv(b, st)

    # ---------------------------------------------------------------- evaluation
    def eval(self, e, st):
        if e is None:
            return E()
        k = e['k']
        if k == 'int':
            if e.get('b'):
                return E([('int', e['v'], 'b')])
            return E([('int', e['v'])])
        if k == 'str':
            return E([('str', e['v'])])
        if k == 'float':
            return E([('float', e['v'])])
        if k == 'enum':
            return E([('enum', e['q'], e['v'])])
        if k == 'null':
            return E([NULL])
        if k == 'this':
            return self.this_terms()
        if k == 'var':
            if e.get('g'):
                if 'cv' in e:
                    return E([('int', e['cv'])])
                return self.global_value(e, st)
            return self.read(self.lkey(e['d']), st)
        if k in ('mem', 'idx'):
            locs = self.lv(e, st)
            r = set()
            for l in locs:
                r |= self.read(l, st)
            if self.on_read:
                self.on_read(self, st, locs, e)
            return E(r)
        if k == 'call':
            return self.call(e, st)[0]
        if k == 'ctor':
            return self.eval_ctor(e, st, None)
        if k == 'cast':
            if e.get('st') in ('dynamic', 'static', 'c', 'reinterpret') and self.on_cast:
                v = self.eval(e['e'], st)
                r = self.on_cast(self, st, e, v)
                if r is not None:
                    return r
            else:
                v = self.eval(e['e'], st)
            if e.get('st') == 'dynamic':
                return E(mk('dyn', e['t'], x) if x != NULL else x for x in v)
            return v
        if k == 'un':
            return self.unary(e, st)
        if k == 'bin':
            return self.binary(e, st)
        if k == 'cond':
            t, f = self.cond(e['c'], st.copy())
            out = set()
            A = B = E()
            if t is not None:
                A = self.eval(e['a'], t)
            if f is not None:
                B = self.eval(e['b'], f)
            out = A | B
            if t is not None and f is not None and len(A) == 1 and len(B) == 1 and A != B:
                a, b = self.one(A), self.one(B)
                if a[0] == 'str' or b[0] == 'str':
                    dl = [l for l in t.pc if (l[0], not l[1]) in f.pc]
                    if len(dl) == 1:
                        # a conditional text keeps its condition, so that it stays comparable with an if/else
                        out = {mk('sel', dl[0][0], a, b) if dl[0][1] else mk('sel', dl[0][0], b, a)}
            j = join(t, f)
            if j is not None:
                st.assign(j)
            return E(out)
        if k == 'new':
            site = ('new', e['t'], e.get('l'))
            if e.get('arr'):
                self.eval(e.get('sz'), st) if e.get('sz') else None
            if e.get('e'):
                if e['e']['k'] == 'ctor':
                    self.eval_ctor(e['e'], st, E([site]), isnew=True)
                else:
                    self.eval(e['e'], st)
            if self.on_new:
                self.on_new(self, st, e, site)
            return E([site])
        if k == 'del':
            v = self.eval(e['e'], st)
            if self.on_delete:
                self.on_delete(self, st, e, v, self.lv(e['e'], st) if e['e']['k'] in ('var', 'mem', 'idx') else E())
            return E()
        if k == 'list':
            vs = [self.eval(a, st) for a in e['a']]
            return E([mk('list', *[self.one(v) for v in vs[:16]])])
        if k == 'lambda':
            for c in e['caps']:
                if c.get('e') and not c.get('ref') and c['e']['k'] != 'var':
                    self.eval(c['e'], st)
            f = self.stack[-1]
            self._frames = getattr(self, '_frames', {})
            self._frames[(e['fn'], f.ctx)] = f
            return E([('lambda', e['fn'], f.ctx)])
        if k == 'throw':
            self.eval(e.get('e'), st)
            st.dead = True
            return E()
        if k in ('fref',):
            return E([('fref', e['fn'])])
        if k == 'mfref':
            return E([('mfref', e['fn'])])
        if k == 'stmtexpr':
            o = self.block(e['s'], st)
            if o is not None:
                st.assign(o)
            return E([TOP])
        if k in ('other', 'otherstmt'):
            for a in e.get('a', []):
                self.eval(a, st)
            if 'cv' in e:
                return E([('int', e['cv'])])
            return E([('other', e.get('cn'), e.get('l'))])
        return E([TOP])

    def one(self, s):
        if len(s) == 1:
            return next(iter(s))
        if not s:
            return ('void',)
        return ('set', s)

    def global_value(self, e, st):
        loc = ('G', e['q'])
        if loc in st.env:
            return self.read(loc, st)
        g = self.P.globals.get(e['q'])
        if g and g['t'].startswith('const ') and g.get('init'):
            i = g['init']
            while i and i['k'] in ('ctor', 'cast') and (i.get('a') or i.get('e')):
                i = i['a'][0] if i['k'] == 'ctor' else i['e']
            if i and i['k'] in ('str', 'int', 'float', 'enum'):
                return self.eval(i, st)
        return E([loc])

    def unary(self, e, st):
        op = e['op']
        if op == '&':
            if e['e']['k'] in ('fref', 'mfref'):
                return self.eval(e['e'], st)
            return E(('addr', l) if l[0] != 'top' else TOP for l in self.lv(e['e'], st))
        if op == '*':
            locs = self.lv(e, st)
            r = set()
            for l in locs:
                r |= self.read(l, st)
            return E(r)
        if op in ('++', '--'):
            locs = self.lv(e['e'], st)
            res = set()
            for l in locs:
                old = self.read(l, st)
                new = E(self.incr(t, op) for t in old)
                self.write(l, new, st, e)
                res |= (old if e.get('post') else new)
            return E(res)
        v = self.eval(e['e'], st)
        r = set()
        for t in v:
            c = const_int(t)
            if c is not None and isinstance(c, int) and op in ('!', '-', '~', '+'):
                r.add(('int', {'!': int(not c), '-': -c, '~': ~c, '+': c}[op]) if op != '!' else ('int', int(not c), 'b'))
            elif op == '+':
                r.add(t)
            else:
                r.add(mk('un', op, t))
        return E(r)

    def incr(self, t, op):
        if t[0] == 'iter':
            return t
        # a stepped value is summarised so loops reach a fixpoint
        if t[0] == 'step':
            return t
        return mk('step', op[0], t)

    def binary(self, e, st):
        op = e['op']
        if e.get('as'):
            locs = None
            if op == '=':
                v = self.eval(e['b'], st)
                locs = self.lv(e['a'], st)
                weak = len(locs) > 1
                for l in locs:
                    self.write(l, v, st, e, weak=weak)
                return v
            v = self.eval(e['b'], st)
            locs = self.lv(e['a'], st)
            out = set()
            for l in locs:
                nv = self.combine(op[:-1], self.read(l, st), v)
                self.write(l, nv, st, e, weak=len(locs) > 1)
                out |= nv
            return E(out)
        if op == ',':
            self.eval(e['a'], st)
            return self.eval(e['b'], st)
        if op in ('&&', '||'):
            t, f = self.cond(e, st.copy())
            j = join(t, f)
            if j is not None:
                st.assign(j)
            if t is None:
                return E([('int', 0, 'b')])
            if f is None:
                return E([('int', 1, 'b')])
            return E([self.boolterm(e, st)])
        a = self.eval(e['a'], st)
        b = self.eval(e['b'], st)
        return self.combine(op, a, b)

    def boolterm(self, e, st):
        """term for a boolean expression without side effects on the state"""
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            return mk('bin', e['op'], self.boolterm(e['a'], st), self.boolterm(e['b'], st))
        if k == 'un' and e['op'] == '!':
            return mk('un', '!', self.boolterm(e['e'], st))
        s = st.copy()
        h = self.quiet(lambda: self.eval(e, s))
        return self.one(h)

    def quiet(self, f):
        names = ('on_call', 'on_write', 'on_deref', 'on_index', 'on_scope_exit', 'on_decl', 'on_return', 'on_new', 'on_delete', 'on_ctor', 'on_cond', 'on_cast', 'on_inlined', 'on_read')
        saved = {n: getattr(self, n) for n in names}
        if not getattr(self.hooks, 'pure_call', None):
            for n in names:
                if n != 'on_call':
                    setattr(self, n, None)
        try:
            return f()
        finally:
            for n, v in saved.items():
                setattr(self, n, v)

    def combine(self, op, A, B):
        r = set()
        for a in A:
            for b in B:
                r.add(self.fold(op, a, b))
                if len(r) > MAXSET:
                    return E([TOP])
        return E(r)

    def fold(self, op, a, b):
        ca, cb = const_int(a), const_int(b)
        if isinstance(ca, int) and isinstance(cb, int):
            try:
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    return ('int', int({'==': ca == cb, '!=': ca != cb, '<': ca < cb, '>': ca > cb, '<=': ca <= cb, '>=': ca >= cb}[op]), 'b')
                if op in ('+', '-', '*', '&', '|', '^', '<<', '>>'):
                    v = {'+': lambda: ca + cb, '-': lambda: ca - cb, '*': lambda: ca * cb, '&': lambda: ca & cb, '|': lambda: ca | cb, '^': lambda: ca ^ cb, '<<': lambda: ca << cb, '>>': lambda: ca >> cb}[op]()
                    return ('int', v)
                if op == '/' and cb:
                    return ('int', int(ca / cb))
                if op == '%' and cb:
                    return ('int', ca - cb * int(ca / cb))
            except Exception:
                pass
        if a[0] == 'str' and b[0] == 'str':
            if op == '+':
                return ('str', a[1] + b[1])
            if op in ('==', '!='):
                return ('int', int((a[1] == b[1]) == (op == '==')), 'b')
        # object addresses and fresh allocations are never null
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if y == NULL and (x[0] in ('addr', 'new') or x == THIS):
                    return ('int', int(op == '!='), 'b')
        if a[0] == 'step' and op in ('+', '-') and isinstance(cb, int):
            return a
        return mk('bin', op, a, b)

    # ---------------------------------------------------------------- conditions
    def cond(self, e, st):
        """returns (state if true | None, state if false | None); consumes st"""
        k = e['k']
        if k == 'bin' and e['op'] == '&&':
            pc0 = st.pc
            t, f = self.cond(e['a'], st)
            if t is None:
                return None, f
            t2, f2 = self.cond(e['b'], t)
            return t2, self.notall(join(f, f2), f, f2, t2, pc0)
        if k == 'bin' and e['op'] == '||':
            pc0 = st.pc
            t, f = self.cond(e['a'], st)
            if f is None:
                return t, None
            t2, f2 = self.cond(e['b'], f)
            return self.notall(join(t, t2), t, t2, f2, pc0), f2
        if k == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'], st)
            return f, t
        if k == 'bin' and e['op'] == ',':
            self.eval(e['a'], st)
            return self.cond(e['b'], st)
        v = self.eval(e, st)
        if st.dead:
            return None, None
        return self.split(v, st, e)

    def notall(self, st, s1, s2, other, pc0):
        """the joined side of a short-circuit operator: not all the facts of the other side hold"""
        if st is None or s1 is None or s2 is None or s1.dead or s2.dead:
            return st
        if other is None:
            return st
        facts = other.pc - pc0
        if len(facts) < 2 or any((t, not p) in st.pc for t, p in facts):
            return st
        st.pc = st.pc | {(('all',) + tuple(sorted(facts, key=str)), False)}
        return st

    def split(self, v, st, e):
        if self.on_cond:
            self.on_cond(self, st, v, e)
        tv = set()
        fv = set()
        for t in v:
            c = const_int(t)
            if isinstance(c, int):
                (tv if c else fv).add(t)
            else:
                tv.add(t)
                fv.add(t)
        T = F = None
        if tv or not v:
            T = st.copy()
            if len(v) == 1:
                self.assume(T, next(iter(v)), True)
            else:
                self.assume_set(T, v, True)
        if fv or not v:
            F = st if T is None else st.copy()
            if len(v) == 1:
                self.assume(F, next(iter(v)), False)
            else:
                self.assume_set(F, v, False)
        # refine the variable that was tested
        if e is not None:
            if T is not None:
                self.refine(T, e, True)
            if F is not None:
                self.refine(F, e, False)
        if T is not None and self.contradict(T):
            T = None
        if F is not None and self.contradict(F):
            F = None
        return T, F

    def contradict(self, st):
        return st.dead

    def stable(self, t):
        """the term has one value wherever it occurs: only members nobody assigned here, of objects that are not walked twice at once"""
        r = self._stable.get(t)
        if r is None:
            r = [set(), set()]
            self._stable[t] = r
            stack = [t]
            while stack:
                x = stack.pop()
                if not isinstance(x, tuple) or not x:
                    continue
                if x[0] in self.unstable:
                    r[0] = None
                    break
                if x[0] == 'fld':
                    r[0].add(x[2])
                elif x[0] == 'elem':
                    r[1].add(x[1])
                stack.extend(x[1:])
        if r[0] is None or not r[0] or r[0] & self.written:
            return False
        return all(sum(1 for l in self.loops if l[0] and c in l[0]) < 2 for c in r[1])

    def assume_set(self, st, v, pol):
        # keep a fact about every possibility (used for null facts)
        if all(const_int(t) is not None or t[0] in ('new', 'addr') for t in v):
            return      # which constant it is says only how the variable got it: see filt
        s = self.one(v)
        if s[0] == 'set':
            st.pc = st.pc | {(('any', s[1]), pol)}

    def assume(self, st, t, pol):
        t, pol = literal(t, pol)
        if t[0] == 'bin' and t[1] == '&&' and pol:
            self.assume(st, t[2], True)
            self.assume(st, t[3], True)
            return
        if t[0] == 'bin' and t[1] == '||' and not pol:
            self.assume(st, t[2], False)
            self.assume(st, t[3], False)
            return
        if t[0] == 'all' and pol:
            for x, p in t[1:]:
                self.assume(st, x, p)
            return
        if t[0] in ('int', 'enum', 'null'):
            return
        if (t, not pol) in st.pc and self.stable(t):
            st.dead = True
            return
        if (t, not pol) in st.pc:
            # stale opposite fact about the same value: path is infeasible, keep the newer
            st.pc = st.pc - {(t, not pol)}
        st.pc = st.pc | {(t, pol)}

    def refine(self, st, e, pol):
        # narrow value sets on null tests of plain locations
        while e['k'] in ('cast',) and e.get('im'):
            e = e['e']
        tgt = None
        isnull_when = None
        if e['k'] in ('var', 'mem'):
            tgt, isnull_when = e, False
        elif e['k'] == 'bin' and e['op'] in ('==', '!='):
            for a, b in ((e['a'], e['b']), (e['b'], e['a'])):
                if b['k'] == 'null' and a['k'] in ('var', 'mem'):
                    tgt, isnull_when = a, (e['op'] == '==')
        if tgt is None:
            # equality with a constant: drop impossible constants
            if e['k'] == 'bin' and e['op'] in ('==', '!='):
                for a, b in ((e['a'], e['b']), (e['b'], e['a'])):
                    if a['k'] in ('var', 'mem') and b['k'] in ('int', 'enum'):
                        eq = (e['op'] == '==') == pol
                        self.filt(st, a, lambda t: (const_int(t) is None) or ((const_int(t) == b['v']) == eq))
            return
        isnull = (pol == isnull_when)
        if not (tgt.get('t', '').endswith('*') or tgt.get('t') == 'bool'):
            return
        if isnull:
            self.filt(st, tgt, lambda t: t[0] not in ('addr', 'new') and const_int(t) in (None, 0))
        else:
            self.filt(st, tgt, lambda t: const_int(t) != 0)

    def filt(self, st, e, pred):
        locs = self.quiet(lambda: self.lv(e, st))
        if len(locs) != 1:
            return
        l = next(iter(locs))
        if l in st.env:
            old = st.env[l]
            v = E(t for t in old if t[0] == 'ref' or pred(t))
            if v:
                st.env[l] = v
            if v and v != old:
                d = self.wlog.get(l, {})
                if all(t in d for t in v):
                    common = None
                    for t in v:
                        common = d[t] if common is None else common & d[t]
                    for t, p in common:
                        if (t, not p) not in st.pc:
                            st.pc = st.pc | {(t, p)}

    # ---------------------------------------------------------------- calls
    def eval_ctor(self, e, st, this, isnew=False):
        c = e['c']
        args = e['a']
        if this is None and e.get('cp') and args:
            return self.eval(args[0], st)
        argv = [self.eval(a, st) for a in args]
        base = c.split('<')[0]
        short = base.split('::')[-1]
        if self.on_ctor:
            r = self.on_ctor(self, st, e, argv, this)
            if r is not None:
                return r
        key = e['fn']
        if e.get('virt') and not e.get('nv'):
            key = self.dispatch(key, obj)
        fn = self.P.funcs.get(key)
        if fn is not None and len(self.stack) < self.max_depth and sum(f.fn['key'] == key for f in self.stack) < self.recur and self.inline_policy(self, key, e):
            t = this or E([('tmp', c, e.get('l'))])
            argl = [self.lvq(a, st) for a in args]
            ex, val, _, fr = self.enter(fn, st, t, argv, argl, None, e)
            if ex is not None:
                st.assign(ex)
            return t
        if this is not None:
            for t in this:
                for i, a in enumerate(argv):
                    pass
            return this
        # value-like conversion constructors are transparent
        real = [a for a, x in zip(argv, args) if not x.get('da')]
        if len(real) == 1:
            pt = e.get('pt') or ['']
            if short in ('TXString', 'basic_string', 'VCOMPtr', 'unique_ptr', 'shared_ptr', 'IXMLFileNodePtr', 'path', 'initializer_list', 'vector', 'function', 'basic_string_view', 'Optional', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '__normal_iterator', 'optional', 'TVCOMObj_AddRefRelease'):
                if short != 'vector' or args[0]['k'] == 'list':
                    return real[0]
        if not real:
            if short in ('TXString', 'basic_string'):
                return E([('str', '')])
            if short in ('VCOMPtr', 'unique_ptr', 'shared_ptr'):
                return E([NULL])
        return E([mk('ctor', base, *[self.one(a) for a in real])])

    def lvq(self, a, st):
        """locations of an argument expression that was already evaluated (no second round of events)"""
        if a['k'] in ('var', 'mem', 'idx', 'this') or (a['k'] == 'un' and a['op'] == '*') or (a['k'] == 'cast') or (a['k'] == 'call' and a.get('t')):
            k = a['k']
            if k == 'call':
                saved = self.on_call
                self.on_call = self.on_call if getattr(self.hooks, 'pure_call', None) else None
                try:
                    s = st.copy()
                    return self.quiet(lambda: self.lv(a, s)) if a.get('op') in ('[]', '*', '->') or a.get('n') in ('at', 'front', 'back') else E()
                finally:
                    self.on_call = saved
            s = st.copy()
            return self.quiet(lambda: self.lv(a, s))
        return E()

    def call(self, e, st, want_loc=False):
        n = e.get('n', '')
        op = e.get('op')
        o = e.get('o')
        args = e.get('a', [])
        pts = e.get('pt', [])
        cls = e.get('cls', '')
        # --- object
        obj = E()
        objv = None
        if o is not None:
            if o['k'] == 'this':
                obj = self.this_terms()
            elif e.get('ar'):
                ts = self.eval(o, st)
                if self.on_deref:
                    self.on_deref(self, st, ts, e)
                obj = E(self.deref(t) for t in ts)
            else:
                obj = self.lv(o, st)
        # --- arguments
        argv = []
        argl = []
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else ''
            if is_ref(pt) and not is_constref(pt):
                l = self.lv(a, st)
                argl.append(l)
                v = set()
                for x in l:
                    v |= self.read(x, st)
                argv.append(E(v))
            else:
                v = self.eval(a, st)
                argv.append(v)
                if pt.endswith('&') or pt.endswith('&&'):
                    argl.append(self.lvq(a, st) or v)
                else:
                    argl.append(E())
        return self.invoke(e, st, obj, argv, argl)

    def invoke(self, e, st, obj, argv, argl):
        n = e.get('n', '')
        op = e.get('op')
        cls = e.get('cls', '')
        pts = e.get('pt', [])
        args = e.get('a', [])
        if self.on_call:
            r = self.on_call(self, st, e, obj, argv, argl)
            if r is not None:
                if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], frozenset):
                    return r
                return r, E()
        if e.get('nr'):
            st.dead = True
            return E(), E()
        # --- call through a callable value
        key = e.get('fn')
        if op == '()' or n == '<ptr>' or key in ('<op>', '<ptr>'):
            targets = obj if o_is(e) else (self.eval(e['ce'], st) if e.get('ce') else E())
            tt = set()
            for t in targets:
                tt |= self.read(t, st) if t[0] in ('L', 'fld', 'G') else {t}
            r = set()
            done = False
            for t in tt:
                if t[0] == 'lambda' and t[1] in self.P.funcs and len(self.stack) < self.max_depth and not any(f.fn['key'] == t[1] for f in self.stack):
                    fr0 = self._frames.get((t[1], t[2]))
                    ex, val, rl, fr = self.enter(self.P.funcs[t[1]], st.copy() if len(tt) > 1 else st, E(), argv, argl, fr0, e)
                    if ex is not None:
                        st.assign(join(st, ex) if len(tt) > 1 else ex)
                    r |= val
                    done = True
            if done:
                return E(r), E()
            if key in self.P.funcs and self.P.funcs[key]['n'] == 'operator()':
                fr0 = next((f for f in reversed(self.stack) if f.fn['key'] == self.P.funcs[key].get('encl')), None)
                if len(self.stack) < self.max_depth and not any(f.fn['key'] == key for f in self.stack):
                    ex, val, rl, fr = self.enter(self.P.funcs[key], st, E(), argv, argl, fr0, e)
                    if ex is not None:
                        st.assign(ex)
                    return val, E()
        # --- inlining
        if e.get('virt') and not e.get('nv'):
            key = self.dispatch(key, obj)
        fn = self.P.funcs.get(key)
        if fn is not None and len(self.stack) < self.max_depth and sum(f.fn['key'] == key for f in self.stack) < self.recur and self.inline_policy(self, key, e):
            ex, val, rl, fr = self.enter(fn, st, obj, argv, argl, None, e)
            if self.on_inlined:
                self.on_inlined(self, st, ex, e, key)
            if ex is not None:
                st.assign(ex)
            else:
                st.dead = True
            return val, rl
        return self.builtin(e, st, obj, argv, argl)

    def dispatch(self, key, obj):
        """target of a virtual call: exact when the dynamic class is known or nothing overrides it, else None"""
        P = self.P
        if not P.overriders.get(key):
            return key
        classes = set()
        for o in obj or ():
            if o[0] == 'new':
                classes.add(o[1])
            elif o[0] == 'addr' and o[1][0] == 'new':
                classes.add(o[1][1])
            elif o == THIS and self.this_cls:
                classes.add(self.this_cls)
            elif o[0] == 'dyn':
                classes.add(o[1])
            else:
                return None
        targets = set()
        for c in classes:
            targets.add(self.lookup_override(key, c))
        if len(targets) == 1:
            return targets.pop()
        return None

    def lookup_override(self, key, cls):
        P = self.P
        if self._mi is None:
            self._mi = {}
            for k, f in P.funcs.items():
                if f.get('cls'):
                    self._mi.setdefault((f['cls'], f['n'], tuple(p['t'] for p in f['p'])), k)
        f = P.funcs.get(key) or P.vdecls.get(key)
        if f is None:
            return key
        sig = (f['n'], tuple(p['t'] for p in f.get('p', [])))
        todo = [cls]
        while todo:
            c = todo.pop(0)
            k = self._mi.get((c,) + sig)
            if k:
                return k
            todo += P.classes.get(c, {}).get('bases', [])
        return key

    def vals(self, locs, st):
        r = set()
        for l in locs:
            r |= self.read(l, st)
        return E(r)

    def builtin(self, e, st, obj, argv, argl):
        n = e.get('n', '')
        op = e.get('op')
        cls = e.get('cls', '')
        pts = e.get('pt', [])
        args = e.get('a', [])
        q = e.get('q', '')
        has_o = e.get('o') is not None
        if op:
            if op == '=' and has_o and argv:
                for l in obj:
                    self.write(l, argv[0], st, e, weak=len(obj) > 1)
                return argv[0], obj
            if op == '[]' and has_o:
                cont = obj
                if self.on_index:
                    self.on_index(self, st, E().union(*[self.read(l, st) for l in cont]) if cont else E(), argv[0], e)
                locs = E(mk('elem', b, i) for b in self.copied(cont, st) for i in argv[0])
                return self.vals(locs, st), locs
            if op in ('->', '*') and (has_o and not argv or not has_o and len(argv) == 1):
                v = self.vals(obj, st) if has_o else argv[0]
                if self.on_deref and op == '->' or self.on_deref and op == '*':
                    if not all(t[0] == 'iter' for t in v):
                        self.on_deref(self, st, v, e)
                locs = E(self.deref(t) for t in v)
                if op == '->':
                    return E(('addr', l) if l[0] == 'elem' else l for l in locs), locs
                return self.vals(locs, st), locs
            if op in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/', '%', '&', '|', '<<', '>>'):
                if has_o and len(argv) == 1:
                    a = self.vals(obj, st)
                    return self.combine(op, a, argv[0]), E()
                if len(argv) == 2:
                    r = self.combine(op, argv[0], argv[1])
                    if op == '<<' or op == '>>':
                        l = argl[0]
                        for x in l:
                            self.write(x, r, st, e)
                        if op == '>>':
                            for x in argl[1]:
                                self.write(x, E([mk('parsed', self.one(argv[0]))]), st, e)
                        return r, l
                    return r, E()
            if op == '!' and (has_o or argv):
                v = self.vals(obj, st) if has_o else argv[0]
                return E(mk('un', '!', t) for t in v), E()
            if op in ('++', '--') and has_o:
                r = set()
                for l in obj:
                    nv = E(self.incr(t, op) for t in self.read(l, st))
                    self.write(l, nv, st, e)
                    r |= nv
                return E(r), obj
            if op in ('+=', '-=', '*=', '/=', '|=', '&=') and has_o and argv:
                r = set()
                for l in obj:
                    nv = self.combine(op[:-1], self.read(l, st), argv[0])
                    self.write(l, nv, st, e)
                    r |= nv
                return E(r), obj
            if op == '<<' and has_o and argv:
                r = set()
                for l in obj:
                    nv = self.combine(op, self.read(l, st), argv[0])
                    self.write(l, nv, st, e)
                    r |= nv
                return E(r), obj
        if has_o:
            ov = self.vals(obj, st)
            cbase = cls.split('<')[0].split('::')[-1]
            if n in TRANSPARENT_METHODS and not argv:
                return ov, obj
            if n.startswith('operator ') and not argv:   # user conversion
                return ov, obj
            if n in EMPTY_METHODS and not argv:
                return E(('int', int(t[1] == ''), 'b') if t[0] == 'str' else mk('empty', t) for t in ov), E()
            if n in SIZE_METHODS and not argv:
                return E(('int', len(t[1])) if t[0] == 'str' else mk('size', t) for t in ov), E()
            if n in ('begin', 'cbegin', 'rbegin', 'find', 'end', 'cend', 'rend', 'lower_bound') and ('vector' in cls or 'map' in cls or 'set' in cls or 'list' in cls or 'deque' in cls or 'array' in cls) and 'string' not in cbase:
                if n in ('end', 'cend', 'rend'):
                    return E(mk('enditer', t) for t in obj), E()
                return E(mk('iter', t) + (() if n != 'find' else (self.one(argv[0]),)) for t in obj), E()
            if n in ('at', 'front', 'back') and ('vector' in cls or 'map' in cls or 'deque' in cls or 'array' in cls):
                idx = argv[0] if argv else E([('int', 0)] if n == 'front' else [('last',)])
                if self.on_index:
                    self.on_index(self, st, ov, idx, e)
                locs = E(mk('elem', b, i) for b in self.copied(obj, st) for i in idx)
                return self.vals(locs, st), locs
            if n == 'clear' or n == 'Clear':
                for l in obj:
                    self.write(l, E([('str', '')]) if ('string' in cbase.lower()) else E([('cleared', l)]), st, e)
                return E(), E()
            if not e.get('cm') and not e.get('ar') and n not in ('begin', 'end', 'find', 'lock', 'unlock', 'AddRef', 'Release') and e.get('o', {}).get('k') != 'this':
                # a mutating method of an object held by value
                simple = n in MUTATORS or any(l[0] == 'L' for l in obj)
                if simple or 'TXString' in cls or 'string' in cls:
                    for l in obj:
                        self.write(l, E(mk('mut', n, t, *[self.one(a) for a in argv]) if not (t[0] == 'mut' and t[1] == n) else t for t in self.read(l, st)), st, e)
        elif n in ('move', 'forward', 'ref', 'cref', 'make_pair', 'addressof') and q.startswith('std::') and argv:
            if n != 'make_pair':
                return argv[0], argl[0]
        # --- unknown function: out parameters become functions of the inputs
        ot = tuple(self.one(E([x])) for x in sorted(obj, key=repr)[:1])
        if obj and e.get('cm') and ('TXString' in cls or 'basic_string' in cls) and all(o[0] == 'L' for o in obj):
            vv = self.vals(obj, st)
            if len(vv) == 1 and not any(isinstance(x, tuple) and x and x[0] == 'top' for t in vv for x in subterms(t)):
                ot = (self.one(vv),)       # a query on a local text: a function of its value
        av = tuple(self.one(a) for a in argv)
        for i, l in enumerate(argl):
            pt = pts[i] if i < len(pts) else ''
            if is_ref(pt) and not is_constref(pt) and l and not (n in MUTATORS and n != 'swap' and has_o and cls.startswith('std::')):
                ins = tuple(a for j, a in enumerate(av) if j != i)
                for x in l:
                    self.write(x, E([mk('out', n, i, ot, ins)]), st, e)
        for i, a in enumerate(argv):
            pt = pts[i] if i < len(pts) else ''
            if pt.endswith('*') and not pt.startswith('const '):
                for t in a:
                    if t[0] == 'addr':
                        ins = tuple(x for j, x in enumerate(av) if j != i)
                        self.write(t[1], E([mk('out', n, i, ot, ins)]), st, e)
        return E([mk('call', n, cls, ot, av)]), E()

    # ---------------------------------------------------------------- statements
    def block(self, s, st):
        """returns the fall-through state or None"""
        if s is None:
            return st
        if st is None or st.dead:
            return None
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(s, st)
        self.eval(s, st)
        return None if st.dead else st

    def exits(self, decls, st):
        if st is not None and self.on_scope_exit:
            for v in reversed(decls):
                self.on_scope_exit(self, st, v, ('L', v['d'], self.stack[-1].ctx))

    def s_seq(self, s, st):
        fr = self.stack[-1]
        decls = []
        nr, nb, nc = len(fr.rets), len(fr.breaks), len(fr.conts)
        for c in s['s']:
            if st is None:
                # labels after dead code
                if c and c['k'] in ('case', 'default', 'label'):
                    pass
                else:
                    continue
            st = self.block(c, st)
            if c and c['k'] == 'decl':
                decls += c['v']
        if decls and self.on_scope_exit:
            self.exits(decls, st)
            for l, n0 in ((fr.rets, nr), (fr.breaks, nb), (fr.conts, nc)):
                for it in l[n0:]:
                    self.exits(decls, it[0] if isinstance(it, tuple) else it)
        return st

    def declare(self, v, st):
        loc = ('L', v['d'], self.stack[-1].ctx)
        t = v['t']
        if 'init' in v and v['init'] is not None:
            i = v['init']
            if t.endswith('&') or t.endswith('&&'):
                if i['k'] in ('var', 'mem', 'idx', 'call', 'un', 'cast', 'cond'):
                    locs = self.lv(i, st)
                    st.env[loc] = E(('ref', x) for x in locs) if locs else E([TOP])
                    if not locs:
                        st.env[loc] = self.eval(i, st)
                else:
                    st.env[loc] = self.eval(i, st)
            elif i['k'] == 'ctor' and not i.get('cp'):
                val = self.eval_ctor(i, st, None)
                c = i['c'].split('<')[0]
                st.env[loc] = val if val else E([mk('obj', c, v['d'])])
                for x in val:
                    if x[0] == 'tmp':    # inlined constructor: move the fields over
                        for kk in [q for q in st.env if q[0] == 'fld' and q[1] == x]:
                            st.env[('fld', loc, kk[2])] = st.env.pop(kk)
                        st.env.pop(loc, None)
                if self.on_write:
                    self.on_write(self, st, loc, st.env.get(loc, E()), i, True)
            else:
                st.env[loc] = self.eval(i, st)
                self.logw(loc, st.env[loc], st)
                if self.on_write:
                    self.on_write(self, st, loc, st.env[loc], i, True)
        else:
            st.env[loc] = E([('undef', v['d'], self.stack[-1].ctx)])
        if self.on_decl:
            self.on_decl(self, st, v, loc)

    def s_decl(self, s, st):
        for v in s['v']:
            self.declare(v, st)
            if st.dead:
                return None
        return st

    def s_nop(self, s, st):
        return st

    def s_if(self, s, st):
        if s.get('init'):
            st = self.block(s['init'], st)
        if s.get('cvd'):
            self.declare(s['cvd'], st)
        t, f = self.cond(s['c'], st)
        if t is not None:
            t = self.block(s['th'], t)
        if f is not None and s.get('el'):
            f = self.block(s['el'], f)
        return join(t, f) if (t is not None or f is not None) else None

    def loop(self, s, st, cond, body, inc, first_body=False, cvd=None):
        fr = self.stack[-1]
        outs = []
        cur = st
        for it in range(3):
            sb, sc = fr.breaks, fr.conts
            fr.breaks, fr.conts = [], []
            entry = cur.copy()
            if first_body and it == 0:
                t = cur
            else:
                if cvd:
                    self.declare(cvd, cur)
                if cond is not None:
                    t, f = self.cond(cond, cur)
                    if f is not None:
                        outs.append(f)
                else:
                    t = cur
            if t is not None:
                self.loops.append((None, s, len(self.stack), entry.pc))
                t = self.block(body, t)
                self.loops.pop()
            nxt = joinall([t] + fr.conts) if (t is not None or fr.conts) else None
            outs += fr.breaks
            fr.breaks, fr.conts = sb, sc
            if nxt is not None and inc is not None:
                self.eval(inc, nxt)
            if nxt is None:
                break
            if first_body and it == 0:
                cur = nxt
                continue
            new = join(entry, nxt)
            if new.env == entry.env and new.pc == entry.pc and new.must == entry.must and new.may == entry.may:
                break
            cur = new
        return joinall(outs)

    def s_while(self, s, st):
        return self.loop(s, st, s['c'], s['b'], None, cvd=s.get('cvd'))

    def s_do(self, s, st):
        return self.loop(s, st, s['c'], s['b'], None, first_body=True)

    def s_for(self, s, st):
        if s.get('i'):
            st = self.block(s['i'], st)
        if st is None:
            return None
        return self.loop(s, st, s.get('c'), s['b'], s.get('inc'))

    def s_rfor(self, s, st):
        rng = self.lv(s['r'], st) if s['r']['k'] in ('var', 'mem', 'call', 'un', 'idx', 'cast') else self.eval(s['r'], st)
        fr = self.stack[-1]
        v = s['v']
        loc = ('L', v['d'], fr.ctx)
        elems = E(mk('elem', r) for r in self.copied(rng, st))
        outs = [st.copy()]
        cur = st
        for it in range(2):
            sb, sc = fr.breaks, fr.conts
            fr.breaks, fr.conts = [], []
            entry = cur.copy()
            if v['t'].endswith('&'):
                cur.env[loc] = E(('ref', x) for x in elems)
            else:
                cur.env[loc] = self.vals(elems, cur)
            if self.on_decl:
                self.on_decl(self, cur, v, loc)
            self.loops.append((rng, s, len(self.stack), entry.pc))
            r2 = self.block(s['b'], cur)
            self.loops.pop()
            nxt = joinall([r2] + fr.conts) if (r2 is not None or fr.conts) else None
            outs += fr.breaks
            fr.breaks, fr.conts = sb, sc
            if nxt is None:
                break
            outs.append(nxt)
            cur = join(entry, nxt)
        return joinall(outs)

    def s_switch(self, s, st):
        if s.get('cvd'):
            self.declare(s['cvd'], st)
        v = self.eval(s['c'], st)
        fr = self.stack[-1]
        sb = fr.breaks
        fr.breaks = []
        entry = st
        cases = []
        body = s['b']
        stmts = body['s'] if body and body['k'] == 'seq' else [body]
        vals = []

        def collect(x):
            if isinstance(x, dict):
                if x.get('k') == 'case':
                    vals.append(x['v'])
                    collect(x.get('s'))
                elif x.get('k') == 'default':
                    collect(x.get('s'))
        for x in stmts:
            collect(x)
        ct = [self.one(self.eval(c, entry.copy())) for c in vals]
        cur = None
        hasdef = False
        decls = []

        def enter_case(x, cur):
            nonlocal hasdef
            while x is not None and x['k'] in ('case', 'default'):
                n = entry.copy()
                if x['k'] == 'case':
                    cv = self.one(self.eval(x['v'], entry.copy()))
                    feasible = True
                    if all(const_int(t) is not None for t in v) and v:
                        feasible = any(const_int(t) == const_int(cv) for t in v)
                    if feasible:
                        if len(v) == 1:
                            self.assume(n, ('bin', '==', next(iter(v)), cv), True)
                        cur = join(cur, n) if cur is not None else n
                else:
                    hasdef = True
                    if len(v) == 1:
                        for c in ct:
                            self.assume(n, ('bin', '==', next(iter(v)), c), False)
                    if not (v and all(const_int(t) is not None and any(const_int(c) == const_int(t) for c in ct) for t in v)):
                        cur = join(cur, n) if cur is not None else n
                x = x['s']
            return x, cur
        for x in stmts:
            if x is None:
                continue
            if x['k'] in ('case', 'default'):
                x, cur = enter_case(x, cur)
            if cur is not None and x is not None:
                cur = self.block(x, cur)
        outs = [cur] + fr.breaks
        fr.breaks = sb
        if not hasdef:
            n = entry.copy()
            if len(v) == 1:
                for c in ct:
                    self.assume(n, ('bin', '==', next(iter(v)), c), False)
            if not (v and all(const_int(t) is not None and any(const_int(c) == const_int(t) for c in ct) for t in v)):
                outs.append(n)
        return joinall(outs)

    def s_case(self, s, st):
        return self.block(s['s'], st)

    s_default = s_case
    s_label = s_case

    def s_break(self, s, st):
        if self.on_jump:
            self.on_jump(self, st, s)
        self.stack[-1].breaks.append(st)
        return None

    def s_continue(self, s, st):
        if self.on_jump:
            self.on_jump(self, st, s)
        self.stack[-1].conts.append(st)
        return None

    def s_ret(self, s, st):
        fr = self.stack[-1]
        v = E()
        if s.get('e'):
            e = s['e']
            # a returned condition keeps its branch facts separate only through its term
            if fr.fn['ret'].endswith('&') or (fr.fn['ret'].endswith('*') and False):
                locs = self.lv(e, st)
                fr.rlocs |= set(locs)
                v = self.vals(locs, st)
            else:
                v = self.eval(e, st)
        if st.dead:
            return None
        if self.on_jump:
            self.on_jump(self, st, s)
        if self.on_return:
            self.on_return(self, st, v, s)
        fr.rets.append((st, v))
        return None

    def s_try(self, s, st):
        start = st.copy()
        r = self.block(s['b'], st)
        outs = [r]
        for h in s['h']:
            hs = join(start, r) if r is not None else start.copy()
            hs.pc = start.pc
            hs.must = start.must
            outs.append(self.block(h['b'], hs))
        return joinall([x for x in outs if x is not None]) if any(x is not None for x in outs) else None

    def s_goto(self, s, st):
        self.warn.append(('goto', self.where(s)))
        return None

    def s_otherstmt(self, s, st):
        return st


def o_is(e):
    return e.get('o') is not None


def show(t, n=0):
    """readable rendering of a term"""
    if n > 6:
        return '…'
    if isinstance(t, frozenset):
        return '{' + ' | '.join(sorted(show(x, n + 1) for x in t)) + '}'
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    h = t[0]
    if not isinstance(h, str):
        return '(' + ', '.join(show(x, n + 1) for x in t) + ')'
    if h == 'str':
        return '"%s"' % t[1]
    if h in ('int', 'float'):
        return str(t[1])
    if h == 'enum':
        return t[1].split('::')[-1]
    if h == 'fld':
        return show(t[1], n + 1) + '.' + t[2].split('::')[-1]
    if h == 'this':
        return 'this'
    if h == 'null':
        return 'null'
    if h == 'param':
        return 'arg:' + str(t[2])
    if h == 'L':
        return 'local%s' % t[1]
    if h == 'elem':
        return show(t[1], n + 1) + '[' + (show(t[2], n + 1) if len(t) > 2 else '') + ']'
    if h == 'bin':
        return '(%s %s %s)' % (show(t[2], n + 1), t[1], show(t[3], n + 1))
    return h + '(' + ', '.join(show(x, n + 1) for x in t[1:]) + ')'
