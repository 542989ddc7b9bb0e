"""C17: no exception leaves an API method, a thread or a network handler."""
import re
import zone
from zone import Zone, add, lin
from report import Check, Broken
from c10 import nodes, below
from apimodel import wrapper_classes
import c10
from conc import strip

RAW = True      # looks at the code exactly as written

STD = ('std::exception',)
LOGIC = ('std::logic_error', 'std::exception')
RANGE = ('std::out_of_range',) + LOGIC
RT = ('std::runtime_error', 'std::exception')
SYS = ('boost::system::system_error', 'std::system_error') + RT
JSON = ('nlohmann::detail::exception', 'nlohmann::exception', 'std::exception')
NOT_OPEN = ('close', 'cancel', 'stop', 'shutdown', 'stopped', 'restart', 'run', 'run_for', 'run_one', 'poll', 'post', 'expires_from_now', 'expires_at', 'local_endpoint', 'get_executor', 'port', 'address', 'buffer', 'move', 'data', 'size', 'begin', 'end', 'empty', 'what', 'message', 'value')
BASES = {'std::out_of_range': RANGE, 'std::invalid_argument': ('std::invalid_argument',) + LOGIC, 'std::length_error': ('std::length_error',) + LOGIC, 'std::logic_error': LOGIC, 'std::domain_error': ('std::domain_error',) + LOGIC,
         'std::runtime_error': RT, 'std::range_error': ('std::range_error',) + RT, 'std::overflow_error': ('std::overflow_error',) + RT, 'std::exception': STD}
POS = {'insert': 0, 'erase': 0, 'replace': 0, 'substr': 0, 'compare': 0, 'copy': 2}
NUM = ('stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stof', 'stod', 'stold')
STRING = re.compile(r'^(const )?std::(__cxx11::)?basic_string<')
CONTAINER = re.compile(r'^(const )?std::(__cxx11::|__debug::)?(vector|deque|array|map|unordered_map|basic_string|bitset|basic_string_view)\b')


def own(n, P):
    f = P.funcs.get(n.get('fn'))
    return f is not None and f.get('body') is not None


def cls_of(n):
    q = n.get('q') or ''
    d = 0
    for i in range(len(q) - 1, 0, -1):
        c = q[i]
        d += c == '>'
        d -= c == '<'
        if d == 0 and q[i - 1:i + 1] == '::' and not q[i + 1:].startswith('operator<'):
            return q[:i - 1]
    return ''


def zero(a):
    a = strip(a)
    return a is not None and (a.get('k') == 'int' and str(a.get('v')) == '0' or a.get('k') == 'defarg')


class Sites(object):
    def __init__(s, P):
        s.P = P
        s.pos = {}         # function -> position sites that need a proof
        s.n = 0

    def thrown(s, n, k):
        """[(what, thrown types, kind)] of one node"""
        P = s.P
        if n['k'] == 'throw':
            t = re.sub(r'^(const )|( &)$', '', str(n.get('t') or (n.get('e') or {}).get('t') or ''))
            return [('throw ' + t.split('::')[-1], BASES.get(t, ((t,) + STD) if t.startswith('std::') else (t,)), 'throw')]
        if n['k'] == 'cast' and n.get('ck') == 'dynamic' and str(n.get('t', '')).endswith('&'):
            return [('dynamic_cast of a reference', ('std::bad_cast', 'std::exception'), 'throw')]
        if n['k'] not in ('call', 'ctor') or own(n, P):
            return []
        q, name = n.get('q') or '', n.get('n') or ''
        a = n.get('a') or []
        pt = n.get('pt') or []
        if n['k'] == 'ctor':
            t = str(n.get('t') or '')
            if 'basic_regex<' in t and a and strip(a[0]).get('k') not in ('str',) and not t.endswith('&') and 'basic_regex' not in str((pt or [''])[0]):
                return [('a regular expression made of a text', ('std::regex_error',) + RT, 'call')]
            if STRING.match(t) and len(pt) >= 2 and STRING.match(pt[0]) and 'long' in pt[1] and not zero(a[1]):
                return [('a part of a text', RANGE, 'pos')]
            if 'std::locale' == t and a and 'char' in str((pt or [''])[0]):
                return [('a locale by name', RT, 'call')]
            return []
        cls = cls_of(n)
        if name in NUM and q.startswith('std::'):
            return [('std::' + name, ('std::invalid_argument',) + LOGIC, 'call'), ('std::' + name, RANGE, 'call')]
        if 'nlohmann::' in q:
            if name == 'parse':
                x = strip(a[2]) if len(a) > 2 else None
                if x is not None and x.get('k') in ('bool', 'int') and not str(x.get('v')) in ('True', 'true', '1'):
                    return []
                return [('json::parse', JSON, 'call')]
            if name in ('get', 'get_to', 'get_ref', 'at', 'value', 'front', 'back', 'insert', 'update', 'patch', 'merge_patch', 'from_bson', 'from_cbor', 'from_msgpack', 'unflatten', 'flatten') or (name.startswith('operator ') and name[9:10].isalpha() and not name.startswith('operator bool')):
                if name == 'value' and 'iter_impl' in cls:
                    return []
                return [('json::' + name, JSON, 'build' if name == 'value' else 'call')]
            if name == 'dump':
                x = strip(a[3]) if len(a) > 3 else None
                if x is not None and x.get('k') in ('enum', 'var', 'cast') and re.search('replace|ignore', str(x.get('n') or x.get('q'))):
                    return []
                return [('json::dump', JSON, 'call')]
            if name in ('operator[]', 'push_back', 'emplace', 'emplace_back', 'operator+='):
                return [('json::' + name, JSON, 'build')]
            return []
        if q.startswith(('boost::asio::', 'asio::')):
            if any('error_code' in t for t in pt):
                return []
            if name.startswith(('async_', 'operator', 'to_', 'make_strand')) or name in NOT_OPEN:
                if name in ('to_v4', 'to_v6'):
                    return [('address::' + name, ('boost::asio::ip::bad_address_cast', 'std::bad_cast', 'std::exception'), 'v4')]
                return []
            if re.search(r'remote_endpoint|connect|accept|bind|listen|open|resolve|make_address|from_string|read|write|receive|send|set_option|get_option|io_control|assign|wait|available|non_blocking', name):
                return [('asio %s without an error code' % name, SYS, 'call')]
            return []
        if 'wstring_convert' in cls and name in ('from_bytes', 'to_bytes'):
            return [('wstring_convert::' + name, ('std::range_error',) + RT, 'conv')]
        if q.startswith('std::') and 'filesystem' in q and not any('error_code' in t for t in pt) and re.search(r'copy|remove|rename|create_|file_size|exists|is_|canonical|resize|space|status|last_write|temp_directory|current_path|begin|directory_iterator', name):
            return [('filesystem::' + name, SYS, 'call')]
        if name == 'get' and ('std::future' in cls or 'shared_future' in cls):
            return []
        if 'std::function<' in cls and name == 'operator()':
            return [('calling an empty std::function', ('std::bad_function_call', 'std::exception'), 'fn')]
        if name == 'any_cast' or (name == 'get' and 'variant' in str(pt[:1])):
            return [('std::' + name, ('std::bad_cast', 'std::bad_variant_access', 'std::exception'), 'call')]
        if name == 'value' and 'std::optional' in cls:
            return [('optional::value', ('std::bad_optional_access', 'std::exception'), 'call')]
        if CONTAINER.match(cls):
            if name == 'at' and 'map<' in cls:
                return [('map::at', RANGE, 'map')]
            if name == 'at':
                return [('%s::at' % re.sub(r'<.*', '', cls.split('std::', 1)[-1]), RANGE, 'pos')]
            if STRING.match(cls) and name in POS and len(pt) > 0:
                i = POS[name]
                if name == 'copy':
                    if len(a) < 3 or zero(a[2]):
                        return []
                elif re.search(r'iterator|basic_string|char', pt[0]) and 'long' not in pt[0]:
                    return []
                if i < len(a) and not zero(a[i]):
                    return [('the text position of %s' % name, RANGE, 'pos')]
            if 'bitset' in cls and name in ('set', 'test', 'reset', 'flip') and a:
                return [('bitset::' + name, RANGE, 'call')]
        return []


def caught(types, stack):
    for h in stack:
        if h is None or h in types:
            return True
    return False


def strip_t(t):
    return re.sub(r'^const | ?[&*]+$|^const ', '', t or '').strip()


class Walk(object):
    """sites and calls of one function with the handlers around them"""

    def __init__(s, P, S, k):
        s.P, s.S, s.k = P, S, k
        s.sites, s.calls = [], []
        f = P.funcs[k]
        for i in f.get('inits') or []:
            s.go(i.get('e'), ())
        s.go(f.get('body'), ())

    def go(s, n, st):
        if isinstance(n, list):
            for x in n:
                s.go(x, st)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'try':
            inner = st
            for h in n.get('h') or []:
                inner = inner + ((strip_t(h['v']['t']) if h.get('v') else None),)
            s.go(n.get('b'), inner)
            for h in n.get('h') or []:
                s.go(h.get('b'), st)
            return
        if k in ('throw', 'call', 'ctor', 'cast', 'new', 'lambda', 'fref', 'del'):
            for w, t, kind in s.S.thrown(n, s.k):
                s.sites.append((n, w, t, kind, st))
            if k in ('call', 'ctor') and n.get('fn') in s.P.funcs:
                s.calls.append((n, st))
            elif k == 'lambda' and n.get('fn') in s.P.funcs:
                s.calls.append((n, st))
        for x in n.values():
            if isinstance(x, (dict, list)):
                s.go(x, st)


def targets(P, n):
    k = n.get('fn')
    r = [k] if k in P.funcs else []
    if n.get('virt') and not n.get('nv'):
        r += [o for o in P.overriders.get(k, ()) if o in P.funcs]
    return r


class Prover(object):
    """positions and calls of std::function, decided from the integer relations at the call; what a helper leaves open is asked of its callers"""

    def __init__(s, P, W):
        s.P, s.W = P, W
        s.memo = {}
        s.callers = {}
        for k, w in W.items():
            for n, st in w.calls:
                if n['k'] != 'lambda':
                    for t in targets(P, n):
                        s.callers.setdefault(t, []).append((k, n))

    def goals(s, z, n, kind, st):
        """what has to hold at the call: [('le', form)] or [('nn', place)]; None when it cannot be expressed"""
        if kind == 'fn':
            l = z.loc(n['o'], st)
            return None if l is None else [('nn', l)]
        if n['k'] == 'ctor':
            o, i = z.loc(n['a'][0], st), z.pure(n['a'][1], st)
        else:
            o, i = z.sizeof_obj(n, st), z.pure(n['a'][POS.get(n.get('n'), 0)], st)
        if o is None or i is None:
            return None
        strict = n.get('n') in ('at', 'operator[]')
        return [('le', add(add(i, lin(('sz', o)), -1), ({}, 1 if strict else 0))), ('le', add(({}, 0), i, -1))]

    def holds(s, g, st):
        return g[1] in st.nn if g[0] == 'nn' else st.holds(g[1])

    def one(s, k, sites):
        """{node id: verdict} of the sites of one function"""
        ids = {id(x[0]): x for x in sites}
        got = {}

        def at(z, n, st):
            x = ids.get(id(n))
            if x is None:
                return
            gs = s.goals(z, n, x[3], st)
            r = got.setdefault(id(n), [True, []])
            if gs is None:
                r[0] = None
                return
            for g in gs:
                if not s.holds(g, st):
                    if r[0] is True:
                        r[0] = False
                    r[1].append((g, st.killed))
        s.zone(at).run(k)
        out = {}
        for x in sites:
            r = got.get(id(x[0]))
            if r is None:
                out[id(x[0])] = True        # no path reaches it
                continue
            v = r[0]
            if v is False and all(s.atcallers(k, g, killed, 0) for g, killed in r[1]):
                v = True
            if v is False and (vague(s.P, k, x[0], x[3]) or x[3] == 'fn' and 'mdns_cpp/' in s.P.funcs[k]['file']):
                v = None
            out[id(x[0])] = v
        return out

    def atcallers(s, k, g, killed, depth):
        """the goal, in terms of what the function got, holds at every call of it"""
        f = s.P.funcs[k]
        cs = s.callers.get(k) or []
        if depth > 2 or not cs or f.get('virt') or f.get('cls') == '(lambda)':
            return False
        ps = {('v', 0, p['d']): i for i, p in enumerate(f['p'])}
        terms = list(g[1][0]) if g[0] == 'le' else [g[1]]
        for t in terms:
            if not from_entry(t, ps):
                return False
            if any(zone.within(l, t) for l in killed):
                return False
        for c, n in cs:
            if g[0] == 'nn' and lambda_arg(n, ps.get(g[1])):
                continue
            for env, this, st in s.arrivals(c, n, f):
                h = moved(g, ps, env, this, n)
                if h is None or not (s.holds(h, st) or s.atcallers(c, h, st.killed, depth + 1)):
                    return False
        return True

    def zone(s, at):
        return Zone(s.P, at)

    def arrivals(s, c, n, f):
        """the states in which function c makes call n"""
        key = (c, id(n), f['key'])
        r = s.memo.get(key)
        if r is None:
            r = s.memo[key] = []

            def at(z, m, st):
                if m is n:
                    env, this = z.bind(m, f, st)
                    r.append((env, this, st.copy()))
            s.zone(at).run(c)
        return r


def lambda_arg(n, i):
    """the call passes a function as its i-th argument"""
    if i is None or i >= len(n.get('a') or []):
        return False
    x = strip(n['a'][i])
    while x is not None and x.get('k') == 'ctor' and len(x.get('a') or []) == 1:
        x = strip(x['a'][0])
    return x is not None and (x.get('k') in ('lambda', 'fref') or x.get('k') == 'var' and '(lambda' in str(x.get('t')))


def from_entry(t, ps):
    """a term over parameters and members of the object"""
    if isinstance(t, frozenset):
        return all(from_entry(x, ps) for x in t)
    if not isinstance(t, tuple):
        return True
    if t and t[0] == 'v':
        return t in ps
    if t and t[0] in ('o', 'u', 'obj', 'each', 'call'):
        return False
    return all(from_entry(x, ps) for x in t)


def moved(g, ps, env, this, n):
    """the goal with the caller's arguments for the parameters"""
    bad = []
    d = {}
    for p, i in ps.items():
        e = env.get(p[2])
        if e is not None:
            d[p] = e

    def place(t):
        if t in d:
            e = d[t]
            l = e[1] if e[0] == 'loc' else e[2]
            if l is None:
                bad.append(t)
            return l
        if t == ('this',):
            return this
        if isinstance(t, tuple):
            return tuple(place(x) if isinstance(x, tuple) else x for x in t)
        if isinstance(t, frozenset):
            bad.append(t)
        return t
    if g[0] == 'nn':
        l = place(g[1])
        return None if bad else ('nn', l)
    f = ({}, g[1][1])
    for t, c in g[1][0].items():
        if t in d and d[t][0] == 'val':
            v = d[t][1]
            if v is None:
                return None
            f = add(f, ({x: y * c for x, y in v[0].items()}, v[1] * c))
        else:
            f = add(f, ({place(t): c}, 0))
    return None if bad else ('le', f)


def vague(P, k, n, kind):
    """the position comes from a search in another object, or from arithmetic this analysis does not follow"""
    if kind != 'pos':
        return False
    i = n['a'][1] if n['k'] == 'ctor' else n['a'][POS.get(n.get('n'), 0)]
    o = n['a'][0] if n['k'] == 'ctor' else n.get('o')
    defs = {}
    for x in nodes(P.funcs[k]['body']):
        if x.get('k') == 'decl':
            for v in x.get('v') or []:
                if v.get('init') is not None:
                    defs.setdefault(v['d'], []).append(v['init'])
        elif x.get('k') == 'bin' and x.get('as') and strip(x['a']).get('k') == 'var':
            defs.setdefault(strip(x['a']).get('d'), []).append(x['b'])
    seen, work = set(), [i]
    while work:
        e = work.pop()
        for x in nodes(e):
            if x.get('k') == 'bin' and x.get('op') in ('*', '/', '%', '<<', '>>', '&', '|'):
                return True
            if x.get('k') == 'call' and re.match('(?i)r?find', x.get('n') or '') and x.get('o') is not None and same_place(x['o']) != same_place(o):
                return True
            if x.get('k') == 'var' and x.get('d') in defs and x['d'] not in seen:
                seen.add(x['d'])
                work += defs[x['d']]
    return False


def same_place(o):
    o = strip(o)
    return (o.get('k'), o.get('d'), o.get('f'), o.get('n'), same_place(o['b']) if isinstance(o.get('b'), dict) else None) if o else None


def converter_safe(P, k, n):
    """the wstring_convert object was made with texts for the case of an error"""
    o = strip(n.get('o'))
    if o is None or o.get('k') != 'var':
        return None
    for x in nodes(P.funcs[k]['body']):
        if x.get('k') == 'decl':
            for v in x.get('v') or []:
                if v.get('d') == o.get('d'):
                    e = strip(v.get('init') or {})
                    return need_texts(e, n.get('n'))
    return None


def need_texts(e, name):
    while e is not None and e.get('k') == 'list' and len(e.get('a') or []) == 1:
        e = strip(e['a'][0])
    if e is None or e.get('k') != 'ctor':
        return False
    t = [x for x in e.get('pt') or []]
    a = [x for x in e.get('a') or [] if strip(x).get('k') != 'defarg']
    strings = [x for x, y in zip(t, a) if 'basic_string' in x]
    return len(strings) >= (1 if name == 'to_bytes' else 2)


def json_parsed(P, k, n):
    """the JSON value that is filled here may have been read from a text"""
    o = n.get('o')
    while o is not None and strip(o).get('k') == 'call' and strip(o).get('n') in ('operator[]', 'at', 'back', 'front'):
        o = strip(o).get('o')
    o = strip(o) if o else None
    if o is None:
        return True
    f = P.funcs[k]
    if str(o.get('t') or '').startswith('const'):
        return True
    if o.get('k') != 'var':
        return True
    for x in nodes(f['body']):
        if x.get('k') == 'call' and x.get('n') in ('parse', 'operator>>') and 'nlohmann' in str(x.get('q')):
            return True
    return False


def entries(P):
    """functions that are called from outside the library, and the threads and handlers of MVR-xchange"""
    r = {}
    api = set(wrapper_classes(P)) | set(c10.mvrx_classes(P))
    for k, f in P.funcs.items():
        if not f.get('body'):
            continue
        if f.get('cls') in api and (f.get('virt') and not f.get('ctor') or f.get('dtor')):
            r[k] = 'API method'
        elif not f.get('cls') and f['n'].startswith(('VWQueryInterface', 'VWRQuery')):
            r[k] = 'API function'
    return r


def run(P, tier):
    C = Check('C17', 'every call, cast and throw that can raise an exception for some input is caught by its type on every way up to an API method, a thread function or a network handler, or is shown not to throw (positions and indexes behind a comparison with the length, '
              'text converters made with error texts, std::function tested, JSON built from nothing, boost.asio called with an error code)',
              'interprocedural exception-escape analysis over the call graph with branch facts for positions')
    S = Sites(P)
    W = {}
    for k, f in P.funcs.items():
        if f.get('body'):
            W[k] = Walk(P, S, k)
    # roots
    roots = entries(P)
    launched = set()
    for k, w in W.items():
        for n, st in w.calls:
            pass
        for n in nodes(P.funcs[k]['body']) if True else ():
            if n.get('k') in ('call', 'ctor') and launches(n):
                for h in handlers(P, n):
                    if h in W:
                        roots[h] = 'thread or handler'
                        launched.add(id_of(n, h))
        for i in P.funcs[k].get('inits') or []:
            for n in nodes(i):
                if n.get('k') in ('call', 'ctor') and launches(n):
                    for h in handlers(P, n):
                        if h in W:
                            roots[h] = 'thread or handler'
                            launched.add(id_of(n, h))
    # what each site can let out
    live = {}
    prover = Prover(P, W)
    for k, w in sorted(W.items()):
        todo = [x for x in w.sites if x[3] in ('pos', 'fn') and not caught(x[2], x[4])]
        proof = prover.one(k, todo) if todo else {}
        out = []
        for n, what, types, kind, st in w.sites:
            if caught(types, st):
                out.append((n, what, types, 'caught'))
                continue
            v = False
            if kind in ('pos', 'fn'):
                v = proof.get(id(n))
            elif kind == 'conv':
                v = converter_safe(P, k, n)
            elif kind == 'build':
                v = not json_parsed(P, k, n)
            elif kind == 'map':
                v = None if any(x.get('k') == 'call' and x.get('n') in ('find', 'count', 'contains') and same_place(x.get('o')) == same_place(n['o']) for x in nodes(P.funcs[k]['body'])) else False
            elif kind == 'v4':
                v = None
            out.append((n, what, types, v))
        live[k] = out
    # callers
    up = {}
    for k, w in W.items():
        for n, st in w.calls:
            if n['k'] == 'lambda':
                if roots.get(n['fn']) == 'thread or handler' and (k, n['fn']) in {(a, b) for a, b in launched_pairs(P, W)}:
                    continue
                up.setdefault(n['fn'], []).append((k, st, n))
            else:
                for t in targets(P, n):
                    up.setdefault(t, []).append((k, st, n))

    def escape(k, types):
        """a way from function k to a root on which nothing catches these types"""
        seen, work = {k: None}, [k]
        while work:
            x = work.pop(0)
            if x in roots:
                r = []
                while x is not None:
                    r.append(x)
                    x = seen[x]
                return r
            for c, st, n in up.get(x, ()):
                if c not in seen and not caught(types, st):
                    seen[c] = x
                    work.append(c)
        return None
    names = {}
    for k, out in sorted(live.items()):
        f = P.funcs[k]
        file = f['file'].split('/repo/')[-1]
        for n, what, types, v in out:
            nm = '%s/%s/%s' % (f['q'].split('::', 1)[-1][-60:] if f['q'] else file, what, types[0].split('::')[-1])
            names[nm] = names.get(nm, 0) + 1
            if names[nm] > 1:
                nm += '#%d' % names[nm]
            kind = 'position' if 'position' in what or what.endswith('::at') or what.startswith('a part') else 'caught'
            where = '%s:%s' % (f['file'], n.get('l'))
            if v is True or v == 'caught':
                C.ob(kind, nm, True, where, '')
                continue
            way = escape(k, types)
            if not way:
                C.ob(kind, nm, True, where, '')
                continue
            if v is None:
                C.skip(kind, nm, 'it is not clear whether this can throw')
                continue
            C.ob(kind, nm, False, where, '%s can throw %s, which nothing catches on the way %s (%s)' % (
                what, types[0], ' > '.join(P.funcs[x]['q'].split('::')[-1] if P.funcs[x]['n'] != 'operator()' else 'handler in ' + owner(P, x) for x in way), roots[way[0]]))
    C.need('caught', 60)
    C.need('position', 20)
    return C.finish(P, tier)


def owner(P, k):
    f = P.funcs[k]
    while f.get('cls') == '(lambda)' and f.get('encl') in P.funcs:
        f = P.funcs[f['encl']]
    return f['n']


def id_of(n, h):
    return (id(n), h)


def launches(n):
    """a call that runs its function argument on another thread or later: nobody is there to catch what it throws"""
    t = str(n.get('t') or '')
    if n['k'] == 'ctor':
        return t == 'std::thread'
    q, name = n.get('q') or '', n.get('n') or ''
    return q.startswith('boost::asio') and (name.startswith('async_') or name in ('post', 'dispatch', 'defer'))


def handlers(P, n):
    out = []

    def h(a):
        a = strip(a)
        if a is None:
            return
        if a.get('k') == 'lambda':
            out.append(a['fn'])
        elif a.get('k') == 'fref':
            out.append(a['fn'])
        elif a.get('k') == 'un' and a.get('op') == '&':
            h(a['e'])
        elif a.get('k') in ('call', 'ctor') and re.search(r'\bbind|move|forward|function|wrap', (a.get('q') or a.get('c') or a.get('t') or '')):
            for x in a.get('a') or []:
                h(x)
    for a in n.get('a') or []:
        h(a)
    return out


def launched_pairs(P, W):
    if not hasattr(launched_pairs, 'r') or launched_pairs.p is not P:
        r = set()
        for k in W:
            for n in nodes({'b': P.funcs[k]['body'], 'i': P.funcs[k].get('inits') or []}):
                if n.get('k') in ('call', 'ctor') and launches(n):
                    for h in handlers(P, n):
                        r.add((k, h))
        launched_pairs.r, launched_pairs.p = r, P
    return launched_pairs.r
