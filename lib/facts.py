"""Runs the extractor over every compiled translation unit of /repo and merges the facts.

Cache: one JSON per TU below /verif/.cache keyed by the extractor, the flags and the contents of every
repository file the TU included, so that a run always reflects the current working tree."""
import os, sys, json, hashlib, subprocess, glob, concurrent.futures, pickle, gc
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
EXCL = ['json.h', 'tinyxml2', 'mdns_cpp/include/mdns.h', 'mdns_cpp/src/mdns.h', 'XMLLib/', 'Minizip', 'minizip']
FLAGS = ['-std=gnu++14', '-DBUILD_MVR_XCHANGE', '-DDONT_USE_XERCES_AS_XMLLIB', '-DGS_LIN', '-DUNICODE', '-D_LINUX',
         '-D_UNICODE', '-DIS_UNITTEST', '-DNDEBUG', '-w', '-ferror-limit=0']


class AnalysisBroken(Exception):
    pass


def tool():
    exe = os.path.join(BUILD, 'extract')
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    stamp = os.path.join(BUILD, 'extract.sha')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    r = subprocess.run(['sh', os.path.join(VERIF, 'tool', 'build.sh'), BUILD], capture_output=True, text=True)
    if r.returncode or not os.path.exists(exe):
        raise AnalysisBroken('extractor does not build: ' + r.stderr[-2000:])
    open(stamp, 'w').write(h)
    return exe


def sources():
    s = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True) + glob.glob(REPO + '/mdns_cpp/src/*.cpp'))
    return [f for f in s if '/XMLLib/' not in f and 'tinyxml2' not in f]


def _fh(path, memo={}):
    try:
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size)
        if k not in memo:
            memo[k] = hashlib.sha256(open(path, 'rb').read()).hexdigest()
        return memo[k]
    except OSError:
        return 'absent'


def _flags(src):
    fl = FLAGS + ['-I%s/src' % REPO, '-I%s/mdns_cpp/include' % REPO]
    if '/mdns_cpp/' in src:
        fl = ['-std=c++20', '-include', 'algorithm'] + [f for f in fl if not f.startswith('-std') and f not in ('-DGS_LIN', '-D_LINUX')]
    return fl


def _extract(exe, src, toolhash):
    name = hashlib.sha256((src + toolhash + ' '.join(_flags(src))).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, name + '.json')
    meta = os.path.join(CACHE, name + '.deps')
    if os.path.exists(out) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(_fh(p) == h for p, h in deps.items()):
                return src, out, None
        except Exception:
            pass
    tmp = out + '.tmp%d' % os.getpid()
    cmd = [exe, tmp, src, '--root', REPO + '/src/', '--root', REPO + '/mdns_cpp/']
    for e in EXCL:
        cmd += ['--exclude', e]
    cmd += ['--'] + _flags(src)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if not os.path.exists(tmp):
        return src, None, r.stderr[-1500:]
    d = json.load(open(tmp))
    if d.get('errors'):
        os.unlink(tmp)
        return src, None, r.stderr[-1500:]
    deps = {p: _fh(p) for p in d['deps']}
    os.replace(tmp, out)
    json.dump(deps, open(meta, 'w'))
    return src, out, None


class Program:
    def __init__(self):
        self.funcs = {}      # key -> function
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.vdecls = {}     # pure/undefined virtual declarations
        self.units = []
        self.overriders = {}  # key -> set(keys)
        self.file_funcs = {}


def load(verbose=False):
    exe = tool()
    os.makedirs(CACHE, exist_ok=True)
    th = open(os.path.join(BUILD, 'extract.sha')).read()
    srcs = sources()
    if len(srcs) < 100:
        raise AnalysisBroken('only %d source files found under %s' % (len(srcs), REPO))
    # biggest first
    srcs.sort(key=lambda f: -os.path.getsize(f) - (5000000 if 'mvrxchange' in f else 0))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(lambda s: _extract(exe, s, th), srcs))
    bad = [(s, e) for s, o, e in res if e is not None]
    if bad:
        raise AnalysisBroken('cannot parse %s: %s' % (bad[0][0], bad[0][1]))
    key = hashlib.sha256(('v3' + ''.join(sorted(o + _fh(o) for s, o, e in res))).encode()).hexdigest()[:24]
    pk = os.path.join(CACHE, 'prog-%s.pkl' % key)
    gc.disable()
    if os.path.exists(pk):
        try:
            p = pickle.load(open(pk, 'rb'))
            gc.enable()
            return p
        except Exception:
            pass
    P = Program()
    for s, o, e in sorted(res):
        d = json.load(open(o))
        P.units.append(s)
        un = len(P.units)
        for f in d['functions']:
            k = f['key']
            if k in P.funcs:
                continue
            f['unit'] = un
            P.funcs[k] = f
        for c in d['classes']:
            P.classes.setdefault(c['q'], c)
        for c in d['enums']:
            P.enums.setdefault(c['q'], c)
        for g in d['globals']:
            P.globals.setdefault(g['q'], g)
        for v in d['decls']:
            P.vdecls.setdefault(v['key'], v)
    for k, f in P.funcs.items():
        for b in f.get('ov', []):
            P.overriders.setdefault(b, set()).add(k)
        P.file_funcs.setdefault(f['file'], []).append(k)
    for old in glob.glob(CACHE + '/prog-*.pkl'):
        try: os.unlink(old)
        except OSError: pass
    tmp = pk + '.tmp%d' % os.getpid()
    pickle.dump(P, open(tmp, 'wb'), protocol=pickle.HIGHEST_PROTOCOL)
    os.replace(tmp, pk)
    gc.enable()
    return P


if __name__ == '__main__':
    import time
    t = time.time()
    P = load()
    print(len(P.units), 'units', len(P.funcs), 'functions', len(P.classes), 'classes', len(P.enums), 'enums', len(P.globals), 'globals', '%.1fs' % (time.time() - t))
