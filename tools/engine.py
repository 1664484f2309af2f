"""Engine: runs TLC on the specifications, turns its state graphs into input for
the C++ harness, runs the harness against /repo's working tree, and lets TLC judge
histories recorded from the real code."""
import collections, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
SPEC = os.path.join(ROOT, 'spec')
HARN = os.path.join(ROOT, 'harness')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
FLAGS = ['-std=gnu++17', '-fno-exceptions', '-fno-rtti', '-O1', '-g1', '-w', '-ftrivial-auto-var-init=pattern', '-fsanitize=address,undefined',
         '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-I' + REPO, '-I' + HARN]
ASAN = 'detect_leaks=0:max_malloc_fill_size=200000:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=4'

# Other ways to compile a driver ("component@variant"); rev: the headers in another
# order than the drivers', what others build on last.
REV = 'vector fixed_vector array list forward_list backward_list lazy_queue bitset set map sorted_vector_map vector_map rbtree numeric algorithm functional utility type_traits types'.split()
VARIANTS = {'': [], 'nognu': ['-DVF_NOGNU'], 'O0': ['-O0'], 'O3': ['-O3'], 'clang': ['-O2'], 'uchar': ['-funsigned-char'], 'std20': ['-std=gnu++20'], 'std14': ['-std=gnu++14'],
            'rev': [x for h in REV for x in ('-include', 'ttl/%s.hpp' % h)]}

class Infra(Exception):
    """The machinery itself failed."""

class CompileFail(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]

def read(fn):
    with open(fn, 'rb') as f:
        return f.read()

_src = {}
def repo_hash():
    """Contents of every header of the library."""
    if 'h' not in _src:
        l = []
        for d, _, fs in os.walk(os.path.join(REPO, 'ttl')):
            for f in fs:
                fn = os.path.join(d, f)
                l.append((os.path.relpath(fn, REPO), sha(read(fn))))
        _src['h'] = sha(*sorted(map(str, l)))
    return _src['h']

def mkdirs(*p):
    d = os.path.join(BUILD, *p)
    os.makedirs(d, exist_ok=True)
    return d

_locks = collections.defaultdict(threading.Lock)

def run(cmd, timeout=800, env=None, stdin=None, cwd=None):
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e['ASAN_OPTIONS'] = ASAN
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    e['VF_TMP'] = mkdirs('tmp')
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, stdin=subprocess.DEVNULL, cwd=cwd)
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode(errors='replace'), 'timeout'
    return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')

# ----------------------------------------------------------------- compiling
def obj(src, key, cc='g++', flags=FLAGS):
    o = os.path.join(mkdirs('obj'), '%s-%s.o' % (os.path.basename(src)[:-4], key))
    with _locks[o]:
        if not os.path.exists(o):
            t = o + '.%d.tmp' % os.getpid()
            for attempt in range(3):
                rc, out, err = run([cc] + flags + ['-c', src, '-o', t], timeout=600)
                if rc == 0:
                    break
                if ' error: ' in err or 'error:' in err:
                    raise CompileFail(err)
                time.sleep(1)
            else:
                raise Infra('g++ %s: rc %d %s' % (src, rc, err[-400:]))
            os.rename(t, o)
    return o

def binary(component):
    """Builds the driver of a component against the current headers."""
    hdrs = sorted(f for f in os.listdir(HARN) if f.endswith('.hpp'))
    base, _, variant = component.partition('@')
    extra = VARIANTS[variant]
    cc = 'clang++' if variant == 'clang' else 'g++'
    flags = [f for f in FLAGS if not (extra and f.startswith('-std') and any(x.startswith('-std') for x in extra))] + extra
    hk = sha(cc, *[read(os.path.join(HARN, f)) for f in hdrs], *flags)
    src = os.path.join(HARN, base + '.cpp')
    core = os.path.join(HARN, 'core.cpp')
    ck = sha(hk, read(core))
    dk = sha(hk, read(src), repo_hash())
    b = os.path.join(mkdirs('bin'), '%s-%s' % (component, sha(ck, dk)))
    with _locks[b]:
        if not os.path.exists(b):
            o1, o2 = obj(core, ck, cc, flags), obj(src, dk, cc, flags)
            t = b + '.%d.tmp' % os.getpid()
            rc, out, err = run([cc, '-fsanitize=address,undefined', o1, o2, '-o', t])
            if rc:
                raise CompileFail(err)
            os.rename(t, b)
    return b

# ----------------------------------------------------------------------- TLC
_tlc_n = [0]
def tlc(module, cfg, env=None, timeout=800, xmx='3g', workers=1, extra=()):
    """Runs TLC in the spec directory; returns (rc, stdout)."""
    with _locks['tlcn']:
        _tlc_n[0] += 1
        d = mkdirs('tlc', '%d-%d' % (os.getpid(), _tlc_n[0]))
    cf = os.path.join(d, 'MC.cfg')
    with open(cf, 'w') as f:
        f.write(cfg)
    try:
        rc, out, err = run(['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xmx' + xmx, '-Xss64m', '-cp', CP, 'tlc2.TLC',
                            '-workers', str(workers), '-metadir', d, '-config', cf, *extra, module + '.tla'], timeout=timeout, env=env, cwd=SPEC)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rc, out + err

def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, str):
        return v if v.startswith('@') else '"%s"' % v
    return str(v)

def consts(c):
    return ''.join('CONSTANT %s = %s\n' % (k, tla(v)) for k, v in c.items())

def spec_hash():
    if 's' not in _src:
        _src['s'] = sha(*[f.encode() + read(os.path.join(SPEC, f)) for f in sorted(os.listdir(SPEC)) if f.endswith('.tla')])
    return _src['s']

class Graph:
    """A state graph TLC enumerates: module, constants; replayed on a component."""
    def __init__(self, name, module, component, configs, consts, w=1, invs=('Inv',), xmx='4g', budget=40000):
        self.name, self.module, self.component, self.configs = name, module, component, configs
        self.consts, self.w, self.invs, self.xmx, self.budget = consts, w, invs, xmx, budget

def tlc_stats(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    return (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)

def graph_file(g):
    """Runs TLC (unless the same specification was enumerated before) and converts
    its transitions; returns (file, info)."""
    cfg = 'SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n' + consts(g.consts) + ''.join('INVARIANT %s\n' % i for i in g.invs)
    key = sha(spec_hash(), g.module, cfg, g.w, read(__file__))
    fn = os.path.join(mkdirs('graphs'), '%s-%s' % (g.name, key))
    with _locks[fn]:
        if os.path.exists(fn + '.json'):
            return fn + '.g', json.load(open(fn + '.json'))
        t0 = time.time()
        for attempt in range(2):
            rc, out = tlc(g.module, cfg, xmx=g.xmx)
            if rc == 0 and 'Model checking completed. No error' in out:
                break
            if rc == 12 or 'is violated' in out:
                raise Infra('specification %s violates its invariant:\n%s' % (g.name, '\n'.join(l for l in out.splitlines() if not l.startswith('"'))[-3000:]))
        else:
            raise Infra('TLC failed on %s (rc %d):\n%s' % (g.name, rc, '\n'.join(l for l in out.splitlines() if not l.startswith('"'))[-3000:]))
        states, calls, groups = {}, {}, collections.OrderedDict()
        def state(s):
            k = (tuple(tuple(tuple(t[1:]) for t in i) for i in s['i']), tuple(s['x']), json.dumps(s.get('h', ())))
            return states.setdefault(k, len(states))
        edges = 0
        for line in out.splitlines():
            if not line.startswith('"['):
                continue
            _, pre, op, args, r, post = json.loads(json.loads(line))
            edges += 1
            ids = {}
            for i in pre['i']:
                for t in i:
                    ids[t[0]] = len(ids)
            src = tuple(ids.get(t[0], -1) for i in post['i'] for t in i)
            p, q = state(pre), state(post)
            c = calls.setdefault((op, tuple(args)), len(calls))
            o = groups.setdefault((p, c), [])
            if (tuple(r), q, src) not in o:
                o.append((tuple(r), q, src))
        if not edges:
            raise Infra('no transitions from ' + g.name)
        with open(fn + '.g.tmp', 'w') as f:
            f.write('w %d\n' % g.w)
            for insts, x, h in states:
                f.write('S %d' % len(insts))
                for i in insts:
                    f.write(' %d' % len(i) + ''.join(' %d' % v for t in i for v in t))
                f.write(' %d' % len(x) + ''.join(' %d' % v for v in x) + '\n')
            for op, args in calls:
                f.write('C %s %d%s\n' % (op, len(args), ''.join(' %d' % a for a in args)))
            for (p, c), outs in groups.items():
                f.write('G %d %d %d' % (p, c, len(outs)))
                for r, q, src in outs:
                    f.write(' %d%s %d %d%s' % (len(r), ''.join(' %d' % v for v in r), q, len(src), ''.join(' %d' % v for v in src)))
                f.write('\n')
        os.rename(fn + '.g.tmp', fn + '.g')
        ops = collections.Counter()
        cl = list(calls)
        for (p, c) in groups:
            ops[cl[c][0]] += 1
        gen, dist = tlc_stats(out)
        info = {'states': dist, 'edges': edges, 'groups': len(groups), 'ops': ops, 'seconds': round(time.time() - t0, 1)}
        with open(fn + '.json.tmp', 'w') as f:
            json.dump(info, f)
        os.rename(fn + '.json.tmp', fn + '.json')
        return fn + '.g', info

# ------------------------------------------------------------------- walking
def walk_args(kinds, focus):
    return (['--kinds', ','.join(kinds)] if kinds else []) + (['--focus', ','.join(focus)] if focus else [])

def jlines(out):
    r = []
    for l in out.splitlines():
        if l.startswith('{'):
            try:
                r.append(json.loads(l))
            except ValueError:
                pass
    return r

def walk(component, config, gfile, shards, shard, budget, seed, kinds, focus, maxfail=3):
    b = binary(component)
    for attempt in range(2):
        rc, out, err = run([b, 'walk', '--graph', gfile, '--config', config, '--seed', str(seed), '--shards', str(shards), '--shard', str(shard),
                            '--budget', str(budget), '--maxfail', str(maxfail)] + walk_args(kinds, focus))
        ls = jlines(out)
        st = [l for l in ls if 'steps' in l]
        if rc in (0, 1) and st:
            return st[0], [l for l in ls if 'fail' in l]
    raise Infra('walker %s %s: rc %d %s %s' % (component, config, rc, out[-300:], err[-300:]))

def subgraph(gfile, walk):
    """The transitions of one walk as a self-contained graph file."""
    S, C, G, w = [], [], [], 'w 1'
    for l in open(gfile):
        if l[0] == 'S': S.append(l)
        elif l[0] == 'C': C.append(l)
        elif l[0] == 'G': G.append(l)
        elif l[0] == 'w': w = l.strip()
    smap, cmap, gmap = {0: 0}, {}, {}
    out = []
    for g in walk:
        if g in gmap:
            continue
        gmap[g] = len(gmap)
        t = list(map(int, G[g].split()[1:]))
        pre, call, no = t[:3]
        k = 3
        smap.setdefault(pre, len(smap))
        cmap.setdefault(call, len(cmap))
        for _ in range(no):
            k += 1 + t[k]
            smap.setdefault(t[k], len(smap))
            t[k] = smap[t[k]]
            k += 1
            k += 1 + t[k]
        t[0], t[1] = smap[pre], cmap[call]
        out.append('G ' + ' '.join(map(str, t)))
    txt = [w] + [S[s].strip() for s in smap] + [C[c].strip() for c in cmap] + out
    txt.append('W %d %s' % (len(walk), ' '.join(str(gmap[g]) for g in walk)))
    return '\n'.join(txt) + '\n'

# ------------------------------------------------------------------- tracing
class Trace:
    """Random histories of a component's config, judged by a trace specification."""
    def __init__(self, module, component, config, consts, steps=4000, seg=200, lim=(20, 10, 4, 4), w=1, useids=False, invs=(), ops=None, xmx='3g'):
        self.ops, self.xmx = ops, xmx # ops: this history instead of random ones
        self.module, self.component, self.config, self.consts = module, component, config, consts
        self.steps, self.seg, self.lim, self.w, self.invs, self.useids = steps, seg, lim, w, invs, useids

def record(t, fn, steps, seed, kinds, opsfile=None):
    b = binary(t.component)
    a, bb, v, n = t.lim
    cmd = [b, 'trace', '--config', t.config, '--seed', str(seed), '--steps', str(steps), '--seg', str(t.seg), '--maxa', str(a), '--maxb', str(bb),
           '--vals', str(v), '--maxn', str(n), '--w', str(t.w), '--out', fn] + (['--ops', opsfile] if opsfile else []) + walk_args(kinds, None)
    for attempt in range(2):
        rc, out, err = run(cmd)
        ls = jlines(out)
        st = [l for l in ls if 'lines' in l]
        if rc in (0, 1) and st:
            return st[0], [l for l in ls if 'fail' in l]
    raise Infra('recorder %s %s: rc %d %s %s' % (t.component, t.config, rc, out[-300:], err[-300:]))

def judge(module, cst, fn, invs=(), xmx='3g'):
    """TLC decides whether the recorded lines are a behaviour of the specification.
    Returns (accepted, line number of the first rejected line, text)."""
    cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Accepted\n' + consts(cst) + ''.join('INVARIANT %s\n' % i for i in invs)
    n = sum(1 for _ in open(fn))
    last = None
    for attempt in range(3):
        rc, out = tlc(module, cfg, env={'TRACE': fn}, xmx=xmx)
        m = re.search(r'<<"ACCEPTED", (\d+)>>', out)
        if rc == 0 and m and int(m.group(1)) == n and 'REJECT' not in out:
            return True, n, ''
        m = re.search(r'<<\s*"REJECT",\s*(\d+),', out)
        if m or 'is violated' in out:
            ln = int(m.group(1)) if m else tlc_stats(out)[1] - 1
            if last == ln:
                i = out.find('"REJECT"')
                return False, ln, out[max(0, i - 2):][:1500] if i >= 0 else out[-1500:]
            last = ln
            continue
        last = None
    raise Infra('trace specification %s: rc %d %s' % (module, rc, '\n'.join(l for l in out.splitlines() if not l.startswith(('Parsing', 'Semantic', 'Linting')))[-900:]))
