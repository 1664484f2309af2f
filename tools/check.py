#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree.

exit 0: held on everything explored; exit 1 and a VIOLATION line otherwise."""
import collections, copy, concurrent.futures, json, os, re, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import *
import specs, checks

def note(*a):
    print(*a, flush=True)

def brief(x):
    """Samples for the evidence file: the first few of what is long."""
    if isinstance(x, dict):
        return {k: brief(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [brief(v) for v in x[:24]] + (['... %d in all' % len(x)] if len(x) > 24 else [])
    return x[:400] if isinstance(x, str) else x

class Run:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.viol = []
        self.nviol = 0
        self.cov = collections.Counter()
        self.ops = collections.Counter()
        self.samples = []
        self.calls, self.distinct = 0, set()
        self.known = []
        self.detail = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.rdir = mkdirs('replay')

    def violate(self, what, data):
        """data: self-contained description that replay.py can re-execute."""
        fn = os.path.join(self.rdir, '%s-%d.json' % (self.pid, len(self.viol) + 1))
        data = dict(data, property=self.pid, what=what)
        with open(fn, 'w') as f:
            json.dump(data, f, indent=1)
        self.viol.append((what, fn))

    # -- specification -> code
    def enough(self):
        """Enough violations to report; or some, and time is short."""
        return self.nviol > 40 or (self.nviol and time.time() - self.t0 > 240)

    def do_walk(self, spec, g, config, shards, shard, budget):
        gfile, info = graph_file(g)
        if self.enough():
            return g, config, info, dict(walks=0, steps=0, pairs=0, transitions=0, finished=0), []
        st, fails = walk(g.component, config, gfile, shards, shard, budget, self.seed, spec.kinds, spec.focus)
        if fails:
            confirmed = []
            for f in fails:
                txt = subgraph(gfile, f['walk']) if f['walk'] else None
                if self.replay_graph(g.component, config, txt, spec):
                    confirmed.append((f, txt))
            if not confirmed: # depends on what ran before: the same again?
                st2, fails2 = walk(g.component, config, gfile, shards, shard, budget, self.seed, spec.kinds, spec.focus)
                confirmed = [(f, subgraph(gfile, f['walk']) if f['walk'] else None) for f in fails2]
            fails = confirmed
            self.nviol += len(fails)
        return g, config, info, st, fails

    def replay_graph(self, component, config, txt, spec):
        if not txt:
            return False
        fn = os.path.join(mkdirs('tmp'), 'rp-%d-%d' % (os.getpid(), id(txt)))
        with open(fn, 'w') as f:
            f.write(txt)
        try:
            rc, out, err = run([binary(component), 'replay', '--graph', fn, '--config', config] + walk_args(spec.kinds, None))
            return rc == 1
        finally:
            os.unlink(fn)

    # -- code -> specification
    def do_trace(self, spec, t, n, seed, steps):
        fn = os.path.join(mkdirs('tmp'), 'tr-%s-%d-%d.ndjson' % (self.pid, os.getpid(), n))
        try:
            cst = dict(t.consts)
            if self.enough():
                return t, [], collections.Counter(), [], None, cst
            if 'UseIds' in cst:
                cst['UseIds'] = t.useids and spec.ids
            if t.ops:
                with open(fn + '.ops', 'w') as f:
                    f.write('reset\n' + '\n'.join(t.ops) + '\n')
            opsf = fn + '.ops' if t.ops else None
            st, fails = record(t, fn, steps, seed, spec.kinds, opsf)
            if fails and fails[0]['kind'] in ('hang', 'crash'):
                st, fails = record(t, fn, steps, seed, spec.kinds, opsf)
            lines = open(fn).read().splitlines()
            res = []
            for f in fails:
                op = f['pending'].split(' ')[0] if f.get('pending') else ''
                if spec.focus and op and op not in spec.focus and not (f['kind'] == 'eq' and 'eq' in spec.focus):
                    continue
                res.append((f['kind'] + ': ' + f['msg'], f.get('pending', ''), lines))
            sample = None
            if lines:
                ok, ln, txt = judge(t.module, cst, fn, t.invs, t.xmx)
                good = lines[:ln] if ok else lines[:ln - 1]
                if not ok:
                    e = json.loads(lines[ln - 1])
                    objects = 'life' in spec.kinds and 0 <= e['live'] != sum(map(len, e['i']))
                    if (not spec.focus or e['op'] in spec.focus) and (objects or t.module == 'WorkTrace' or 'content' in spec.kinds or 'reply' in spec.kinds):
                        res.append(('recorded history not explained by %s at line %d: %s' % (t.module, ln, txt[:600]), '', lines[:ln]))
                ops = collections.Counter(json.loads(l)['op'] for l in good)
                sample = dict(spec=t.module, config=t.config, lines=[json.loads(l) for l in good[1:4]])
            else:
                good, ops = [], collections.Counter()
            self.nviol += len(res)
            return t, good, ops, res, sample, cst
        finally:
            for x in (fn, fn + '.ops'):
                if os.path.exists(x):
                    os.unlink(x)

    def go(self):
        spec = checks.CHECKS[self.pid]
        P = self.pool
        parts = [spec] + spec.more
        def built(xs): # as the property wants the drivers compiled
            if spec.variant:
                xs = [copy.copy(x) for x in xs if '@' not in x.component]
                for x in xs:
                    x.component += '@' + spec.variant
            return xs
        graphs = built({n: specs.GRAPHS[n] for p in parts for n in p.graphs}.values())
        traces = built([t for p in parts for n in p.traces for t in specs.TRACES[n]])
        comps = sorted({g.component for g in graphs} | {t.component for t in traces})
        if self.thorough:
            comps += [c + '@' + v for c in comps if '@' not in c for v in VARIANTS if v not in ('', 'nognu', 'rev')]
        # build and enumerate in parallel; the longest first
        fs = {P.submit(graph_file, g): ('graph', g) for g in graphs}
        cs = {P.submit(binary, c): c for c in comps}
        broken = set()
        for f in cs:
            try:
                f.result()
            except CompileFail as e:
                broken.add(cs[f])
                if '@' in cs[f] and cs[f].split('@')[1] not in ('nognu', spec.variant): # another way to compile it, thorough tier only
                    note('skipped: %s does not compile' % cs[f])
                    continue
                self.violate('the conformance driver for %s no longer compiles against the headers' % cs[f],
                             dict(type='compile', component=cs[f], errors=str(e)[-4000:]))
        tj = []
        k = 0
        for p in parts:
            for t in built([t for n in p.traces for t in specs.TRACES[n]]):
                if t.component in broken or (p.configs and not re.search(p.configs, t.config)):
                    continue
                for rep in range(1 if not self.thorough else 3 if t.ops else 8):
                    k += 1
                    v = ('', 'clang', 'O3', 'O0', 'std14', 'std20', 'uchar', '')[rep]
                    u = copy.copy(t)
                    if v and '@' not in t.component:
                        u.component += '@' + v
                    if u.component not in broken:
                        tj.append(P.submit(self.do_trace, p, u, k, self.seed * 1000 + k, int(t.steps * (4 if self.thorough else 1) * p.tscale)))
        for f in fs:
            f.result()
        jobs = []
        scale = 12 if self.thorough else 1
        for g in graphs:
            gf, info = graph_file(g)
            self.cov['states'] += info['states']
            self.cov['transitions'] += info['edges']
            self.detail[g.name] = dict(module=g.module, constants={k: str(v) for k, v in g.consts.items()}, states=info['states'], transitions=info['edges'])
            if g.component in broken:
                continue
            for p in parts:
                if g.name not in p.graphs:
                    continue
                # large graphs in many configurations: each transition in about half of them (thorough: in all)
                thin = not self.thorough and info['edges'] * len(g.configs) > 900000
                for ci, c in enumerate(g.configs):
                    if p.configs and not re.search(p.configs, c):
                        continue
                    n = 7 if thin else 8 if info['groups'] > 3000 else 2
                    b = max(int(g.budget * p.scale * scale), 3000)
                    for k in [(2 * ci + j) % 7 for j in range(4)] if thin else range(n):
                        jobs.append(P.submit(self.do_walk, p, g, c, n, k, b))
                    if self.thorough and '@' not in g.component:
                        for v in ('clang', 'O3', 'O0', 'std14', 'std20'):
                            h = copy.copy(g)
                            h.component += '@' + v
                            if h.component not in broken:
                                jobs.append(P.submit(self.do_walk, p, h, c, 1, 0, b // 8))
        ex = [P.submit(x, self) for x in spec.extra]
        unfinished = 0
        for j in jobs:
            g, config, info, st, fails = j.result()
            self.cov['walks'] += st['walks']
            self.cov['walk_steps'] += st['steps']
            self.cov['transition_pairs'] += st['pairs']
            self.cov['transitions_replayed'] += st['transitions']
            if not st['finished']:
                unfinished += 1
            for f, txt in fails:
                self.violate('%s [%s] %s: %s; history: %s' % (g.name, config, f['kind'], f['msg'], ' '.join(f['ops'][-12:])),
                             dict(type='walk', component=g.component, config=config, graph=txt, kind=f['kind'], msg=f['msg'], ops=f['ops'], kinds=spec.kinds))
            if st.get('sample') and len(self.samples) < 3:
                self.samples.append(dict(graph=g.name, config=config, replayed=st['sample']))
        nt = 0
        for j in tj:
            t, good, ops, res, sample, cst = j.result()
            self.cov['trace_lines'] += len(good)
            if spec.level == 'exploration':
                for l in good:
                    e = json.loads(l)
                    if e['op'] != 'reset':
                        self.calls += 1
                        if any(e['args']) or any(e['w']):
                            self.distinct.add((config_of(t), e['op'], tuple(e['args']), tuple(map(len, e['i']))))
            nt += ops.pop('reset', 0)
            self.ops.update(ops)
            if sample and len(self.samples) < 6:
                self.samples.append(sample)
            for what, pend, lines in res:
                self.violate('%s: %s' % (t.config, what), dict(type='trace', component=t.component, module=t.module, config=t.config, consts={k: v for k, v in cst.items()},
                             pending=pend, lines=lines[-3000:], kinds=spec.kinds, w=t.w))
        for x in ex:
            x.result()
        self.cov['recorded_histories_accepted'] = nt
        self.cov['traces_validated_against_impl'] += nt + self.cov['walks']
        self.finish(spec)

    def finish(self, spec):
        cov = dict(self.cov)
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            cov.setdefault(k, 0)
        cov['samples'] = brief(self.samples) or ['none']
        if spec.level == 'exploration':
            for k in ('states', 'transitions', 'traces_validated_against_impl'):
                cov.pop(k)
            cov.update(evaluations=self.calls, distinct_nontrivial=len(self.distinct), rule='calls of recorded histories, random and scripted, each judged by the specification; distinct by configuration, operation, arguments and sizes afterwards; non-trivial: with arguments, or something was counted')
        if self.detail:
            cov['specifications'] = self.detail
        if self.ops:
            cov['recorded_operations'] = dict(self.ops)
        ev = dict(property=self.pid, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick', seed=self.seed, level=spec.level, coverage=cov,
                  assumptions=spec.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            note('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        shown, seen = [], collections.Counter()
        for what, fn in self.viol: # a few of each sort
            key = re.sub(r'[\d<>,\[\]() :-]+', ' ', what.split('; history')[0])[:60]
            seen[key] += 1
            if seen[key] <= 2:
                shown.append((what, fn))
        for what, fn in shown[:12]:
            note('  ' + what[:700])
        for what, fn in shown[:12]:
            note('VIOLATION property=%s replay=%s' % (self.pid, fn))
        note('%s: %d violation(s); %s; %.1f s' % (self.pid, len(self.viol), ', '.join('%s %s' % (k, v) for k, v in cov.items() if isinstance(v, int)), time.time() - self.t0))

def config_of(t):
    return t.component + ' ' + t.config

def main():
    pid = sys.argv[1]
    for attempt in range(2):
        r = Run(pid)
        try:
            r.go()
            sys.stdout.flush()
            os._exit(1 if r.viol else 0)
        except Exception as e:
            traceback.print_exc()
            if r.viol: # a violation stands, whatever else went wrong
                r.finish(checks.CHECKS[pid])
                sys.stdout.flush()
                os._exit(1)
            r.pool.shutdown(wait=True, cancel_futures=True)
            note('retrying')
    os._exit(2)

main()
