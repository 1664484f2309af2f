#!/usr/bin/env python3
"""replay.py FILE: re-executes what a VIOLATION line points to."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import *
d = json.load(open(sys.argv[1]))
print('property %s: %s' % (d['property'], d['what']))
tmp = os.path.join(mkdirs('tmp'), 'replay-%d' % os.getpid())
rc = 1
if d['type'] == 'compile':
    print(d['errors'])
    try:
        binary(d['component'])
        rc = 0
    except CompileFail as e:
        print(e)
elif d['type'] == 'types':
    open(tmp + '.cpp', 'w').write(d['source'])
    rc, out, err = run(d['source'].split('\n')[0][3:].split() + ['-O0', '-w', '-I' + REPO, tmp + '.cpp', '-o', tmp])
    print('\n'.join(l for l in err.splitlines() if 'error' in l)[:2000])
    if rc == 0:
        rc, out, err = run([tmp])
        print(out)
    os.unlink(tmp + '.cpp')
elif d['type'] == 'walk':
    open(tmp, 'w').write(d['graph'] or '')
    print('history:', ' '.join(d['ops']))
    rc, out, err = run([binary(d['component']), 'replay', '--graph', tmp, '--config', d['config']] + walk_args(d['kinds'], None))
    print(out + err)
elif d['type'] == 'trace':
    ops = []
    for l in d['lines']:
        e = json.loads(l)
        ops.append(' '.join([e['op']] + [str(a) for a in e['args']]))
    if d.get('pending'):
        ops.append(d['pending'])
    open(tmp, 'w').write('\n'.join(ops) + '\n')
    t = Trace(d['module'], d['component'], d['config'], d['consts'], w=d.get('w', 1))
    st, fails = record(t, tmp + '.nd', 0, 1, d['kinds'], opsfile=tmp)
    print(st, fails)
    ok, ln, txt = judge(d['module'], d['consts'], tmp + '.nd') if os.path.getsize(tmp + '.nd') else (True, 0, '')
    print('accepted' if ok else 'rejected at line %d: %s' % (ln, txt))
    rc = 0 if ok and not fails else 1
    os.unlink(tmp + '.nd')
else:
    print(json.dumps(d, indent=1)[:4000])
if os.path.exists(tmp):
    os.unlink(tmp)
print('still fails' if rc else 'does not fail any more')
sys.exit(1 if rc else 0)
