"""Runs, for every planted bug (or those given), the checks of its property (and with --all every check) on a scratch copy of /repo with the bug."""
import os, sys, json, subprocess, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('-')]
every = '--all' in sys.argv
ids = args or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
scratch = '/tmp/battery_%d' % os.getpid()
missed = []
RES = os.path.join(ROOT, 'tools', 'caught.json')
for i in ids:
    d = os.path.join(ROOT, 'seeded', i)
    if not os.path.exists(os.path.join(d, 'patch.diff')):
        continue
    meta = json.load(open(os.path.join(d, 'meta.json')))
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.check_call(['cp', '-a', os.environ.get('BASE', '/repo'), scratch])
    subprocess.check_call(['git', '-C', scratch, 'checkout', '-q', '--', '.'])
    r = subprocess.run(['git', '-C', scratch, 'apply', os.path.join(d, 'patch.diff')])
    if r.returncode:
        print(i, 'DOES NOT APPLY')
        continue
    out = []
    for c in (['C%02d' % k for k in range(1, 25)] if every else [meta['property']]):
        t = time.time()
        p = subprocess.run([os.path.join(ROOT, 'check.sh'), c], env=dict(os.environ, GPYOPT_REPO=scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = p.returncode == 1 and ('VIOLATION property=%s ' % c) in p.stdout
        out.append((c, hit, p.returncode, time.time() - t, [l for l in p.stdout.splitlines() if l.startswith('violated')][:2]))
    hits = [o[0] for o in out if o[1]]
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    res.setdefault(i, {}).update({o[0]: (o[4][0][10:110].split(' in ')[0] if o[4] else 'yes') if o[1] else '' for o in out})
    with open(RES, 'w') as f:
        json.dump(res, f, indent=1, sort_keys=True)
    own = [o for o in out if o[0] == meta['property']][0]
    print('%-32s %s %s rc=%d %.0fs %s' % (i, meta['property'], 'caught' if own[1] else 'MISSED', own[2], own[3], (hits if every else '') or ''), [x[:110] for x in own[4]], flush=True)
    if not own[1]:
        missed.append(i)
shutil.rmtree(scratch, ignore_errors=True)
print('missed:', missed)
