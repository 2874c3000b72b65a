#!/usr/bin/env python3
"""plant.py SPEC.py [--check] : confirm planted bugs in scratch copies and write them to seeded/.

SPEC.py defines BUGS = [dict(id=, property=, edits=[(file, old, new), ...], needs=, breaks=, demo=<python source>)].
For each: scratch copy of /repo, edits applied, stable tests must pass, demo must pass before and fail after,
removed lines must come from the original repository.  --check also runs the property's check on the scratch copy."""
import sys, os, json, subprocess, shutil, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'e841d9b'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, MPLBACKEND='agg', MPLCONFIGDIR='/opt/vp/cache/mpl', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds for the demonstrated case
export MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=ENV, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def one(b, check):
    sid = b['id']
    scr = '/tmp/plant_%s' % sid
    if os.path.exists(scr):
        shutil.rmtree(scr)
    sh(['cp', '-a', '/repo', scr], '/')
    d = os.path.join(HERE, 'seeded', sid)
    tmpd = '/tmp/plantdemo_%s' % sid
    os.makedirs(tmpd, exist_ok=True)
    open(tmpd + '/demo.sh', 'w').write(DEMO_SH)
    open(tmpd + '/demo.py', 'w').write(b['demo'])
    try:
        r0 = sh(['bash', tmpd + '/demo.sh'], scr)
        if r0.returncode != 0:
            return sid, 'DEMO FAILS UNCHANGED\n' + r0.stdout[-1500:]
        for f, old, new in b['edits']:
            p = os.path.join(scr, f)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, 'edit matches %d times in %s' % (s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], scr).stdout
        # blame removed lines
        base_lines = {}
        bad = []
        for f in set(e[0] for e in b['edits']):
            bl = sh(['git', 'show', BASE + ':' + f], scr).stdout.splitlines()
            dd = sh(['git', 'diff', '-U0', '--', f], scr).stdout.splitlines()
            blame = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', f], scr).stdout.splitlines()
            import re
            for l in dd:
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    for k in range(a, a + n):
                        c = blame[k - 1].split()[0].lstrip('^')
                        if not c.startswith(BASE):
                            anc = sh(['git', 'merge-base', '--is-ancestor', c, BASE], scr).returncode
                            if anc != 0:
                                bad.append((f, k, blame[k - 1]))
        r1 = sh(['bash', tmpd + '/demo.sh'], scr)
        if r1.returncode == 0:
            return sid, 'DEMO PASSES WITH BUG\n' + r1.stdout[-800:]
        xml = tmpd + '/report.xml'
        t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '3', '--dist', 'loadfile', '--timeout=300', '-W', 'ignore',
                '--tb=short', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + xml, 'GPyOpt/testing'], scr)
        sh(['python3', '/opt/vp/results.py', tmpd + '/out.json', 'junit:' + xml], scr)
        got = set(json.load(open(tmpd + '/out.json'))['passed'])
        miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - got
        if miss:
            return sid, 'TESTS FAIL: %s' % sorted(miss)[:5]
        cc = sh([PY, '-m', 'compileall', '-q', 'GPyOpt'], scr)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        shutil.copy(tmpd + '/demo.sh', d); shutil.copy(tmpd + '/demo.py', d)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        msg = 'kept' + (' [WARNING touches fix lines %s]' % bad if bad else '') + ' demo: ' + r1.stdout.strip().splitlines()[-1][:160]
        if check:
            props = [b['property']] + list(b.get('also', []))
            for pr in props:
                env = dict(ENV, GPYOPT_REPO=scr, SYMX_EVIDENCE=tmpd)
                c = sh(['bash', os.path.join(HERE, 'check.sh'), pr], HERE, env)
                viol = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
                msg += '\n    %s rc=%d %s' % (pr, c.returncode, (viol or c.stdout.splitlines()[-3:])[:2])
        return sid, msg
    finally:
        shutil.rmtree(scr, ignore_errors=True)
        shutil.rmtree(tmpd, ignore_errors=True)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    bugs = [b for b in spec['BUGS'] if not only or b['id'] in only]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        for sid, msg in ex.map(lambda b: one(b, '--check' in sys.argv), bugs):
            print('%-34s %s' % (sid, msg), flush=True)


main()
