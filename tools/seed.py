#!/usr/bin/env python3
"""seed.py SPEC.py [ID..]: plants the bugs of SPEC.py (dicts id, prop, edits=[(file, old, new)], needs, breaks, pkgs, imports, demo)
in scratch copies of /repo, confirms that each builds, passes tests and is shown by its demonstration, runs the check of its
property against it, and keeps it in /verif/seeded."""
import sys, os, subprocess, json, shutil, concurrent.futures as cf, runpy, tempfile
V = '/verif'
spec = runpy.run_path(sys.argv[1])['SEEDS']
want = sys.argv[2:]
full = os.environ.get('FULL') == '1'
tier = os.environ.get('TIER', 'quick')
def sh(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout'
def one(s):
    d = tempfile.mkdtemp(prefix='sw', dir='/tmp')
    out = []
    try:
        w = d + '/repo'
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        for f, old, new in s['edits']:
            p = w + '/' + f
            t = open(p).read()
            if t.count(old) != 1: return s['id'] + ': edit of %s matches %d times: %r' % (f, t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        rc, o = sh('. /opt/vp/env.sh; go build ./... && go vet -tags testing ./%s 2>&1 | grep -i undefined; true' % os.path.dirname(s['edits'][0][0]), w)
        if rc: return s['id'] + ': does not build\n' + o[-1500:]
        dst = V + '/seeded/' + s['id']
        os.makedirs(dst, exist_ok=True)
        diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        open(dst + '/patch.diff', 'w').write(diff)
        shutil.copy(V + '/tools/seedlib/demo.sh', dst); shutil.copy(V + '/tools/seedlib/lib_test.go', dst)
        imps = ''.join('\t%s\n' % i for i in s.get('imports', []))
        open(dst + '/demo_test.go', 'w').write('package app_test\n\nimport (\n\t"testing"\n%s)\n\n%s\n' % (imps, s['demo'].strip()))
        sh('. /opt/vp/env.sh; gofmt -w demo_test.go', dst)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        rc, o = sh(dst + '/demo.sh', '/repo')
        out.append('clean demo %s' % ('ok' if rc == 0 else 'FAILS\n' + o[-1500:]))
        rc, o = sh(dst + '/demo.sh', w)
        out.append('patched demo %s' % ('fails' if rc and ('--- FAIL' in o or 'panic' in o) else 'PASSES/ODD\n' + o[-1500:]))
        if os.environ.get('NOTEST'): pass
        elif full:
            rc, o = sh('. /opt/vp/env.sh; go test -tags testing ./... 2>&1 | grep -v "no test files" | grep -v ^ok', w)
            out.append('tests ' + ('FAIL\n' + o[-2500:] if 'FAIL' in o else 'pass'))
        else:
            rc, o = sh('. /opt/vp/env.sh; go test -tags testing %s 2>&1 | grep -v "no test files"' % ' '.join(s.get('pkgs', ['./' + '/'.join(s['edits'][0][0].split('/')[:2]) + '/...'])), w)
            out.append('tests ' + ('FAIL\n' + o[-2500:] if 'FAIL' in o else 'pass'))
        vd = d + '/verif'; os.makedirs(vd + '/evidence')
        shutil.copytree(V + '/harness', vd + '/harness'); shutil.copy(V + '/known-findings.txt', vd)
        rc, o = sh('. /opt/vp/env.sh; %s/build/engine check -prop %s -tier %s -repo %s -verif %s 2>&1 | cut -c1-300 | tail -12' % (V, s['prop'], tier, w, vd), V)
        rcv = [l for l in o.splitlines() if l.startswith('VIOLATION') or l.startswith('counterexample')]
        out.append('check ' + ('CATCHES ' + '; '.join(rcv[:2]) if 'VIOLATION' in o else 'MISSES\n' + o[-1200:]))
        return s['id'] + ': ' + ' | '.join(out)
    except Exception as e:
        return s['id'] + ': EXC %r' % e
    finally:
        shutil.rmtree(d)
todo = [s for s in spec if not want or s['id'] in want]
with cf.ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
    for r in ex.map(one, todo): print(r, flush=True)
