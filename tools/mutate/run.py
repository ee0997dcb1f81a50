#!/usr/bin/env python3
"""run.py OUT.jsonl WORKERS CASES FILE...: plants every small change of FILEs (of /repo), one at a time, in scratch copies,
runs the stable tests and then every check for a few cases, and appends what happened. An aid for finding gaps."""
import sys, os, json, subprocess, threading, random, shutil, time
out, workers, cases, files = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4:]
VERIF = os.environ.get('MVERIF', '/verif')
BASE = '/tmp/mt'
os.makedirs(BASE, exist_ok=True)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d['file'], d['from'], d['to'], d['op'], d['new']))
ms = [json.loads(l) for l in subprocess.check_output(['/tmp/mutate'] + files, cwd='/repo', text=True).splitlines()]
ms = [m for m in ms if (m['file'], m['from'], m['to'], m['op'], m['new']) not in done]
random.Random(7).shuffle(ms)
lock = threading.Lock()
PREF = {'internal/protoc/downloader.go': ['C01', 'C03', 'C02', 'C04', 'C16'], 'internal/protoc/compiler.go': ['C05', 'C17', 'C06', 'C07', 'C09'],
        'internal/grpc': ['C11', 'C12'], 'internal/file': ['C10', 'C08', 'C16'], 'internal/create': ['C15'], 'internal/git': ['C14', 'C07'],
        'internal/cfginit': ['C15'], 'internal/exec': ['C18', 'C16', 'C14', 'C13', 'C19', 'C11', 'C10', 'C08', 'C07'], 'internal/cmd': ['C13', 'C12', 'C19']}
ALL = ['C%02d' % i for i in range(1, 20)]
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', HOME='/root')
tenv = dict(env, PROTOTOOL_PROTOC_BIN_PATH='/usr/bin/protoc', PROTOTOOL_PROTOC_WKT_PATH='/usr/include')

def tests(w):
    try:
        r = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '2m', '-skip', '^TestDownload$', './...'], cwd=w, env=tenv, capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return 'timeout'
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('Action') == 'pass' and d.get('Test'): ok.add(d['Package'] + '/' + d['Test'])
    miss = stable - ok
    return '' if not miss else sorted(miss)[0]

def one(w, i, m):
    p = w + '/' + m['file']
    src = open('/repo/' + m['file'], 'rb').read()
    open(p, 'wb').write(src[:m['from']] + m['new'].encode() + src[m['to']:])
    try:
        if subprocess.run(['go', 'build', './...'], cwd=w, env=env, capture_output=True).returncode: return 'nobuild'
        t = tests(w)
        if t: return 'test ' + t
        b = BASE + '/b%d' % i
        r = subprocess.run(['bash', VERIF + '/build.sh', b], env=dict(env, VERIF_REPO=w), capture_output=True, text=True)
        if r.returncode: return 'nosim ' + r.stderr[-300:]
        pref = next((v for k, v in PREF.items() if m['file'].startswith(k)), [])
        for prop in pref + [x for x in ALL if x not in pref]:
            try:
                r = subprocess.run([b + '/sim', 'check', '-prop', prop, '-tier', 'quick', '-evidence', b + '/e.json', '-replays', b + '/rp', '-seed', '1', '-count', cases, '-j', '2', '-nomin'],
                                   cwd=VERIF, env=env, capture_output=True, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                return 'hang ' + prop
            if r.returncode == 1:
                l = [x for x in r.stdout.splitlines() if x][:2]
                return 'caught ' + prop + ' ' + ' | '.join(l)[:300]
            if r.returncode != 0: return 'error %s %d %s' % (prop, r.returncode, (r.stdout + r.stderr)[-300:])
        return 'SURVIVED'
    finally:
        open(p, 'wb').write(src)

def work(i):
    w = BASE + '/w%d' % i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + w + ' && git -C ' + w + ' init -q .', shell=True)
    while not os.path.exists(BASE + '/stop'):
        with lock:
            if not ms: return
            m = ms.pop()
        t0 = time.time()
        m['res'] = one(w, i, m); m['t'] = round(time.time() - t0, 1)
        with lock:
            open(out, 'a').write(json.dumps(m) + '\n')
ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
