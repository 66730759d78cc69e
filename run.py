#!/usr/bin/env python3
"""Check one property by deterministic simulation.

  run.py PROPERTY              search (VERIF_TIER quick|thorough, VERIF_SEED), writes evidence/PROPERTY.json
  run.py --replay FILE [-v]    rebuild the simulator from /repo and replay a recorded violation
  run.py --seed PROPERTY SEED  rebuild and run one seed, printing its history

Exit 0: held on everything explored; 1: violation (line VIOLATION property=.. replay=..); 2: the check itself failed.
"""
import array, glob, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
ASYNC = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06']
SYNC = ['C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C20', 'C21']
import engines

def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace', **kw)

def parse_fail(line):
    m = re.match(r'(FAIL|PASS) (?:seed=(\d+) )?class=(\S*) (?:faulty=(\d) )?hash=(\S+) ?(?:text=(.*))?$', line)
    if not m: return None
    return dict(bad=m.group(1) == 'FAIL', seed=int(m.group(2) or 0), cls=m.group(3), faulty=m.group(4) == '1', hash=m.group(5), text=m.group(6) or '')

def last_fail(out):
    for l in reversed(out.splitlines()):
        r = parse_fail(l)
        if r: return r
    return None

def run_one(binary, args, timeout=120):
    try:
        p = sh([binary] + args, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(bad=True, seed=0, cls='hang', faulty=False, hash='0', text='no answer within %d s' % timeout)
    r = last_fail(p.stdout)
    if r is None:
        return dict(bad=True, seed=0, cls='crash', faulty=False, hash='0', text='the simulation ended with code %d: %s' % (p.returncode, summarise(p.stdout)))
    return r

def summarise(out):
    m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)', out)
    if m: return 'AddressSanitizer: ' + m.group(1)[:160]
    lines = [l for l in out.splitlines() if l.strip()]
    return lines[-1][:200] if lines else ''

class Worker:
    def __init__(self, binary, prop, start, stride, deadline, hashfile, log):
        self.binary, self.prop, self.next, self.stride, self.deadline, self.hashfile, self.log = binary, prop, start, stride, deadline, hashfile, log
        self.proc = None; self.stats = []; self.fails = []; self.other = {}; self.done = False; self.restarts = 0
    def start(self):
        left = self.deadline - time.time()
        if left < 0.5 or self.restarts > 3000: self.done = True; return
        self.restarts += 1
        self.out = open(self.log, 'w+')
        self.began = time.time()
        self.proc = subprocess.Popen([self.binary, 'batch', self.prop, str(self.next), str(self.stride), '%.2f' % left, '0', self.hashfile],
                                     stdout=self.out, stderr=subprocess.STDOUT)
    def poll(self, engine):
        """returns a failure that counts for this property, or None"""
        if self.done: return None
        if self.proc is None: self.start(); return None
        rc = self.proc.poll()
        if rc is None:
            if time.time() > self.deadline + 45:
                self.proc.kill(); self.proc.wait(); rc = -9
            else: return None
        self.out.seek(0); text = self.out.read(); self.out.close(); self.proc = None
        seed = None; fail = None
        for l in text.splitlines():
            if l.startswith('STATS '): self.stats.append(json.loads(l[6:]))
            elif l.startswith('SEED '): seed = int(l[5:])
            elif l.startswith('FAIL '): fail = parse_fail(l) or fail
        if rc == 0 and fail is None: self.done = True; return None
        if fail is None:
            # died: the seed that was running was announced in the progress file
            try: seed = int(open(self.hashfile + '.seed').read().split()[0])
            except Exception: seed = None
            if seed is None: raise RuntimeError('simulation ended with code %d without an answer: %s' % (rc, text[-2000:]))
            fail = dict(bad=True, seed=seed, cls='crash', faulty=True, hash='0', text='the simulation ended with code %d: %s' % (rc, summarise(text)))
        self.next = fail['seed'] + self.stride
        if self.prop in engine.properties_of(fail): self.done = True; return fail
        key = fail['cls']; self.other.setdefault(key, (fail['seed'], fail['text']))
        self.start(); return None

def known_findings(prop):
    res = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'finding: property=(\S+) class=(\S+) replay=(\S+) (.*)$', l)
        if m and m.group(1) == prop: res.append({'class': m.group(2), 'replay': m.group(3), 'what': m.group(4)})
    return res

def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    engine = engines.Async() if prop in ASYNC else engines.Sync()
    bdir = os.path.join(HERE, 'build', '%s-%d' % (prop, os.getpid()))
    os.makedirs(bdir, exist_ok=True); os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True); os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    try:
        binary, notes = engine.build(REPO, bdir, JOBS, prop, tier, seed)
        tbuild = time.time() - t0
        budget = engine.budget(prop, tier)
        if os.environ.get('VERIF_SECONDS'): budget = float(os.environ['VERIF_SECONDS'])
        deadline = time.time() + budget
        base = seed * 1000000000
        ws = [Worker(binary, prop, base + i, JOBS, deadline, os.path.join(bdir, 'hash%d' % i), os.path.join(bdir, 'log%d' % i)) for i in range(JOBS)]
        fails = []; tsearch = time.time(); asked = {}; other = {}
        while not all(w.done for w in ws):
            for w in ws:
                f = w.poll(engine)
                if not f: continue
                if prop not in engine.strict(f):
                    # counts only if an earlier operation is needed to bring it about
                    if asked.get(f['cls'], 0) >= 1 or len(asked) >= 5 or not needs_history(engine, binary, prop, f, bdir):
                        asked[f['cls']] = asked.get(f['cls'], 0) + 1
                        other.setdefault(f['cls'], (f['seed'], f['text'])); w.done = False; continue
                fails.append(f)
            if fails: break
            time.sleep(0.03)
        for w in ws:
            if w.proc:
                w.proc.kill(); w.proc.wait()
        tsearch = time.time() - tsearch
        known = known_findings(prop); knownlines = []
        for k in known:
            r = run_one(binary, ['replay', os.path.join(HERE, k['replay'])])
            if r['bad'] and r['cls'] == k['class']:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                knownlines.append(k['what'])
        rc = 0; replay = None; verdict = []
        if fails:
            f = min(fails, key=lambda x: x['seed'])
            replay = report(engine, binary, prop, f, bdir, notes)
            print('violated: [%s] %s (seed %d)' % (f['cls'], f['text'], f['seed']))
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            rc = 1
        for w in ws:
            for k, v in w.other.items(): other.setdefault(k, v)
        for k, v in sorted(other.items()):
            print('note: a run showed [%s] %s (seed %d), which breaks another property, not %s' % (k, v[1], v[0], prop))
        evidence(engine, prop, tier, seed, ws, bdir, binary, t0, tbuild, tsearch, rc, notes, other, knownlines, base)
        return rc
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def needs_history(engine, binary, prop, f, bdir):
    raw = os.path.join(bdir, 'ask.plan'); small = os.path.join(bdir, 'asked.plan')
    for x in (raw, small):
        if os.path.exists(x): os.unlink(x)
    try:
        sh([binary, 'dump', prop, str(f['seed']), raw], timeout=120); sh([binary, 'minimise', raw, small, '12'], timeout=100)
    except subprocess.TimeoutExpired: return False
    if not os.path.exists(small): return False
    r = run_one(binary, ['replay', small])
    return r['bad'] and prop in engine.properties_of(r)

def report(engine, binary, prop, f, bdir, notes):
    """same seed twice in fresh processes, then the plan, its minimisation and two fresh replays"""
    seed = f['seed']; out = []
    a = run_one(binary, ['one', prop, str(seed)]); b = run_one(binary, ['one', prop, str(seed)])
    out.append('seed %d run twice in fresh processes: %s %s / %s %s' % (seed, a['cls'], a['hash'], b['cls'], b['hash']))
    same = a['bad'] and b['bad'] and a['cls'] == b['cls'] and (a['hash'] == b['hash'])
    path = os.path.join(HERE, 'replays', '%s-%d.plan' % (prop, seed))
    raw = os.path.join(bdir, 'raw.plan'); small = os.path.join(bdir, 'small.plan')
    sh([binary, 'dump', prop, str(seed), raw], timeout=120)
    try:
        p = sh([binary, 'minimise', raw, small, '40'], timeout=200)
        out.append(p.stdout.strip()[-300:])
    except subprocess.TimeoutExpired:
        out.append('minimisation timed out')
    use = small if os.path.exists(small) else raw
    r1 = run_one(binary, ['replay', use]); r2 = run_one(binary, ['replay', use])
    if use == small and not (r1['bad'] and prop in engine.properties_of(r1)):
        use = raw; r1 = run_one(binary, ['replay', use]); r2 = run_one(binary, ['replay', use])
    out.append('replayed twice in fresh processes: %s %s / %s %s' % (r1['cls'], r1['hash'], r2['cls'], r2['hash']))
    if not same: out.append('WARNING: the seed did not repeat exactly')
    body = open(use, errors='replace').read() if os.path.exists(use) else ''
    with open(path, 'w') as fo:
        for l in out: fo.write('# ' + l.replace('\n', ' | ') + '\n')
        fo.write('# replay with: %s --replay %s\n' % (os.path.join(HERE, 'run.py'), path))
        fo.write(body)
    for l in out: print('  ' + l)
    return path

def evidence(engine, prop, tier, seed, ws, bdir, binary, t0, tbuild, tsearch, rc, notes, other, known, base):
    tot = {}
    for w in ws:
        for s in w.stats:
            for k, v in s.items():
                if isinstance(v, dict):
                    d = tot.setdefault(k, {})
                    for kk, vv in v.items(): d[kk] = d.get(kk, 0) + vv
                elif k != 'wall': tot[k] = tot.get(k, 0) + v
    seen = set()
    for f in glob.glob(os.path.join(bdir, 'hash?')) + glob.glob(os.path.join(bdir, 'hash??')):
        a = array.array('Q'); n = os.path.getsize(f) // 8
        with open(f, 'rb') as fh: a.fromfile(fh, n)
        seen.update(a)
    samples = []
    if rc == 0:
        for s in (base, base + 1):
            sp = os.path.join(bdir, 'sample.plan'); sh([binary, 'dump', prop, str(s), sp], timeout=120)
            if os.path.exists(sp):
                t = open(sp).read(); samples.append({'seed': s, 'plan': t[:3000]}); os.unlink(sp)
    runs = tot.get('runs', 0)
    cov = dict(evaluations=runs, distinct_nontrivial=len(seen), rule=engine.rule(prop), samples=samples or [{'note': 'see the replay file'}],
               seeds=tot.get('seeds', 0), runs_per_hour=int(runs / tsearch * 3600) if tsearch else 0, seeds_per_hour=int(tot.get('seeds', 0) / tsearch * 3600) if tsearch else 0,
               build_s=round(tbuild, 1), search_s=round(tsearch, 1), measured=tot)
    cov.update(engine.coverage(prop, tot, notes))
    if other: cov['runs_failing_for_other_properties'] = {k: v[1] for k, v in other.items()}
    if known: cov['known_findings'] = known
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='exploration', coverage=cov, assumptions=engine.assumptions(prop),
              wall_s=round(time.time() - t0, 1), violations=1 if rc else 0)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fo: json.dump(ev, fo, indent=1)
    print('%s: %s; %d runs (%d distinct) in %.0f s, build %.0f s' % (prop, 'VIOLATED' if rc else 'held', runs, len(seen), tsearch, tbuild))

def with_binary(prop, only, args):
    engine = engines.Async() if prop in ASYNC else engines.Sync()
    bdir = os.path.join(HERE, 'build', 'replay-%d' % os.getpid()); os.makedirs(bdir, exist_ok=True)
    try:
        extra = dict(only=only) if only else {}
        binary, notes = engine.build(REPO, bdir, JOBS, prop, 'quick', 1, **extra)
        p = sh([binary] + args, timeout=300); print(p.stdout, end=''); return p.returncode
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(2))
    if a[0] == '--replay':
        prop = None; only = None
        for l in open(a[1]):
            if l.startswith('prop '): prop = l.split()[1]
            if l.startswith('chart '): only = [int(l.split()[1])]
        return with_binary(prop, only, ['replay', os.path.abspath(a[1])] + (['-v'] if '-v' in a else []))
    if a[0] == '--seed': return with_binary(a[1], None, ['one', a[1], a[2], '-v'])
    if a[0] not in ASYNC + SYNC: die('unknown property ' + a[0])
    try:
        return check(a[0])
    except SystemExit: raise
    except Exception as e:
        import traceback; traceback.print_exc(); die(str(e))

if __name__ == '__main__': sys.exit(main())
