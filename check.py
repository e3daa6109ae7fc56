#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01 [quick|thorough]
        replays one case:           check.py --replay C01 CFG SEED CASE [TIER]

Exit 0: held on everything explored.  Exit 1: VIOLATION.  Exit 2: no answer.
"""
import sys, os, json, subprocess, time, re, struct, fcntl, hashlib, signal, tempfile, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'meta'))
import checks as META

BUILD = os.environ.get('VF_BUILD') or os.path.join(V, 'build' if REPO == '/repo' else 'build-' + hashlib.md5(REPO.encode()).hexdigest()[:8])
REPLAY = os.environ.get('VF_REPLAY_DIR') or os.path.join(V, 'replay')
EVID = os.environ.get('VF_EVIDENCE_DIR') or os.path.join(V, 'evidence')
SHARD_WALL = {'quick': 420, 'thorough': 6000}


def build(prop, cfg, alone=True):
    b = os.path.join(BUILD, cfg)
    os.makedirs(b, exist_ok=True)
    lock = open(os.path.join(b, '.lock'), 'w')
    if alone:
        fcntl.flock(lock, fcntl.LOCK_EX)
    cmd = ['make', '-s', '-f', os.path.join(V, 'harness', 'Makefile'), '-j8' if alone else '-j1', 'REPO=' + REPO, 'B=' + b, 'CFG=' + cfg, 'H=' + prop]
    for attempt in (1, 2):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode == 0:
            break
        time.sleep(1)
    if r.returncode:
        print(r.stdout[-4000:])
        print('NO ANSWER: the build of %s/%s failed' % (prop, cfg))
        sys.exit(2)
    lock.close()
    return os.path.join(b, prop)


def short_func(f):
    f = re.sub(r'\(.*', '', f).strip()
    return re.sub(r'<.*>', '<>', f)


def classify(rc, err):
    """A stable key for an abnormal end of a shard."""
    m = re.search(r'ERROR: AddressSanitizer:? ([\w-]+)', err)
    kind = None
    if m:
        kind = 'asan:' + m.group(1)
    else:
        m = re.search(r'runtime error: ([^\n]*)', err)
        if m:
            msg = re.sub(r'-?\b\d[\w.+-]*', 'N', m.group(1))
            msg = re.sub(r"'[^']*'", 'T', msg)
            kind = 'ubsan:' + re.sub(r'\W+', '-', msg)[:60].strip('-')
    if kind is None:
        kind = 'signal:%d' % -rc if rc < 0 else 'exit:%d' % rc
    func = '?'
    for fm in re.finditer(r'^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+', err, re.M):
        if fm.group(2).startswith(REPO + '/src'):
            func = short_func(fm.group(1))
            break
    msg = ''
    mm = re.search(r'(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*)', err)
    if mm:
        msg = mm.group(1)
    return kind + '@' + func, msg or 'the process ended with %d' % rc


def load_known(prop):
    out = []
    try:
        for line in open(os.path.join(V, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) key=(\S+) where=/(.*)/ (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append({'key': m.group(2), 'rx': m.group(3), 'what': m.group(4), 'seen': 0})
    except FileNotFoundError:
        pass
    return out


class Shard:
    def __init__(self, exe, cfg, seed, tier, start, step, count, tmp, tag, cpu):
        self.exe, self.cfg, self.seed, self.tier = exe, cfg, seed, tier
        self.start, self.step, self.count = start, step, count
        self.tmp, self.tag, self.cpu = tmp, tag, cpu
        self.gen = 0
        self.proc = None
        self.done = False
        self.results = []
        self.hashes = []
        self.cmdline = None

    def launch(self):
        self.gen += 1
        base = os.path.join(self.tmp, '%s.%d' % (self.tag, self.gen))
        self.f_out, self.f_h, self.f_p, self.f_e = base + '.out', base + '.h', base + '.p', base + '.err'
        cmd = [self.exe, '--seed', str(self.seed), '--start', str(self.start), '--step', str(self.step), '--count', str(self.count),
               '--tier', self.tier, '--cpu', str(self.cpu), '--out', self.f_out, '--hashes', self.f_h, '--progress', self.f_p]
        self.t0 = time.time()
        self.proc = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(self.f_e, 'wb'), cwd=self.tmp, start_new_session=True)

    def err(self):
        try:
            with open(self.f_e, 'rb') as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 200000))
                return f.read().decode('utf-8', 'replace')
        except OSError:
            return ''

    def last(self):
        try:
            for line in reversed(open(self.f_out, encoding='utf-8', errors='replace').read().splitlines()):
                return json.loads(line)
        except (OSError, ValueError):
            pass
        return None

    def running_case(self):
        try:
            return struct.unpack('<Q', open(self.f_p, 'rb').read(8))[0] - 1
        except (OSError, struct.error):
            return -1


def run_one(exe, seed, case, tier, cpu, tmp):
    """One case by itself. Returns (rc, last record, stderr)."""
    s = Shard(exe, '', seed, tier, case, 1, 1, tmp, 'one%d' % case, cpu)
    s.launch()
    try:
        rc = s.proc.wait(timeout=cpu * 10 + 120)
    except subprocess.TimeoutExpired:
        os.killpg(s.proc.pid, signal.SIGKILL)
        rc = s.proc.wait()
    return rc, s.last(), s.err()


def main():
    if sys.argv[1] == '--replay':
        prop, cfg, seed, case = sys.argv[2:6]
        tier = sys.argv[6] if len(sys.argv) > 6 else 'quick'
        exe = build(prop, cfg)
        return subprocess.call([exe, '--seed', seed, '--start', case, '--count', '1', '--tier', tier, '--cpu', '120', '-v'])

    if sys.argv[1] == '--setup':
        # The library and framework first, with the first harness. The rest don't share anything that isn't built by then.
        from concurrent.futures import ThreadPoolExecutor
        todo = [(p, cfg) for p in sorted(META.CHECKS) for cfg in META.CHECKS[p].get('cfgs', ['m32', 'm64'])]
        first = {}
        for p, cfg in todo:
            if cfg not in first:
                first[cfg] = p
                build(p, cfg)
        with ThreadPoolExecutor(8) as ex:
            for b in [ex.submit(build, p, cfg, False) for p, cfg in todo if first[cfg] != p]:
                b.result()
        return 0

    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or '1')
    meta = META.CHECKS[prop]
    t0 = time.time()
    known = load_known(prop)
    tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    try:
        rc = explore(prop, tier, seed, meta, known, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def explore(prop, tier, seed, meta, known, tmp, t0):
    cfgs = meta.get('cfgs', ['m32', 'm64'])
    cpu = meta.get('cpu', 20)
    shards = []
    base = 0
    for cfg in cfgs:
        exe = build(prop, cfg)
        total = meta['quick'] if tier == 'quick' else meta.get('thorough', meta['quick'] * 20)
        total = max(8, total // len(cfgs)) if meta.get('split', True) else total
        nsh = meta.get('shards', 8)
        per = (total + nsh - 1) // nsh
        for i in range(nsh):
            shards.append(Shard(exe, cfg, seed, tier, base + i, nsh, per, tmp, '%s-%d' % (cfg, i), cpu))
        base += nsh * per   # Another configuration, other cases.
    pending = list(shards)
    running = []
    violations = []
    inconclusive = []
    hang_ok = 0
    deadline = t0 + SHARD_WALL[tier] + 120
    while (pending or running) and not violations:
        while pending and len(running) < 8:
            s = pending.pop(0)
            s.launch()
            running.append(s)
        time.sleep(0.02)
        for s in list(running):
            rc = s.proc.poll()
            if rc is None:
                if time.time() > deadline:
                    os.killpg(s.proc.pid, signal.SIGKILL)
                    s.proc.wait()
                    running.remove(s)
                    inconclusive.append('%s: out of wall-clock time in case %d' % (s.tag, s.running_case()))
                continue
            running.remove(s)
            rec = s.last()
            if rc == 0 and rec and rec['status'] == 'ok':
                s.results.append(rec)
                s.hashes.append(s.f_h)
                continue
            case = s.running_case()
            if rec and rec['status'] in ('fail', 'broken') and rc in (3, 4, 5):
                key, msg, log = rec['key'], rec['msg'], rec.get('log', '')
                case = rec['case']
                if rc == 5:
                    inconclusive.append('case %d: %s' % (case, msg))
                    continue
            else:
                key, msg = classify(rc, s.err())
                log = ''
            if case < 0:
                if rc == -9:
                    inconclusive.append('%s: killed' % s.tag)
                    continue
                inconclusive.append('%s: ended with %d before any case: %s' % (s.tag, rc, s.err()[-2000:]))
                continue
            if rc == -9:   # Out of memory, most likely: not the code's fault until shown.
                rc2, rec2, err2 = run_one(s.exe, seed, case, tier, cpu, tmp)
                if rc2 == -9:
                    inconclusive.append('case %d: killed twice' % case)
                    continue
                if rc2 == 0:
                    resume(s, case, pending, skip=False)
                    continue
                key, msg = classify(rc2, err2)
            if key == 'hang':
                rc2, rec2, err2 = run_one(s.exe, seed, case, tier, cpu * 2, tmp)
                if rc2 == 0:
                    hang_ok += 1
                    resume(s, case, pending, skip=True)
                    continue
            k = next((k for k in known if k['key'] == key and re.search(k['rx'], msg + '\n' + log)), None)
            if k:
                k['seen'] += 1
                resume(s, case, pending, skip=True)
                continue
            violations.append({'case': case, 'cfg': s.cfg, 'key': key, 'msg': msg, 'log': log, 'stderr': s.err()[-12000:], 'exe': s.exe})
    for s in running:
        try:
            os.killpg(s.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        s.proc.wait()

    cov = summarize(shards, meta, known, cfgs, hang_ok)
    if violations:
        os.makedirs(REPLAY, exist_ok=True)
        for v in violations[:1]:
            rc2, rec2, err2 = run_one(v['exe'], seed, v['case'], tier, cpu * 2, tmp)
            path = os.path.join(REPLAY, '%s-%s-s%d-c%d.txt' % (prop, v['cfg'], seed, v['case']))
            with open(path, 'w') as f:
                f.write('replay: python3 %s --replay %s %s %d %d %s\n' % (os.path.join(V, 'check.py'), prop, v['cfg'], seed, v['case'], tier))
                f.write('alone, the case %s\n' % ('fails again' if rc2 else 'does not fail (it needs the cases before it in its shard)'))
                f.write('oracle: %s\n%s\n\n--- events of the case (tail)\n%s\n--- stderr\n%s\n' % (v['key'], v['msg'], v['log'], v['stderr']))
            print('oracle %s: %s' % (v['key'], v['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        cov['violation'] = {k: violations[0][k] for k in ('case', 'cfg', 'key', 'msg')}
        write_evidence(prop, tier, seed, meta, cov, t0)
        return 1
    write_evidence(prop, tier, seed, meta, cov, t0)
    for k in known:
        if k['seen']:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if inconclusive:
        print('NO ANSWER: ' + '; '.join(inconclusive)[:3000])
        return 2
    if cov['distinct_nontrivial'] == 0 or cov['evaluations'] == 0:
        print('NO ANSWER: the run observed nothing')
        return 2
    missing = [c for c in meta.get('require', []) if not cov['events'].get(c)]
    if missing:
        print('NO ANSWER: the workload never reached: ' + ', '.join(missing))
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %d observed behaviours, %.1fs' % (prop, cov['evaluations'], cov['distinct_nontrivial'], cov['distinct_observed_behaviours'], time.time() - t0))
    return 0


def resume(s, case, pending, skip):
    """Goes on with the cases of a shard from CASE (or the one after it)."""
    n = (case - s.start) // s.step + (1 if skip else 0)
    left = s.count - n
    # What the ended process had covered before is counted by number only.
    s.results.append({'ran': n, 'nontrivial': 0, 'events': 0, 'counters': {}, 'samples': [], 'partial': True})
    if left > 0:
        s.start += n * s.step
        s.count = left
        pending.append(s)


def summarize(shards, meta, known, cfgs, hang_ok):
    cases, feats, ran, events = set(), set(), 0, 0
    counters, samples, rule, worst = {}, [], '', 0.0
    for s in shards:
        for r in s.results:
            ran += r['ran']
            events += r.get('events', 0)
            rule = r.get('rule', rule)
            worst = max(worst, r.get('worst_s', 0))
            for k, n in r['counters'].items():
                counters[k] = counters.get(k, 0) + n
            if len(samples) < 4:
                samples += [x[:700] for x in r['samples'][:1]]
        for h in s.hashes:
            try:
                d = open(h, 'rb').read()
                a, b = struct.unpack('<QQ', d[:16])
                v = struct.unpack('<%dQ' % (a + b), d[16:16 + 8 * (a + b)])
                cases.update(v[:a])
                feats.update(v[a:])
            except (OSError, struct.error):
                pass
    return {'evaluations': ran, 'distinct_nontrivial': len(cases), 'rule': rule or 'see DESIGN.md', 'samples': samples[:4] or ['(none completed)'],
            'monitored_events': events, 'distinct_observed_behaviours': len(feats), 'events': counters, 'configurations': cfgs,
            'slowest_case_cpu_s': worst, 'slow_cases_rerun': hang_ok,
            'known_findings_seen': {k['what']: k['seen'] for k in known}}


def write_evidence(prop, tier, seed, meta, cov, t0):
    os.makedirs(EVID, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    p = os.path.join(EVID, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())
