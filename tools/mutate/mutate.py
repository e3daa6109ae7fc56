#!/usr/bin/env python3
"""Measures what the checks notice: makes small changes at random places of the library's code in scratch copies, runs
the harnesses of the properties concerned on each, and lists the changes that nobody noticed.
   mutate.py OUT.jsonl PER_FILE [file-regex] [seed]      (scratch: /tmp/w/mut)
   MUT_REPO=DIR: mutate a copy of /repo.  MUT_AGAIN=OLD.jsonl: only what survived an earlier run."""
import sys, os, re, json, random, subprocess, shutil, multiprocessing as mp, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, V + '/meta'); sys.path.insert(0, HERE)
import checks
from filemap import MAP
R = os.environ.get('MUT_REPO', '/repo'); W = os.environ.get('MUT_DIR', '/tmp/w/mut'); N = int(os.environ.get('MUT_WORKERS', '8')); CFG = os.environ.get('MUT_CFG', 'm64'); FRAC = float(os.environ.get('MUT_FRAC', '0.12'))

SWAP = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<>\-=!])<(?![<=])', '<='), (r'(?<![<>\-=])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='),
        (r'&&', '||'), (r'\|\|', '&&'), (r'(?<![&])&(?![&=])(?=\s)', '|'), (r'(?<![|])\|(?![|=])', '&'), (r'(?<=\s)\+(?=\s)', '-'), (r'(?<=[\s\w)])-(?=\s)', '+'),
        (r'\+\+', '--'), (r'--', '++'), (r'\+=', '-='), (r'-=', '+='), (r'\|=', '='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<=\s)\*(?=\s)', '/'), (r'<<', '>>'), (r'>>', '<<'),
        (r'\bstrict_min\b', 'strict_max'), (r'\bstrict_max\b', 'strict_min'), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\buint32_t\b', 'uint8_t'), (r'\buint16_t\b', 'uint8_t'), (r'\bint32_t\b', 'int16_t'), (r'\bint64_t\b', 'int32_t'), (r'\buint64_t\b', 'uint32_t')]

if os.environ.get('MUT_TYPES'):   # Only narrower integers (8: to a byte, 16: to two).
    n8 = os.environ['MUT_TYPES'] == '8'
    SWAP = [(r'\buint32_t\b', 'uint8_t' if n8 else 'uint16_t'), (r'\bunsigned int\b', 'uint8_t' if n8 else 'uint16_t'), (r'\bsize_t\b', 'uint8_t' if n8 else 'uint16_t'), (r'(?<!unsigned )(?<!long )\bint\b', 'int8_t' if n8 else 'int16_t'), (r'\bint32_t\b', 'int8_t' if n8 else 'int16_t'), (r'\buint64_t\b', 'uint32_t'), (r'\bint64_t\b', 'int32_t'), (r'\bdouble\b', 'float')]
    if n8: SWAP += [(r'\buint16_t\b', 'uint8_t'), (r'\bint16_t\b', 'int8_t'), (r'\bunsigned short\b', 'uint8_t'), (r'\bPixUInt\b', 'uint8_t')]

def code_lines(text):
    """Blanks comments and string literals, keeping positions."""
    def blank(m): return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'', blank, text, flags=re.S)

def sites(path, text):
    c = code_lines(text); out = []; pos = 0; skip = 0
    for ln, line in enumerate(c.split('\n')):
        s = line.strip()
        if s.startswith('#') or not s or s.startswith('template') or s.startswith('class ') or s.startswith('typedef') or s.startswith('private') or s.startswith('public'):
            pos += len(line) + 1; continue
        for rx, to in SWAP:
            for m in re.finditer(rx, line):
                a = line[m.start():m.end()]
                if '<' in a or '>' in a:
                    if re.search(r'\w<\s*[\w\s\*:,]*>', line) and not re.search(r'\bif\b|while|for|return', line): continue   # template arguments
                    if a == '>' and re.search(r'<\w[\w\s\*]*$', line[:m.start()]): continue
                    if a == '<' and re.match(r'\w[\w\s\*]*>', line[m.end():]): continue
                out.append((ln, pos + m.start(), pos + m.end(), to))
        if os.environ.get('MUT_TYPES'): pos += len(line) + 1; continue
        for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])', line):
            t = m.group(1); v = int(t, 0); out.append((ln, pos + m.start(), pos + m.end(), str(v + 1)))
            if v > 1: out.append((ln, pos + m.start(), pos + m.end(), str(v - 1)))
        if s.endswith(';') and re.match(r'[\w>\-\.\*\(\)\[\]]+(\s*[-+|&^]?=[^=]|\(|\+\+|--|->|\.)', s) and not re.match(r'return|case|const|static|extern|virtual|inline|delete\b|for|while|if|[\w:]+\s+\w+', s):
            i = pos + line.index(s); out.append((ln, i, i + len(s), ';'))   # a statement dropped
            out.append((ln, i, i + len(s), ';'))
        m = re.search(r'\bif \((.*)\)\s*\{?', line)
        if m and line.count('(') == line.count(')'):
            out.append((ln, pos + m.start(1), pos + m.end(1), 'false')); out.append((ln, pos + m.start(1), pos + m.end(1), 'true'))
        m = re.search(r'\breturn ([^;]+);', line)
        pos += len(line) + 1
    return out

def sh(cmd, t=None):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(cmd, 124, str(e.stdout)[-300:], '')

def build(w, prop):
    return sh(['make', '-s', '-f', V + '/harness/Makefile', '-j1', 'REPO=%s/%d/repo' % (W, w), 'B=%s/%d/b' % (W, w), 'CFG=' + CFG, 'H=' + prop, '%s/%d/b/%s' % (W, w, prop)], 400)

def worker(w, q, out):
    base = '%s/%d' % (W, w); 
    while True:
        task = q.get()
        if task is None: return
        f, props, muts = task; p = base + '/repo/src/' + f; orig = open(R + '/src/' + f).read()
        for ln, a, b, to in muts:
            new = orig[:a] + to + orig[b:]
            open(p, 'w').write(new); rec = {'file': f, 'line': ln + 1, 'from': orig.split('\n')[ln].strip(), 'to': new.split('\n')[ln].strip(), 'a': a, 'b': b, 'by': to}
            t = time.time(); rec['result'] = 'survived'
            for prop in props:
                r = build(w, prop)
                if r.returncode: rec['result'] = 'nobuild'; break
                n = max(200, int(checks.CHECKS[prop]['quick'] * FRAC))
                r = sh(['%s/b/%s' % (base, prop), '--seed', '7', '--count', str(n), '--cpu', '20'], 240)
                if r.returncode: rec['result'] = 'killed'; rec['prop'] = prop; rec['key'] = r.stdout.strip().split('\n')[-1][:80]; break
            rec['s'] = round(time.time() - t, 1); out.put(rec)
        open(p, 'w').write(orig)

def main():
    outf, per, rx, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else '.', int(sys.argv[4]) if len(sys.argv) > 4 else 1
    rnd = random.Random(seed); tasks = []
    for w in range(N):
        d = '%s/%d' % (W, w); os.makedirs(d + '/b', exist_ok=True); shutil.rmtree(d + '/repo', ignore_errors=True); os.makedirs(d + '/repo'); subprocess.run(['cp', '-a', R + '/src', d + '/repo/src'])
    for f, props in MAP.items():
        if not re.search(rx, f): continue
        ss = sites(f, open(R + '/src/' + f).read()); n = min(len(ss), per if per < 1000 else len(ss)); pick = rnd.sample(ss, n); pick.sort()
        for i in range(0, n, 12): tasks.append((f, props, pick[i:i + 12]))
    old = os.environ.get('MUT_AGAIN')   # Only what survived an earlier run.
    if old:
        tasks = []; by = {}
        for l in open(old):
            x = json.loads(l)
            if x['result'] != 'survived' or x['file'] not in MAP or not re.search(rx, x['file']): continue
            o = open(R + '/src/' + x['file']).read()
            if o.split('\n')[x['line'] - 1].strip() == x['from'] and (o[:x['a']] + x['by'] + o[x['b']:]).split('\n')[x['line'] - 1].strip() == x['to']: by.setdefault(x['file'], []).append((x['line'] - 1, x['a'], x['b'], x['by']))
        for f, ms in by.items():
            for i in range(0, len(ms), 6): tasks.append((f, MAP[f], ms[i:i + 6]))
    seen = set()
    if os.path.exists(outf):
        for l in open(outf): x = json.loads(l); seen.add((x['file'], x['a'], x['b'], x['by']))
    tasks = [(f, p, [m for m in ms if (f, m[1], m[2], m[3]) not in seen]) for f, p, ms in tasks]
    rnd.shuffle(tasks); total = sum(len(t[2]) for t in tasks); print(total, 'mutants', flush=True)
    q, out = mp.Queue(), mp.Queue()
    for t in tasks: q.put(t)
    for w in range(N): q.put(None)
    ps = [mp.Process(target=worker, args=(w, q, out)) for w in range(N)]
    for p in ps: p.start()
    with open(outf, 'a') as o:
        for i in range(total):
            rec = out.get(); o.write(json.dumps(rec) + '\n'); o.flush()
    for p in ps: p.join()
main()
