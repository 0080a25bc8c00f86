"""Shared machinery of the checks: building drivers from /repo, running them, validating the
traces they record against the TLA+ specifications with TLC, shrinking what is rejected."""
import os, sys, json, re, subprocess, shutil, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = VERIF + '/spec'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = min(8, os.cpu_count() or 8)
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=23:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0:fast_unwind_on_fatal=1',
           UBSAN_OPTIONS='print_stacktrace=0:symbolize=0', TSAN_OPTIONS='exitcode=24:halt_on_error=1')

class ToolError(Exception): pass
class BuildError(Exception): pass

_work = None
def work():
    """scratch directory of this run, removed at exit"""
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='vf.', dir=os.environ.get('TMPDIR', '/tmp'))
        import atexit; atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work

def pmap(f, items, n=None):
    items = list(items)
    if not items: return []
    with ThreadPoolExecutor(n or CORES) as ex: return list(ex.map(f, items))

# ------------------------------------------------------------------ building
_built = {}
def build(src, flags=(), name=None, san=True, cxx='g++', std='c++17', libs=(), opt='-O0', extra_src=()):
    """compile harness/SRC against /repo/include; returns the path of the program"""
    key = (src, tuple(flags), san, cxx, std, tuple(libs), opt)
    if key in _built: return _built[key]
    h = hashlib.md5(repr(key).encode()).hexdigest()[:8]
    out = '%s/%s.%s' % (work(), os.path.basename(src).split('.')[0], h)
    cmd = [cxx, '-std=' + std, '-g1', opt, '-w', '-pthread'] + (SAN if san is True else list(san or [])) + \
          ['-I' + VERIF + '/harness/shim', '-I' + REPO + '/include', '-I' + VERIF + '/harness'] + list(flags) + \
          [VERIF + '/harness/' + src] + [VERIF + '/harness/' + x for x in extra_src] + ['-o', out] + list(libs)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        t = out + '.t.cpp'; open(t, 'w').write('#include <boost/shared_ptr.hpp>\n#include <functional>\nint main(){boost::shared_ptr<int> p(new int(0)); return *p;}\n')
        q = subprocess.run([cxx, '-std=' + std, t, '-o', out] + (SAN if san is True else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode: raise ToolError('compiler not usable:\n' + q.stdout[-1500:])
        e = BuildError(src); e.log = ' '.join(cmd) + '\n' + p.stdout[:4000]; raise e
    _built[key] = out
    return out

# ------------------------------------------------------------------ running
def classify_exit(rc, err):
    if rc == 0: return None
    m = re.search(r'(AddressSanitizer|ThreadSanitizer|runtime error|LeakSanitizer)[^\n]*', err)
    if rc == 23 or 'AddressSanitizer' in err: return 'asan: ' + (m.group(0) if m else '')[:160]
    if rc == 24 or 'ThreadSanitizer' in err: return 'tsan: ' + (m.group(0) if m else '')[:160]
    if 'runtime error' in err: return 'ubsan: ' + m.group(0)[:160]
    if 'terminate called' in err: return 'terminate: ' + err[err.find('terminate called'):][:120].replace('\n', ' ')
    return 'exit %d: %s' % (rc, err[-120:].replace('\n', ' '))

def run_driver(prog, out, args, total=None, timeout=120, firstkey='first='):
    """run PROG ARGS writing events to OUT; if it dies, log a crash event and go on with the next program"""
    first = hangs = 0
    for attempt in range(40):
        a = list(args) + ([firstkey + str(first)] if first else [])
        try:
            p = subprocess.run([prog] + a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=ENV)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, err = 124, 'timeout'
        if rc == 0: return
        if rc == 2: raise ToolError('driver usage: %s %s' % (prog, a))
        why = classify_exit(rc, err)
        lines = open(out, errors='replace').read().split('\n') if os.path.exists(out) else []
        if lines and lines[-1]:            # torn last line
            try: json.loads(lines[-1])
            except ValueError: lines[-1] = ''
        lines = [x for x in lines if x]
        if not (rc in (3, 4) and lines and re.search(r'"e":"(deadlock|hang)"', lines[-1])):
            lines.append(json.dumps({'e': 'crash', 't': 1, 'h': 0, 'why': why}, separators=(',', ':')))
        open(out, 'w').write('\n'.join(lines) + '\n')
        n = None
        for x in reversed(lines):
            if '"e":"reset"' in x: n = json.loads(x).get('prog'); break
        if n is None: raise ToolError('driver died at once: %s %s: %s' % (prog, a, why))
        first = n + 1
        if total is not None and first >= total: return
        if rc in (3, 4, 124):
            hangs += 1
            if hangs >= 2: return

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, env=None, workers=1, timeout=600, heap='2g', extra=(), cwd=SPEC, simulate=None):
    md = tempfile.mkdtemp(prefix='md.', dir=work())
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=%d' % (1 if workers == 1 else 4),
           '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', md, '-config', cfg] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''); rc = -1
    shutil.rmtree(md, ignore_errors=True)
    return rc, out

def tlc_counts(out):
    m = None
    for m in re.finditer(r'(\d[\d,]*) states generated[^,]*, (\d[\d,]*) distinct', out): pass
    if not m: return 0, 0
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))

def validate1(module, cfg, trace_path, timeout=300):
    """(reached, length, states, transitions, note): accepted iff reached == length + 1"""
    n = sum(1 for _ in open(trace_path))
    rc, out = tlc(module, cfg, env={'TRACE': trace_path}, timeout=timeout)
    if 'StackOverflowError' in out or 'OutOfMemoryError' in out: raise ToolError('TLC ran out of stack or memory on %s (%d events)' % (module, n))
    gen, dist = tlc_counts(out)
    m = re.search(r'"REACHED", (\d+), "OF", (\d+)', out)
    if m:
        r = int(m.group(1))
        if 'No error has been found' in out: return r, n, dist, gen, ''
        return min(r, n), n, dist, gen, 'tlc: ' + ' '.join(re.findall(r'Error: ([^\n]*)', out))[:300]
    ls = re.findall(r'/\\ l = (\d+)', out)
    iv = re.search(r'Invariant (\w+) is violated', out)
    if iv and ls: return max(1, int(ls[-1]) - 1), n, dist, gen, 'invariant ' + iv.group(1)
    if ls: return int(ls[-1]), n, dist, gen, 'evaluation: ' + ' '.join(re.findall(r'The exception was[^\n]*\n[^\n]*\n?[^\n]*', out))[:300]
    raise ToolError('TLC gave no answer on %s: %s' % (trace_path, out[-800:]))

def split_programs(path):
    progs, cur = [], None
    for line in open(path, errors='replace'):
        line = line.rstrip('\n')
        if not line: continue
        if '"e":"reset"' in line: cur = [line]; progs.append(cur)
        elif cur is not None: cur.append(line)
    return progs

class Rejection:
    def __init__(s, prog, idx, note, meta): s.prog, s.idx, s.note, s.meta = prog, idx, note, meta
    @property
    def event(s): return json.loads(s.prog[s.idx])
    def __repr__(s): return 'rejected event %d/%d: %s %s' % (s.idx + 1, len(s.prog), s.prog[s.idx], s.note)

class Stats:
    def __init__(s): s.states = s.transitions = s.traces = s.events = 0; s.mc_states = s.mc_transitions = 0; s.samples = []; s.kinds = {}
    def add(s, o):
        for k in ('states', 'transitions', 'traces', 'events', 'mc_states', 'mc_transitions'): setattr(s, k, getattr(s, k) + getattr(o, k))
        for k, v in o.kinds.items(): s.kinds[k] = s.kinds.get(k, 0) + v
        s.samples += o.samples

def validate_programs(progs, module, cfg, meta=None, max_rej=3, shard_events=12000, total_rej=12):
    """validate every program (list of event lines); returns (rejections, stats)"""
    shards, cur, n = [], [], 0
    for p in progs:
        if n and n + len(p) > shard_events: shards.append(cur); cur, n = [], 0
        cur.append(p); n += len(p)
    if cur: shards.append(cur)
    found = []
    def one(sh):
        st, rej, i = Stats(), [], 0
        while i < len(sh) and len(found) < total_rej:
            f = tempfile.NamedTemporaryFile('w', suffix='.nd', dir=work(), delete=False)
            f.write('\n'.join('\n'.join(p) for p in sh[i:]) + '\n'); f.close()
            reached, total, dist, gen, note = validate1(module, cfg, f.name)
            os.unlink(f.name)
            st.states += dist; st.transitions += gen
            if reached > total: st.traces += len(sh) - i; break
            k = reached - 1; j = i
            while k >= len(sh[j]): k -= len(sh[j]); j += 1
            rej.append(Rejection(sh[j], k, note, meta)); found.append(1); st.traces += j - i + 1
            if len(rej) >= max_rej: break
            i = j + 1
        return rej, st
    rejs, st = [], Stats()
    for r, s in pmap(one, shards): rejs += r; st.add(s)
    for p in progs:
        st.events += len(p)
        for line in p:
            m = re.search(r'"e":"op".*?"o":"(\w+)"', line) or re.search(r'"e":"(\w+)"', line)
            if m: st.kinds[m.group(1)] = st.kinds.get(m.group(1), 0) + 1
    return rejs, st

# ------------------------------------------------------------------ scripts
ENVTOK = ('op', 'cret', 'cthrow', 'deref', 'inc', 'cend', 'sdtorE', 'odtorE')
def event_to_tok(e):
    k = e['e']
    s = [k] if k != 'op' else ['op', e['o']]
    for a, v in e.items():
        if a in ('e', 't', 'h', 'o', 'id') or (isinstance(v, list) and a != 'trk'): continue
        if a == 'trk': v = '.'.join(map(str, v))
        s.append('%s=%s' % (a, v))
    return ' '.join(s)

def program_to_script(prog):
    """the decisions of the environment in a recorded program: replaying them reproduces it"""
    out = []
    for line in prog:
        e = json.loads(line)
        if e['e'] in ENVTOK: out.append((event_to_tok(e), e))
    return out

def renumber(events, gone):
    """remove the events with index in GONE (and what refers to the objects they made), renumber the rest"""
    cmap, omap, out = {0: 0}, {0: 0}, []
    for i, e in enumerate(events):
        if e['e'] == 'op':
            o = e['o']
            if i in gone: continue
            e = dict(e)
            if o == 'connect' and 'c' in e:
                if any(x not in omap for x in e.get('trk', [])): e['trk'] = [x for x in e['trk'] if x in omap]
                cmap[e['c']] = len(cmap); e['c'] = cmap[e['c']]; e['trk'] = [omap[x] for x in e['trk']]
            elif o == 'onew' and 'ob' in e: omap[e['ob']] = len(omap); e['ob'] = omap[e['ob']]
            else:
                if 'c' in e:
                    if e['c'] not in cmap: continue
                    e['c'] = cmap[e['c']]
                if 'ob' in e:
                    if e['ob'] not in omap: continue
                    e['ob'] = omap[e['ob']]
            out.append(e)
        elif i not in gone: out.append(e)
    return out

def subtree(events):
    """for every op index: set of indices of the env tokens from it to its matching ret"""
    spans, stack = {}, []
    for i, e in enumerate(events):
        if e['e'] == 'op': stack.append(i)
        elif e['e'] == 'ret' and stack:
            j = stack.pop(); spans[j] = range(j, i + 1)
    for j in stack: spans[j] = range(j, len(events))
    return spans

def run_script(prog, events, args=('script',)):
    """run one program given as a list of env events; returns its recorded program"""
    d = tempfile.mkdtemp(prefix='sc.', dir=work())
    open(d + '/s', 'w').write('\n'.join(event_to_tok(e) for e in events if e['e'] in ENVTOK) + '\n')
    run_driver(prog, d + '/t', list(args[:1]) + [d + '/t', d + '/s'] + list(args[1:]), total=1, firstkey='')
    ps = split_programs(d + '/t')
    shutil.rmtree(d, ignore_errors=True)
    return ps[0] if ps else []

def event_class(rej):
    e = rej.event; k = e['e']
    if e.get('h'): return 'lock'
    if k in ('crash', 'deadlock', 'hang', 'leak', 'lk', 'badmutex', 'badself', 'badeq', 'sdtor', 'odtor', 'end'):
        return 'terminate' if k == 'crash' and 'terminate' in str(e.get('why')) else k
    if k == 'ret':
        st = []
        for line in rej.prog[:rej.idx]:
            x = json.loads(line)
            if x['e'] == 'op': st.append(x['o'])
            elif x['e'] == 'ret' and st: st.pop()
        return 'ret:' + (st[-1] if st else '?')
    return 'emit:' + k

def diagnose(rej, module, cfg):
    """sharpen the class of a rejection by relaxing the requirement it may have violated"""
    c = event_class(rej)
    if c in ('crash', 'terminate', 'deadlock', 'hang', 'leak', 'lk', 'badmutex', 'badself', 'badeq', 'lock', 'sdtor', 'odtor'): return c
    base = open(SPEC + '/' + cfg).read()
    f = tempfile.NamedTemporaryFile('w', suffix='.nd', dir=work(), delete=False); f.write('\n'.join(rej.prog[:rej.idx + 1]) + '\n'); f.close()
    cf = f.name + '.cfg'
    open(cf, 'w').write(base.replace('Relax = {}', 'Relax = {"quiet"}'))
    try: r, n, *_ = validate1(module, cf, f.name)
    except ToolError: return c
    return 'quiet' if r > n else c

def shrink(rej, prog, module, cfg, budget=40, args=('script',)):
    """smaller program (list of event lines) that is still rejected with the same class of event"""
    t0 = time.time(); cls = event_class(rej)
    def test(evs):
        try:
            p = run_script(prog, evs, args)
            if not p: return None
            r, _ = validate_programs([p], module, cfg)
        except (ToolError, ValueError, OSError): return None
        if r and event_class(r[0]).split(':')[0] == cls.split(':')[0]: return r[0]
        return None
    evs = [json.loads(x) for x in rej.prog[:rej.idx + 1]]
    best = test(evs)
    if best is None: return rej, False
    best_evs = [json.loads(x) for x in best.prog[:best.idx + 1]]
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        spans = sorted(subtree(best_evs).values(), key=len, reverse=True)
        spans = [s for s in spans if len(s) < len(best_evs)]
        # groups of consecutive small spans first
        ops = sorted(subtree(best_evs))
        groups = []
        for w in (16, 4):
            for i in range(0, len(ops), w): groups.append(set().union(*[set(subtree(best_evs)[j]) for j in ops[i:i + w]]))
        cands = groups + [set(s) for s in spans]
        i = 0
        while i < len(cands) and time.time() - t0 < budget:
            batch = cands[i:i + CORES]; i += CORES
            res = pmap(lambda g: test(renumber(best_evs, g)), batch)
            ok = [(len(r.prog[:r.idx + 1]), r) for r in res if r is not None and r.idx < len(best_evs) - 1]
            if ok:
                best = min(ok, key=lambda x: x[0])[1]
                best_evs = [json.loads(x) for x in best.prog[:best.idx + 1]]
                progress = True; break
    return best, True
