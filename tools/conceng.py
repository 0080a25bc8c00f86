"""Engine E5: small multi-threaded programs, run under many schedules on the real library (harness/conc.cpp),
every distinct history validated against Signals2 with several threads."""
import os, json, random
from vlib import *

MODULE, CFG = 'TraceSignals2', 'TraceConc.cfg'
NB, NK, NM = 6, 4, 12

DEF = dict(sigs2=35, objs=40, ext=25, chain=12, trk=55, grouped=40, block=45, scoped=25, throw=8, nest=35, dnest=25, cnest=12, del_=30, threads3=45, maxops=3, fault=0, predisc=25, preodrop=10,
           emit=26, disc=16, connect=12, bnew=8, bdel=8, bblock=5, bunblock=5, bblocking=2, num=6, empty=3, connected=6, blockedq=6, odrop=12, setcomb=5, combq=4,
           discAll=3, discGrp=4, discFn=4, hnew=4, hdel=6, hdisc=3, hconn=3)

def gen(rng, profile):
    """a program: list of tokens"""
    p = dict(DEF, **profile); yes = lambda k: rng.randrange(100) < p[k]
    out, names, blocks, hands, objs = [], [], [], [], []
    nt = 3 if yes('threads3') else 2
    ns = 2 if yes('sigs2') else 1
    owner2 = rng.randrange(1, nt + 1) if ns == 2 and yes('del_') else 0     # signal 2 is used by one thread only, which may destroy it
    for h in range(1, ns + 1): out.append('op new hd=%d cb=%d cmp=%d' % (h, rng.randrange(3), rng.randrange(3)))
    for i in range(rng.randrange(1, 3) if yes('objs') else 0):
        k = rng.choice('bsff'); out.append('op onew kind=' + k); objs.append(i + 1)
    def connect(h, suffix=''):
        nm = len(names) + 1
        if nm > NM: return None
        names.append(nm)
        pos, g, fr = (1, rng.randrange(3), rng.randrange(2)) if yes('grouped') else rng.choice([(0, 0, 1), (2, 0, 0), (2, 0, 0)])
        kind = 'x' if yes('ext') else 'p'; trk = []
        if h == 1 and ns == 2 and yes('chain') and (not owner2 or suffix in ('', ' th=%d' % owner2)): kind = 'c'
        if kind != 'c' and objs and yes('trk'): trk = rng.sample(objs, rng.randrange(1, len(objs) + 1))
        flt = ' flt=1 fa=%d' % rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14]) if suffix and rng.randrange(100) < p['fault'] else ''
        return 'op connect hd=%d nm=%d p=%d g=%d fr=%d f=%d kind=%s gd=%d trk=%s%s%s%s' % (h, nm, pos, g, fr, rng.randrange(1, 3) if kind != 'c' else 0, kind, 2 if kind == 'c' else 0,
              '.'.join(map(str, trk)), ' thr=%d' % rng.choice([5, 99]) if yes('throw') and kind != 'c' else '', flt, suffix)
    for i in range(rng.randrange(1, 4) if not yes('predisc') else 4): out.append(connect(rng.randrange(1, ns + 1) if i else 1))
    if yes('block'):
        for i in range(rng.randrange(1, 3)): blocks.append(i + 1); out.append('op bnew b=%d nm=%d i=%d' % (i + 1, rng.choice(names), rng.randrange(4) > 0))
    if yes('scoped'): hands.append(1); out.append('op hnew k=1 nm=%d kind=s' % rng.choice(names))
    if yes('predisc'):      # slots which wait to be removed from the list
        for x in rng.sample(names, rng.randrange(len(names) + 1)): out.append('op disc nm=%d via=0' % x)
    if objs and yes('preodrop'): out.append('op odrop ob=%d' % objs.pop())
    bown = {b: rng.randrange(1, nt + 1) for b in blocks}; hown = {k: rng.randrange(1, nt + 1) for k in hands}; oown = {o: rng.randrange(1, nt + 1) for o in objs}
    nb, nk = [len(blocks)], [len(hands)]
    OPS = ['emit', 'disc', 'connect', 'bnew', 'bdel', 'bblock', 'bunblock', 'bblocking', 'num', 'empty', 'connected', 'blockedq', 'odrop', 'setcomb', 'combq', 'discAll', 'discGrp', 'discFn', 'hnew', 'hdel', 'hdisc', 'hconn']
    W = [p[o] for o in OPS]
    def op(th, suffix, nested=False):
        """an operation of thread th (0: of whichever thread gets there)"""
        for _ in range(20):
            o = rng.choices(OPS, W)[0]
            hs = [1] + ([2] if ns == 2 and (not owner2 or (owner2 == th and not nested)) else []); h = rng.choice(hs)
            flt = ' flt=1 fa=%d' % rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 6, 8]) if rng.randrange(100) < p['fault'] else ''
            mine = lambda d: [x for x in d if d[x] == th and not nested]
            if o == 'emit': s = 'hd=%d v=%d cst=%d' % (h, rng.randrange(1, 90), rng.randrange(2))
            elif o in ('num', 'empty', 'discAll'): s = 'hd=%d' % h
            elif o == 'combq': s = 'hd=%d%s' % (h, flt)
            elif o == 'setcomb': s = 'hd=%d cb=%d%s' % (h, rng.randrange(3, 9), flt)
            elif o == 'discGrp': s = 'hd=%d g=%d' % (h, rng.randrange(3))
            elif o == 'discFn': s = 'hd=%d f=%d' % (h, rng.randrange(1, 3))
            elif o == 'disc': s = 'nm=%d via=%d' % (rng.choice(names), rng.randrange(3))
            elif o in ('connected', 'blockedq'): s = 'nm=%d' % rng.choice(names)
            elif o == 'connect':
                c = connect(h, suffix)
                if c: return c
                continue
            elif o == 'bnew':
                if nb[0] >= NB: continue
                nb[0] += 1; bown[nb[0]] = th if not nested else -1; s = 'b=%d nm=%d i=%d' % (nb[0], rng.choice(names), rng.randrange(4) > 0)
            elif o in ('bdel', 'bblock', 'bunblock', 'bblocking'):
                m = mine(bown)
                if not m: continue
                b = rng.choice(m); s = 'b=%d' % b
                if o == 'bdel': del bown[b]
            elif o == 'hnew':
                if nk[0] >= NK: continue
                nk[0] += 1; hown[nk[0]] = th if not nested else -1; s = 'k=%d nm=%d kind=s' % (nk[0], rng.choice(names))
            elif o in ('hdel', 'hdisc', 'hconn'):
                m = mine(hown)
                if not m: continue
                k = rng.choice(m); s = 'k=%d' % k
                if o == 'hdel': del hown[k]
            elif o == 'odrop':
                m = mine(oown)
                if not m: continue
                x = rng.choice(m); del oown[x]; s = 'ob=%d' % x
            return 'op %s %s%s' % (o, s, suffix)
        return None
    for th in range(1, nt + 1):
        for i in range(rng.randrange(1, p['maxops'] + 1)):
            x = op(th, ' th=%d' % th)
            if x: out.append(x)
        if owner2 == th and rng.randrange(3): out.append('op del hd=2 th=%d' % th)
    for key, pr in (('in', 'nest'), ('dt', 'dnest')):
        if yes(pr):
            nm = rng.choice(names)
            for i in range(rng.randrange(1, 3)):
                x = op(0, ' %s=%d' % (key, nm), True)
                if x and not (key == 'dt' and ' nm=%d ' % nm in x and 'op connect' in x): out.append(x)
    if yes('cnest'):
        x = op(0, ' incb=1', True)
        if x: out.append(x)
    return out

def valid(tokens):
    """names, blocks and so on are used only after they have been made (whoever makes them)"""
    return sum(1 for t in tokens if ' th=' in t) >= 2

def write(path, programs): open(path, 'w').write('\nreset\n'.join('\n'.join(p) for p in programs) + '\n')

def execute(jobs):
    """jobs: (label, binary, programs, args); returns [(recorded history, meta)]"""
    def one(j):
        k, (label, prog, programs, args) = j
        f = tempfile.mktemp(prefix='conc.', dir=work())
        write(f + '.s', programs)
        run_driver(prog, f + '.nd', ['script', f + '.nd', f + '.s'] + args, total=len(programs), timeout=300)
        meta = dict(label=label, prog=prog, programs=programs, args=args)
        r = [(p, meta) for p in split_programs(f + '.nd')] if os.path.exists(f + '.nd') else []
        os.unlink(f + '.s')
        if os.path.exists(f + '.nd'): os.unlink(f + '.nd')
        return r
    return sum(pmap(one, list(enumerate(jobs))), [])

def bad(prog):
    """histories which contain something that no specification allows (found without TLC)"""
    return any('"e":"%s"' % k in prog[-1] for k in ('crash', 'deadlock', 'hang'))

def reject(progs_meta):
    import plans
    rejs, st = plans.validate_programs_meta(progs_meta, MODULE, CFG, max_rej=2, total_rej=4)
    return rejs, st

def head(rej): return json.loads(rej.prog[0])
def source(rej): return rej.meta['programs'][head(rej)['prog']]

def shrink(rej, budget=30):
    """smaller program for which some schedule is still rejected"""
    t0 = time.time(); best = rej; cur = source(rej)
    def test(tokens):
        if not any(' th=' in t for t in tokens): return None
        try: ps = execute([('shrink', rej.meta['prog'], [tokens], ['dfs=2', 'cap=150', 'rnd=40'] if 'free' not in ' '.join(rej.meta['args']) else ['free=200'])])
        except (ToolError, OSError): return None
        hard = [Rejection(p, len(p) - 1, '', m) for p, m in ps if bad(p)]
        if hard: return hard[0]
        if bad(rej.prog): return None
        try: r, _ = reject(ps[:150])
        except ToolError: return None
        return r[0] if r else None
    first = test(cur)
    if first is None: return rej
    best = first
    i = 0
    while i < len(cur) and time.time() - t0 < budget:
        # try to drop each of the next tokens, at once
        idx = list(range(i, min(len(cur), i + CORES)))
        res = pmap(lambda k: test(cur[:k] + cur[k + 1:]), idx)
        ok = [k for k, r in zip(idx, res) if r]
        if ok:
            k = ok[-1]; cur = cur[:k] + cur[k + 1:]; best = res[idx.index(k)]
        else: i = idx[-1] + 1
    return best

def report(c, rejs):
    import plans
    rejs = sorted(rejs, key=lambda r: r.idx)
    r = shrink(rejs[0]) if rejs[0].meta['args'] else rejs[0]
    h = head(r)
    text = '\n'.join(plans.program_lines(r)) + '\n\nprogram (replay: conc script OUT FILE dec=%s):\n' % h.get('dec') + '\n'.join(source(r))
    c.violation('[%s] %s: the specification %s does not allow event %d of this history (schedule %s): %s %s' %
                (r.meta['label'], event_class(r), MODULE, r.idx + 1, h.get('dec') or 'first', r.prog[r.idx], r.note), text)

def check(c, ps, budget_events=None):
    """validate histories; those which end in a crash and the like first"""
    hard = [(p, m) for p, m in ps if bad(p)]
    if hard:
        c.stats.traces += len(ps)
        report(c, [Rejection(p, len(p) - 1, '', m) for p, m in hard[:4]])
        return True
    if budget_events:
        ps = list(ps); random.Random(c.seed).shuffle(ps); n, keep = 0, []
        for x in ps:
            if n > budget_events: break
            keep.append(x); n += len(x[0])
        ps = keep
    rejs, st = reject(ps)
    c.stats.add(st)
    if rejs: report(c, rejs); return True
    return False

def run(c, profiles, per=96, per_th=2400, args=(), flags=(), san=True, label='threads', events=250000, events_th=6000000, chunk=4, validate=True):
    prog = build('conc.cpp', flags, san=san)
    rng = random.Random(c.seed * 1000 + sum(map(ord, c.prop + label)))
    programs = []
    n = per if not c.thorough else per_th
    while len(programs) < n:
        t = gen(rng, profiles[len(programs) % len(profiles)])
        if valid(t): programs.append(t)
    step = chunk * 32
    for i in range(0, n, step):
        part = programs[i:i + step]
        ps = execute([(label, prog, part[k:k + chunk], list(args)) for k in range(0, len(part), chunk)])
        key = 'schedules of random programs (%s)' % label
        e = c.engines.setdefault(key, dict(programs=0, distinct_histories=0)); e['programs'] += len(part); e['distinct_histories'] += len(ps)
        if not validate: ps = [x for x in ps if bad(x[0])] or ps[::max(1, len(ps) // 200)]
        if check(c, ps, (events if not c.thorough else events_th) * len(part) // n): return
        if len(c.stats.samples) < 2:
            import plans
            plans.samples(c, [p for p, _ in ps])

# ------------------------------------------------------------------ programs from the specification
# theme -> (setup, ops of thread 1, 2, 3, lengths quick, lengths thorough, what slot 1 does when called / destroyed)
CONC = {
    'two':   ('two', ['emit', 'd1', 'cB', 'q1'], ['emit', 'd1', 'cF', 'num', 'dAll', 'bn'], ['emit', 'd2'], (1, 2, 0), (1, 2, 1), [''], ['']),
    'gone':  ('gone', ['emit', 'd1', 'cB', 'num'], ['emit', 'cF', 'num', 'cq', 'sc'], ['emit', 'cB'], (1, 2, 0), (1, 1, 1), [''], ['']),
    'fault': ('two', ['cq!', 'sc!', 'sc!1', 'cB!', 'cG!'], ['emit', 'num', 'd1', 'cB', 'cq', 'sc'], ['emit', 'cq!'], (1, 2, 0), (1, 2, 1), [''], ['']),
    'grp':   ('grp', ['emit', 'dG', 'cG'], ['emit', 'dG', 'cG', 'dF'], ['emit', 'd2'], (1, 1, 0), (1, 2, 1), ['', 'd2'], ['']),
    'blk':   ('blk', ['emit', 'bon', 'boff', 'bq1', 'bdel'], ['bon', 'boff', 'bn', 'bdel', 'emit', 'd1'], ['emit', 'bn'], (2, 2, 0), (2, 2, 1), [''], ['']),
    'trk':   ('trk', ['emit', 'q2', 'bq2', 'num', 'od'], ['od', 'emit', 'cT', 'bq1'], ['emit', 'num'], (1, 2, 0), (1, 1, 1), ['', 'emit'], ['']),
    'chain': ('chain', ['emit', 'q2', 'num', 'd2'], ['del2', 'emit2', 'd1'], ['emit', 'num'], (1, 2, 0), (1, 2, 1), ['', 'emit'], ['', 'num']),
    # smaller ones, for the properties of a single thread's behaviour
    'two+':  ('two', ['emit', 'q1', 'num'], ['d1', 'd2', 'dF', 'dAll'], ['emit'], (1, 2, 0), (2, 2, 0), ['', 'd2'], ['']),
    'grp+':  ('grp', ['emit', 'num'], ['dG', 'cG', 'dF', 'd2'], ['emit'], (1, 2, 0), (2, 2, 0), [''], ['']),
    'blk+':  ('blk', ['emit', 'bq1'], ['bon', 'boff', 'bdel', 'bn', 'd1'], ['emit'], (1, 2, 0), (2, 2, 0), [''], ['']),
    'blk0+': ('blk0', ['bon', 'bn'], ['bon', 'boff', 'bdel', 'bn', 'bq1'], ['emit'], (1, 2, 0), (2, 2, 0), [''], ['']),
    'trk+':  ('trk', ['emit', 'q2', 'bq2', 'num'], ['od', 'emit', 'num', 'q2'], ['emit'], (1, 2, 0), (2, 2, 0), [''], ['']),
    'cmb+':  ('gone', ['emit'], ['sc', 'cF', 'cB', 'cq', 'd1'], ['emit'], (1, 2, 0), (2, 2, 0), ['', 'sc', 'cB'], ['']),
    'chn+':  ('chain', ['emit', 'q2'], ['del2', 'emit2', 'd1', 'd2'], ['emit'], (1, 2, 0), (2, 2, 0), [''], ['']),
    'dt+':   ('two', ['emit', 'd1'], ['emit', 'd1', 'num'], ['emit'], (1, 1, 0), (1, 2, 0), [''], ['', 'cB', 'emit', 'num', 'd2', 'sc']),
    'nest':  ('two', ['emit', 'd1', 'dAll'], ['emit', 'd1', 'num', 'sc'], ['emit', 'd2'], (1, 1, 0), (1, 2, 1), ['', 'd1', 'd2', 'cB', 'emit', 'sc', 'num'], ['', 'cB', 'emit', 'num', 'd2']),
}
INV = ['ListInv', 'ExecInv', 'SnapInv', 'DeadInv', 'SigInv', 'OffForEver', 'Kept', 'SnapUnique', 'NoUseAfter', 'Clean', 'NeverStuck']
def model(theme, tier, timeout=300, live=True):
    import minieng, mceng
    setup, o1, o2, o3, q, th, i, d = CONC[theme]; L = th if tier == 'thorough' else q
    cfg = '%s/conc-%s.cfg' % (work(), theme)
    c = dict(Threads='{1, 2, 3}' if L[2] else '{1, 2}', NH=2, NB=4 if L[2] == 0 else 5, NK=1, Relax='{}', SetupName=setup, Ops1=o1, Ops2=o2, Ops3=o3 if L[2] else ['emit'], L1=L[0], L2=L[1], L3=L[2], InOps=i, DtOps=d, Emit=True)
    open(cfg, 'w').write('SPECIFICATION Spec\nCONSTANTS\n' + ''.join('  %s = %s\n' % (k, mceng.val(v)) for k, v in c.items()) +
                         'ACTION_CONSTRAINT Script\nINVARIANTS ' + ' '.join(INV) + '\nPROPERTIES Final NoLateCall Forward' + (' Terminates' if live else '') + '\n')
    rc, out = tlc('MCConc', cfg, workers=8, timeout=timeout, heap='10g')
    if rc != 0 and rc != -1: raise ToolError('model MCConc %s: %s' % (theme, out[-2500:]))
    gen_, dist = tlc_counts(out)
    progs = sorted(set(re.findall(r'^"SCRIPT (.*)"$', out, re.M)))
    return dist, gen_, [[t for t in p.split(';') if t] for p in progs], rc == 0

def run_model(c, themes, flags=(), san=True, args=('dfs=2', 'cap=60', 'rnd=6'), cap=60, cap_th=5000, label='', validate=True, live=True, events=None):
    prog = build('conc.cpp', flags, san=san)
    for th in themes:
        dist, g, programs, ok = model(th, c.tier, timeout=200 if not c.thorough else 3000, live=live and not c.thorough)
        if not programs: raise ToolError('no programs from MCConc ' + th)
        c.stats.mc_states += dist; c.stats.mc_transitions += g
        e = c.engines['model MCConc %s' % th] = dict(states=dist, transitions=g, exhausted=ok, programs=len(programs))
        random.Random(c.seed).shuffle(programs); programs = programs[:cap if not c.thorough else cap_th]
        e['programs_executed'] = len(programs); e['distinct_histories'] = 0
        n = max(1, (len(programs) + 15) // 16)
        for k in range(0, len(programs), n * 16):
            part = programs[k:k + n * 16]
            ps = execute([(label or 'model ' + th, prog, part[z:z + n], list(args) if not c.thorough else ['dfs=3', 'cap=600', 'rnd=50']) for z in range(0, len(part), n)])
            e['distinct_histories'] += len(ps)
            if not validate: ps = [x for x in ps if bad(x[0])] or ps[::max(1, len(ps) // 100)]
            if check(c, ps, events if not c.thorough else None): return
