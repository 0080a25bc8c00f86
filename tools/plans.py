"""What each property's check runs."""
import json
from vlib import *
import random
import seqeng, mceng, minieng, conceng

LEVEL = {}

# ---------------------------------------------------------------- sequential programs (E1)
BASE = {}
V0 = dict(flags=())                                  # checked mutex, int groups
V = {
    'std': (),
    'mutex': ('-DCFG_MUTEX=1',),
    'dummy': ('-DCFG_MUTEX=2',),
    'sigtype': ('-DCFG_MUTEX=3', '-DCFG_GROUP=1'),
    'fnt': ('-DCFG_FNT=2',), 'fntt': ('-DCFG_FNT=1', '-DCFG_GROUP=1'),   # the user's slot function types, also through signal_type
    'grp': ('-DCFG_GROUP=1',),
    'pp': ('-DBOOST_NO_CXX11_VARIADIC_TEMPLATES',),   # preprocessor-generated implementation
}
# property -> list of (variant, weight of programs, profile)
SEQ = {
    'P01': [('std', 5, {}), ('std', 3, dict(disc=16, connect=26, emit=22, maxev=160)), ('std', 2, dict(slotop=70, nsig=1, maxdepth=3, maxev=140))],
    'P02': [('std', 5, dict(grouped=70, ngrp=4, connect=34, disc=14, discGrp=6, maxconn=40, maxev=120)), ('std', 3, dict(grouped=50, connect=40, disc=20, slotop=15, discFn=4)),
            ('std', 2, dict(grouped=40, connect=30, odrop=8, onew=8, trkpct=50, num=8))],
    'P03': [('std', 5, dict(disc=22, discAll=3, discGrp=6, discFn=6, hnew=4, hdel=4, hset=2, hconn=3, connected=8)), ('std', 3, dict(slotop=65, disc=20, odrop=8, trkpct=45)), ('std', 2, dict(throw=20, disc=10))],
    'P04': [('std', 6, dict(bnew=14, bcopy=6, bassign=6, bdel=9, bblock=8, bunblock=8, blockedq=8, bblocking=3)), ('std', 4, dict(bnew=14, bdel=10, disc=12, slotop=60, num=6, trkpct=40, odrop=6))],
    'P05': [('std', 5, dict(slotop=75, nsig=1, connect=34, setcomb=10, maxdepth=4, disc=8)), ('std', 3, dict(slotop=70, combop=40, setcomb=20, emit=20)), ('std', 2, dict(slotop=60, disc=24, connect=30, chain=15))],
    'P06': [('std', 5, dict(trkpct=85, onew=10, odrop=12, maxobj=16, slotop=55)), ('std', 2, dict(trkpct=90, bigtrk=30, bnew=8, onew=10, odrop=9, maxobj=18)), ('std', 3, dict(trkpct=80, onew=9, odrop=12, num=8, connected=6, blockedq=5, combop=30, bnew=10, bdel=6))],
    'P07': [('std', 5, dict(disc=20, slotop=60)), ('std', 3, dict(dtorop=45, disc=20, trkpct=50, odrop=8)), ('std', 2, {'del': 6, 'massign': 4, 'slotop': 60, 'nsig': 3})],
    'P08': [('std', 5, dict(dtorop=60, disc=16, trkpct=60, odrop=10, onew=8, connected=8, blockedq=6, num=6)), ('std', 3, dict(combop=40, slotop=60, dtorop=50, setcomb=8)), ('std', 2, dict(ext=50, dtorop=60, disc=20, chain=20)), ('std', 2, dict(fault=50, dtorop=60, disc=10, grouped=50, onew=8, trkpct=50))],
    'P09': [('std', 6, dict(early=10, reder=25, skip=20, combop=25, emit=24)), ('std', 4, dict(throw=15, reder=30, chain=20, ext=30))],
    'P11': [('std', 6, dict(throw=30, cthrowend=15, early=8)), ('std', 4, dict(throw=30, chain=20, trkpct=50, slotop=60))],
    'P12': [('std', 6, dict(num=14, empty=14, connected=14, combq=4, setcomb=5, odrop=8, trkpct=50)), ('std', 4, dict(num=10, empty=10, connected=10, dtorop=60, combop=40, slotop=65, null=4))],
    'P13': [('std', 5, dict(hnew=10, hcpy=6, hmov=6, has=6, hmas=6, hswp=5, hset=4, hdel=7, hrel=3, heq=8, hlt=7, hdisc=4, hconn=6, hblk=3, scoped=15, disc=5)), ('std', 3, {**dict(hnew=10, hcpy=6, hmov=6, has=6, hmas=6, hswp=5, hset=4, hdel=7, hrel=3, heq=8, hlt=7, hdisc=4, hconn=6, hblk=3, scoped=30, slotop=65, dtorop=50, trkpct=40, odrop=6), 'del': 4}), ('std', 2, dict(hnew=10, hcpy=6, hmov=6, has=6, hmas=6, hswp=5, hset=4, hdel=7, hrel=3, heq=8, hlt=7, hdisc=4, hconn=6, hblk=3, scoped=10, connect=30, emit=8, maxev=160))],
    'P14': [('std', 5, dict(hnew=10, hcpy=6, hmov=6, has=6, hmas=6, hswp=5, hset=4, hdel=7, hrel=3, hdisc=4, hconn=6, hblk=3, scoped=85, heq=2, hlt=0)), ('std', 3, {**dict(hnew=10, hcpy=6, hmov=6, has=6, hmas=6, hswp=5, hset=4, hdel=7, hrel=3, hdisc=4, hconn=6, hblk=3, scoped=80, slotop=65, dtorop=50, trkpct=40, odrop=6, heq=1, hlt=0), 'del': 3}), ('std', 2, dict(hnew=10, hcpy=6, hmov=6, has=6, hmas=6, hswp=5, hset=4, hdel=7, hrel=3, hdisc=4, hconn=6, hblk=3, scoped=75, bnew=18, bdel=8, heq=1, hlt=0))],
    'P15': [('std', 6, {'move': 8, 'massign': 8, 'swap': 8, 'del': 7, 'new': 8, 'nsig': 3, 'null': 5, 'eqh': 4}), ('std', 4, {'slotop': 65, 'combop': 35, 'del': 9, 'move': 6, 'massign': 6, 'swap': 6, 'nsig': 3, 'chain': 15})],
    'P16': [('std', 5, dict(chain=45, nsig=4, new=8, discSig=5)), ('std', 3, {'chain': 45, 'nsig': 4, 'new': 8, 'del': 5, 'massign': 4, 'swap': 4, 'slotop': 55}),
            ('std', 3, {'chain': 45, 'raw': 75, 'nsig': 4, 'new': 8, 'del': 5, 'massign': 0, 'swap': 0, 'move': 0, 'slotop': 55, 'discSig': 6}), ('pp', 2, {'chain': 45, 'raw': 60, 'nsig': 4, 'new': 8, 'del': 5, 'massign': 0, 'swap': 0, 'move': 0, 'discSig': 6})],
    'P17': [('std', 6, dict(ext=80, disc=12, discFn=6)), ('std', 4, dict(ext=80, slotop=65, bnew=6, bdel=5, trkpct=50, grouped=60))],
    'P21': [('std', 4, dict(fault=45, setcomb=10, connect=36)), ('std', 3, dict(fault=60, grouped=70, connect=40, slotop=60, trkpct=40, ext=30)),
            ('std', 4, dict(efault=50, fault=15, trkpct=80, bigtrk=50, maxobj=18, onew=12, odrop=6, num=8, empty=4, connected=8, bnew=6, bdel=4, combq=3, chain=15, slotop=55))],
    'P28': [('std', 6, dict(objt=85, trkpct=85, onew=12, odrop=14, ocopy=6, oassign=4, maxobj=16)), ('std', 4, dict(objt=75, trkpct=85, onew=10, odrop=12, ocopy=4, oassign=3, slotop=65, ext=40)),
            ('std', 3, {'chain': 35, 'raw': 90, 'nsig': 3, 'new': 6, 'del': 5, 'massign': 0, 'swap': 0, 'move': 0, 'objt': 80, 'trkpct': 80})],
    'P29': [('std', 6, dict(discGrp=16, discFn=16, discSig=8, chain=20, ngrp=3, nfn=3, grouped=60, cmp0=40)), ('std', 4, dict(discGrp=12, discFn=12, slotop=65, ext=40, nfn=3, ngrp=3)),
            ('std', 2, {'chain': 40, 'raw': 70, 'nsig': 3, 'new': 6, 'massign': 0, 'swap': 0, 'move': 0, 'discSig': 14, 'discFn': 8}), ('pp', 2, dict(discGrp=12, discFn=12, discSig=10, chain=30, nsig=3))],
    'P30': [('std', 1, dict(cmp0=10, grouped=70)), ('mutex', 2, {}), ('dummy', 2, {}), ('sigtype', 2, dict(cmp0=20, grouped=60)), ('pp', 3, {}), ('fnt', 2, dict(ext=40, trkpct=40)), ('fntt', 1, dict(ext=40, chain=20, discFn=12))],
}

def samples(c, progs):
    for p in progs[:2]: c.stats.samples.append({'program': [json.loads(x) for x in p[:14]], 'events': len(p)})

def report(c, rejs, module, cfg, runargs=('script',), attr=seqeng.attributable):
    """turn rejections into violations of this property, or notes"""
    rejs = sorted(rejs, key=lambda r: r.idx)
    seen = 0
    cand = []
    for r in rejs[:12]:
        cls = diagnose(r, module, cfg)
        if attr(c.prop, cls, r.prog[:r.idx + 1]): cand.append((cls, r))
        else: c.note('a trace was rejected for a reason that is not this property\'s (%s): %r' % (cls, r))
    for cls, r in cand[:3]:
        small, ok = shrink(r, r.meta['prog'], module, cfg, budget=25, args=runargs)
        if ok:
            cls2 = diagnose(small, module, cfg)
            if not attr(c.prop, cls2, small.prog[:small.idx + 1]):
                c.note('rejected trace (%s), but its reduction does not involve this property: %r' % (cls, small)); continue
        else:
            small, cls2 = r, cls
        text = '\n'.join(program_lines(small)) + '\n\nreplay: seq script OUT FILE with FILE:\n' + '\n'.join(event_to_tok(json.loads(x)) for x in small.prog[:small.idx + 1] if json.loads(x)['e'] in ENVTOK)
        c.violation('[%s] %s: the specification %s does not allow event %d of this program: %s %s' % (r.meta.get('label', ''), cls2, module, small.idx + 1, small.prog[small.idx], small.note), text)
        return True
    return False

def program_lines(r):
    return ['%3d %s%s' % (i + 1, x, '    <=== not allowed' if i == r.idx else '') for i, x in enumerate(r.prog[:r.idx + 1])]

def seq_random(c, jobs=None, per=None):
    jobs = jobs or SEQ[c.prop]
    per = per or ((480 if c.prop != 'P21' else 720) if not c.thorough else 6000)
    variants = sorted(set(v for v, _, _ in jobs))
    progs = dict(zip(variants, pmap(lambda v: build('seq.cpp', V[v]), variants)))
    tot = sum(w for _, w, _ in jobs)
    work_items = []
    for k, (v, w, prof) in enumerate(jobs):
        n = max(8, per * w // tot); chunk = 60 if not c.thorough else 200
        for q in range(0, n, chunk): work_items.append(('%s%d' % (v, k), progs[v], prof, c.seed * 100000 + k * 1000 + q // chunk, min(chunk, n - q)))
    nsh = 8 if not c.thorough else 24
    total = 0
    while work_items:
        batch, work_items = work_items[:nsh], work_items[nsh:]
        ps = seqeng.drive(batch)
        bymeta = {}
        rejs, st = validate_programs_meta(ps, seqeng.MODULE, seqeng.CFG)
        c.stats.add(st); total += len(ps)
        if total <= len(batch) * 200: samples(c, [p for p, _ in ps])
        c.engines['random programs'] = total
        if rejs and report(c, rejs, seqeng.MODULE, seqeng.CFG): return

def validate_programs_meta(ps, module, cfg, **kw):
    ident = {id(p): m for p, m in ps}
    rejs, st = validate_programs([p for p, _ in ps], module, cfg, **kw)
    for r in rejs: r.meta = ident[id(r.prog)]
    return rejs, st

# ---------------------------------------------------------------- exhaustive exploration of the specification (E3)
# property -> [(theme, variant of the driver its scripts run on)]
MC = {
    'P01': [('order', 'std'), ('nested', 'std')], 'P02': [('order', 'std'), ('order2', 'std')], 'P03': [('select', 'std')],
    'P04': [('block', 'std')], 'P05': [('nested', 'std'), ('comb', 'std')], 'P06': [('track', 'std')], 'P07': [('dtor', 'std')], 'P08': [('dtor', 'std'), ('fbulk', 'std')],
    'P09': [('comb', 'std'), ('throw', 'std')], 'P11': [('throw', 'std')], 'P12': [('query', 'std')], 'P13': [('handle', 'std')], 'P14': [('scoped', 'std'), ('scopedb', 'std')], 'P15': [('move', 'std')], 'P16': [('chain', 'std')],
    'P17': [('ext', 'std')], 'P21': [('fconn', 'std'), ('fbulk', 'std'), ('fstate', 'std'), ('fquery', 'std')], 'P28': [('trackt', 'std')], 'P29': [('select', 'std')], 'P30': [('order', 'pp'), ('move', 'pp')],
}
def mc_themes(c):
    for theme, v in MC[c.prop]:
        prog = build('seq.cpp', V[v])
        dist, gen, scripts, ok = mceng.model(theme, c.tier, timeout=240 if not c.thorough else 3000)
        c.stats.mc_states += dist; c.stats.mc_transitions += gen
        m = mceng.maximal(scripts)
        c.engines['model %s' % theme] = dict(states=dist, transitions=gen, exhausted=ok, behaviours=len(m))
        random.Random(c.seed).shuffle(m)
        m = mceng.faults(m, random.Random(c.seed), 4500 if not c.thorough else 60000, theme == 'fbulk') if theme[0] == 'f' else m[:2000 if not c.thorough else 40000]
        c.engines['model %s' % theme]['behaviours_executed'] = len(m)
        ps = mceng.execute(prog, m, theme)
        if theme[0] == 'f':
            ps = mceng.distinct(ps);
            c.engines['model %s' % theme]['distinct_observations'] = len(ps)
        rejs, st = validate_programs_meta(ps, seqeng.MODULE, seqeng.CFG)
        c.stats.add(st)
        if rejs and report(c, rejs, seqeng.MODULE, seqeng.CFG): return

# ---------------------------------------------------------------- smaller specifications
PPV = ((), ('-DBOOST_NO_CXX11_VARIADIC_TEMPLATES',))
def p10(c): minieng.run(c, 'comb', 'combiners.cpp', 'TraceCombiners', per=500,
                        mc=('MCCombiners', dict(MaxSlots=3, MaxEmits=2, Cfs=list(range(14)), MaxDo=0), ['LastRight', 'ExcRight', 'Once'], dict(MaxSlots=4)), variants=PPV, prof=[dict(pat=8)])
def p09(c): minieng.run(c, 'told combiner', 'combiners.cpp', 'TraceCombiners', per=300, cap=1500, prof=[dict(pat=100)], variants=PPV,
                        mc=('MCCombiners', dict(MaxSlots=2, MaxEmits=1, Cfs=list(range(14, 21)), MaxDo=4), ['OnceTold', 'OrderTold', 'ResultTold'], dict(MaxDo=5)))
def p24(c):
    base = dict(NSL=2, NL=1, MaxOps=5, MaxObj=2, Convert=[0], Hooks=0, OKinds=['b', 's', 'g', 't'])
    invs = ['Safe', 'ExpiredForEver', 'NoOwner']
    minieng.run(c, 'slots', 'slots.cpp', 'TraceSlots', per=700, per_th=12000, prof=[dict(len=24), dict(len=60)], cap=2500,
                mc=('MCSlots', dict(base, Ops=['onew', 'odrop', 'snew', 'track', 'call', 'become']), invs, dict(MaxOps=6)))
    if c.violations: return
    minieng.run(c, 'slots', 'slots.cpp', 'TraceSlots', per=8, per_th=80, cap=2500,
                mc=('MCSlots', dict(base, MaxObj=1, Convert=[0, 1, 2], OKinds=['b', 's'], Ops=['onew', 'odrop', 'snew', 'scopy', 'sassign', 'track', 'tracks', 'expired', 'lock', 'unlock', 'call']), invs, dict(MaxOps=7)))
    if c.violations: return
    minieng.run(c, 'slots', 'slots.cpp', 'TraceSlots', per=8, per_th=80, cap=2500,
                mc=('MCSlots', dict(base, NSL=1, MaxOps=7, Hooks=4, OKinds=['f', 's'], Ops=['onew', 'snew', 'track', 'expired', 'lock', 'unlock', 'call']), invs, dict(MaxOps=8)))
def p23(c):
    minieng.run(c, 'args', 'args.cpp', 'TraceArgs', per=900, per_th=20000, variants=((), ('-DBOOST_NO_CXX11_VARIADIC_TEMPLATES',)), cap=1500,
                mc=('MCArgs', dict(MaxOps=3, NSigs=15), ['ByValue'], dict(MaxOps=4)))
DINV = ['Life', 'PostOnce', 'Alive']
def p25(c):
    ks = ['adl', 'priv', 'esft', 'const', 'nopre', 'algn', 'old', 'oldpo', 'oldpr', 'fwd']
    ops = ['dnew', 'dpost', 'dmake', 'idrop', 'icopy', 'pdrop', 'pcopy', 'sft']
    minieng.run(c, 'decon', 'deconstruct.cpp', 'TraceDeconstruct', per=600, per_th=12000, variants=PPV, prof=[dict(len=24, fault=20), dict(len=50)], cap=1200,
                mc=('MCDeconstruct', dict(NI=2, NP=3, MaxOps=4, MaxObj=1, Kinds=[k for k in ks if k != 'fwd'], Rich=False, Xs=[0, 3], Ops=ops), DINV, dict(MaxOps=6)))
    if c.violations: return
    minieng.run(c, 'decon', 'deconstruct.cpp', 'TraceDeconstruct', per=8, per_th=80, cap=1500,
                mc=('MCDeconstruct', dict(NI=2, NP=3, MaxOps=5, MaxObj=2, Kinds=['esft', 'fwd'], Rich=True, Xs=[0, 3], Ops=['dnew', 'dpost', 'idrop', 'pdrop', 'dmake']), DINV, dict(MaxOps=6)))
def p26(c):
    ks = ['plain', 'post', 'pre', 'both', 'second', 'base', 'cboth', 'esftp']
    minieng.run(c, 'decon', 'deconstruct.cpp', 'TraceDeconstruct', per=600, per_th=12000, variants=((), ('-DNDEBUG',)), prof=[dict(len=24, ptr=100, fault=20), dict(len=50, ptr=80)], cap=1200,
                mc=('MCDeconstruct', dict(NI=1, NP=3, MaxOps=4, MaxObj=1, Kinds=ks, Rich=True, Xs=[0, 3], Ops=['pnew', 'pnull', 'pdrop', 'pcopy', 'sft']), DINV, dict(MaxOps=6)))
    if c.violations: return
    minieng.run(c, 'decon', 'deconstruct.cpp', 'TraceDeconstruct', per=8, per_th=80, cap=1500,
                mc=('MCDeconstruct', dict(NI=1, NP=3, MaxOps=4, MaxObj=2, Kinds=['both', 'esftp'], Rich=True, Xs=[0, 3], Ops=['pnew', 'pdrop', 'pcopy']), DINV, dict(MaxObj=3, MaxOps=5)))
def p27(c):
    invs = ['Excl', 'Visible', 'TryNeverWaits']
    minieng.run(c, 'mutex', 'mutex.cpp', 'TraceMutex', per=240, per_th=4000, variants=((), ('-DNDEBUG', '-O2')), prof=[dict(len=14), dict(len=20, stress=25, burst=4)], cap=600, cap_th=8000,
                mc=('MCMutex', dict(NT=3, NM=2, MaxOps=5, Free=False, DM=0), invs, dict(MaxOps=7), ('Progress',)))
    if c.violations: return
    minieng.run(c, 'mutex under the thread sanitizer', 'mutex.cpp', 'TraceMutex', per=60, per_th=2000, variants=(('-fsanitize=thread',),), prof=[dict(len=10, stress=50, burst=12)], cap=600, cap_th=3000,
                mc=('MCMutex', dict(NT=3, NM=2, MaxOps=6, Free=True, DM=0), invs, dict(MaxOps=7), ('Took',)))
    if c.violations: return
    minieng.run(c, 'no threads', 'mutex.cpp', 'TraceMutex', per=60, per_th=600, variants=(('-DBOOST_DISABLE_THREADS', '-DNOP'),), prof=[dict(len=14, stress=0)], cap=200, cap_th=1000,
                mc=('MCMutex', dict(NT=2, NM=2, MaxOps=4, Free=False, DM=1), invs, dict(MaxOps=5), ()))
def p22(c):
    th = c.thorough
    # the algorithm itself: every state reachable by histories of any length
    for P, bound in [(3, 8)] + ([(4, 15)] if th else []):
        cfg = '%s/gi%d.cfg' % (work(), P)
        open(cfg, 'w').write('SPECIFICATION Spec\nCONSTANTS\n P = %d\n Check = 3\n Bound = %d\n Expire = TRUE\n Early = TRUE\n Grab = TRUE\n Bug = "none"\nINVARIANT Bounded\nCONSTRAINT Limit\nCHECK_DEADLOCK FALSE\n' % (P, bound))
        rc, out = tlc('GarbageImpl', cfg, workers=8, timeout=300 if not th else 3000, heap='8g')
        if rc != 0 and rc != -1: raise ToolError('model GarbageImpl: ' + out[-1500:])
        gen, dist = tlc_counts(out); c.stats.mc_states += dist; c.stats.mc_transitions += gen
        c.engines['model GarbageImpl P=%d' % P] = dict(states=dist, transitions=gen, exhausted=rc == 0, bound=bound)
    minieng.run(c, 'garbage', 'garbage.cpp', 'TraceGarbage', per=160, per_th=4000, prof=[dict(len=4), dict(len=3, word=12, cap=8)])
    if c.violations: return
    prog = build('garbage.cpp', ())
    base = dict(MaxLen=3, MaxOps=0, Adv=2, Codes=[1, 2, 3, 5, 6, 11, 12, 13, 14, 15, 17, 21, 22], Variants=['chk1', 'nochk', 'nograb', 'norestart', 'reset', 'nojan', 'lazy'])
    jobs = [dict(Mode='words', P=3, MaxLen=4 if th else 3), dict(Mode='words', P=4, MaxLen=4 if th else 3)] + \
           [dict(Mode='adv', P=p, Adv=a, MaxOps=320 if not th else 600) for p in ((3, 5) if not th else (2, 3, 4, 5, 6)) for a in ((2,) if not th else (2, 3, 4))] + \
           [dict(Mode='early', P=p, MaxOps=60 if not th else 150) for p in (4, 5, 6)[:2 if not th else 3]]
    for j in jobs:
        k = dict(base, **j); label = '%s P=%d%s' % (k['Mode'], k['P'], ' Adv=%d' % k['Adv'] if k['Mode'] == 'adv' else '')
        dist, gen, scripts, ok = minieng.model('MCGarbage', k, [], timeout=200 if not th else 2000)
        c.stats.mc_states += dist; c.stats.mc_transitions += gen
        random.Random(c.seed).shuffle(scripts); total = len(scripts); scripts = scripts[:600 if not th else 20000]
        c.engines['histories ' + label] = dict(states=dist, histories=total, histories_executed=len(scripts), exhausted=ok)
        if not scripts: raise ToolError('no histories from MCGarbage ' + label)
        if minieng.check(c, mceng.execute(prog, scripts, 'gc'), 'TraceGarbage'): return
SCHED = ['dfs=2', 'cap=100', 'rnd=25']
SCHED_TH = ['dfs=3', 'cap=1500', 'rnd=300']
def p18(c):
    sc = SCHED_TH if c.thorough else SCHED
    conceng.run(c, [{}, dict(predisc=90, maxops=2, emit=34, connect=20, num=10, threads3=20), dict(emit=34, disc=24, connect=20, bnew=3), dict(nest=80, dnest=60, cnest=40, threads3=20, maxops=2)], per=96, per_th=4000, args=sc)
    if not c.violations: conceng.run_model(c, ['two', 'gone', 'grp', 'blk', 'blk0+'])
def p19(c):
    sc = SCHED_TH if c.thorough else SCHED
    ts = ('-fsanitize=thread',)
    prof = [{}, dict(bnew=22, bdel=16, bblock=12, bunblock=10, blockedq=10, disc=24, connected=12), dict(objs=90, trk=80, odrop=30, num=12, empty=8), dict(nest=70, dnest=60, cnest=50), dict(sigs2=90, chain=50, del_=80)]
    conceng.run(c, prof, per=320, per_th=6000, args=sc, flags=ts, san=None, label='thread sanitizer', validate=False)
    if c.violations: return
    conceng.run(c, prof, per=80, per_th=2000, args=['dfs=0', 'cap=1', 'rnd=0', 'free=40' if not c.thorough else 'free=400'], flags=ts + ('-DCFG_MUTEX=1',), san=None, label='free-running, signals2::mutex, thread sanitizer', events=60000)
    if c.violations: return
    conceng.run(c, prof, per=40, per_th=2000, args=sc, label='address sanitizer', events=60000)
    if not c.violations: conceng.run_model(c, ['trk', 'chain'], flags=ts, san=None, validate=False)
def p20(c):
    sc = SCHED_TH if c.thorough else SCHED
    conceng.run(c, [dict(nest=80, dnest=80, cnest=60), dict(fault=75, setcomb=26, combq=30, connect=24, nest=60), dict(sigs2=90, chain=60, nest=80, dnest=70, objs=80), dict(throw=40, nest=70, dnest=60)], per=96, per_th=4000, args=sc)
    if not c.violations: conceng.run_model(c, ['fault', 'nest', 'chain'])
# the sequential properties, with a second thread at work
THR = {
    'P01': dict(emit=36, disc=20, connect=20, predisc=60),
    'P02': dict(grouped=95, connect=34, disc=20, emit=24, predisc=70, discGrp=8),
    'P03': dict(disc=34, emit=34, connected=10, discAll=6, discGrp=6, discFn=6, del_=70, scoped=60, hdel=14, nest=20),
    'P04': dict(block=95, bnew=26, bdel=20, bblock=16, bunblock=16, blockedq=12, emit=34, nest=10),
    'P05': dict(connect=40, setcomb=26, emit=36, nest=50, cnest=40, combq=10),
    'P06': dict(objs=95, trk=95, odrop=40, emit=40, connected=8, nest=25, dnest=10),
    'P07': dict(disc=34, emit=40, nest=50, dnest=40, discAll=6),
    'P08': dict(nest=80, dnest=80, cnest=60, objs=60),
    'P11': dict(throw=90, emit=40, disc=14, objs=60),
    'P12': dict(num=30, empty=20, connected=26, blockedq=16, combq=12, setcomb=10, objs=80, odrop=20, disc=24),
    'P16': dict(sigs2=100, chain=80, del_=80, emit=36, disc=16, nest=30),
    'P17': dict(ext=95, connect=34, emit=40, disc=16, discFn=8),
    'P29': dict(discGrp=24, discFn=24, grouped=70, connect=24, emit=20, nest=30),
}
THRM = {'P01': 'two+', 'P02': 'grp+', 'P03': 'two+', 'P04': 'blk+ blk0+', 'P05': 'cmb+', 'P06': 'trk+', 'P07': 'dt+', 'P08': 'trk+', 'P12': 'trk+', 'P16': 'chn+', 'P29': 'grp+'}
def thr(c):
    conceng.run(c, [THR[c.prop]], per=32, per_th=1200, args=['dfs=2', 'cap=60', 'rnd=10'] if not c.thorough else SCHED_TH, label='with other threads', events=60000)
    if c.prop in THRM and not c.violations: conceng.run_model(c, THRM[c.prop].split(), args=('dfs=2', 'cap=80', 'rnd=10'), cap=40, live=False, events=80000)
EXTRA = {       # property -> further engines
    'P18': [p18],
    'P19': [p19],
    'P20': [p20],
    'P22': [p22],
    'P24': [p24],
    'P23': [p23],
    'P25': [p25],
    'P26': [p26],
    'P27': [p27],
    'P09': [p09],
    'P10': [p10],
}
for p_ in THR: EXTRA.setdefault(p_, []).append(thr)
def run(c):
    if c.prop in SEQ: seq_random(c)
    if c.prop in MC and not c.violations: mc_themes(c)
    for f in EXTRA.get(c.prop, []):
        if not c.violations: f(c)

NA = {}
def claimed(p): return p in SEQ or p in EXTRA
BASE = 'TLA+ (TLC): '
CONF = ' Bounds: exhaustive histories up to the depth of each theme, random programs of some tens of operations; what no executed program reaches is not covered.'
SIG = 'traces of the real code validated against Signals2.tla'
TECH = {
 'P01': ('random programs, replayed behaviours of MCSignals2 (order, nested) and threads (MCConc two+); ' + SIG, 'Exactly the calls the specification predicts, in every emission.'),
 'P02': ('random grouped programs, MCSignals2 (order, order2), threads (grp+); ' + SIG, 'The order of calls is deterministic in the specification.'),
 'P03': ('random programs over every route of disconnection, MCSignals2 (select), threads (two+); ' + SIG, 'Calls, queries and destructions after every disconnection.'),
 'P04': ('random programs with blocks, MCSignals2 (block), threads (blk+, blk0+); ' + SIG, 'Counting of blocks is part of the state.'),
 'P05': ('random programs whose slots act, MCSignals2 (nested, comb), threads (cmb+); ' + SIG, 'Every emission keeps the list and combiner it began with.'),
 'P06': ('random programs with tracked objects, MCSignals2 (track), threads (trk+) with objects given up at every schedule point; ' + SIG, 'Lifetimes are events: a late or early destruction is refused.'),
 'P07': ('random programs, MCSignals2 (dtor), threads (dt+); ' + SIG, 'Every destruction of a slot function is an event with a place.'),
 'P08': ('random programs with destructors that act, MCSignals2 (dtor, fbulk with failing allocations), threads (trk+); ' + SIG, 'The mutex type reports user code running while it is held.'),
 'P09': ('random programs, MCSignals2 (comb, throw); a told combiner driven by MCCombiners; traces validated against Signals2.tla and Combiners.tla', 'All uses of slot iterators up to 4 (5) actions.'),
 'P10': ('all configurations and outcome sequences of MCCombiners replayed; traces validated against Combiners.tla', 'Up to 3 (4) slots and 2 emissions, 14 configurations, both implementations.'),
 'P11': ('random programs with exceptions, MCSignals2 (throw), threads; ' + SIG, 'State after every exception is that of the specification.'),
 'P12': ('random programs full of queries, MCSignals2 (query), threads (trk+); ' + SIG, 'Answers are computed by the specification; with threads, some linearization must explain them.'),
 'P13': ('random programs of handle operations, MCSignals2 (handle), equality and order of all pairs of handles; ' + SIG, 'Aliasing exhaustive up to 4-5 operations.'),
 'P14': ('random programs of scoped connections, MCSignals2 (scoped, scopedb); ' + SIG, 'All sequences of assignments, moves, swaps and releases within the bounds.'),
 'P15': ('random programs with moves, swaps and destruction, MCSignals2 (move); ' + SIG, 'Also from inside slots and combiners of the signal concerned.'),
 'P16': ('random programs with chained signals (both implementations), MCSignals2 (chain), threads (chn+); ' + SIG, 'Chains up to 3 signals.'),
 'P17': ('random programs with extended slots, MCSignals2 (ext), threads; ' + SIG, 'Extended slots report which connection they were given.'),
 'P18': ('two- and three-thread programs, random and from MCConc, under explored schedules; TLC searches the linearizations allowed by Signals2.tla for every recorded history', 'Preemption bound 2 (3) and random schedules; MCConc itself is explored over all interleavings.'),
 'P19': ('programs of Signals2/MCConc under schedules invisible to the thread sanitizer, free-running, and under the address sanitizer; specification events race/crash are never allowed', 'Happens-before of the executed schedules; not weak-memory behaviour of hardware.'),
 'P20': ('threads with failing allocations, exceptions and nesting under explored schedules, MCConc (fault, nest, chain) with deadlock freedom and progress; ' + SIG, 'Hangs, locks kept and two locks held at once are refused.'),
 'P21': ('random programs with failing allocations and copies, sweep of the failing allocation over behaviours of MCSignals2 (fconn, fbulk, fstate, fquery); ' + SIG, 'Each allocation of the last operation of each script fails in turn.'),
 'P22': ('code-level model GarbageImpl.tla for histories of unbounded length; patterns and adversarial histories of MCGarbage replayed and validated against Garbage.tla', 'Model: at most 3 (4) live connections. Code: patterns repeated hundreds of times.'),
 'P23': ('all arrangements of MCArgs replayed, random programs, both implementations; traces validated against Args.tla', '15 signatures, up to 3 slots.'),
 'P24': ('all histories of MCSlots (three configurations) replayed, random programs; traces validated against Slots.tla', 'Objects are also lost inside operations, through foreign pointers.'),
 'P25': ('all histories of MCDeconstruct replayed, random programs, failing allocations and constructors; traces validated against Deconstruct.tla', 'Two objects, up to 5 (6) operations; ten kinds of classes, both implementations.'),
 'P26': ('all histories of MCDeconstruct replayed, random programs; traces validated against Deconstruct.tla', 'Eight kinds of classes, with and without NDEBUG.'),
 'P27': ('all schedules of MCMutex replayed on real threads, thread sanitizer, stress; traces validated against Mutex.tla', '3 threads, 2 mutexes, 5 (7) operations.'),
 'P28': ('random programs with trackable objects bound in every way, MCSignals2 (trackt); ' + SIG, 'Directly, by bind at several depths, pointer, reference wrapper, value.'),
 'P29': ('random programs, MCSignals2 (select), threads (grp+), both implementations; ' + SIG, 'Equivalent groups, equal functions, chained signals.'),
 'P30': ('random programs in five configurations and MCSignals2 (order, move) with the non-variadic implementation, all validated against the one Signals2.tla', 'signals2::mutex, dummy_mutex, signal_type keywords, stateful comparison, non-variadic.'),
}
def technique(p): return BASE + TECH[p][0]
def level_note(p): return TECH[p][1] + (CONF if p not in ('P10', 'P27') else '')
