"""Engine E3: exhaustive exploration of MCSignals2 with TLC (invariants, action properties) and
execution of the scripts it writes on the real library."""
import os, re, random, tempfile
from vlib import *

INV = 'INVARIANTS ListInv ExecInv SnapInv DeadInv SigInv OffForEver SnapUnique Clean\nPROPERTIES Final NoLateCall Forward OrderKept\n'
BASE = dict(Threads='{1}', NH=3, NB=2, NK=1, HTypes=['c', 's'], Relax='{}', MaxOps=5, MaxConn=3, MaxObj=1, MaxSig=1, MaxDepth=6,
            Main=[], InSlot=[], InDtor2=[], InComb=[], KeyCodes=[200], Kinds=['p'], OKinds=['b'], Fns=[1], Cmps=[0], Combs=[2], Throws=[],
            Visit='all', Emit=True, Sample=1)
# theme -> (changes, MaxOps quick, MaxOps thorough)
THEMES = {
    'order':  (dict(Main=['connect', 'disc', 'discGrp', 'emit'], KeyCodes=[1, 200, 110, 111, 120, 121], MaxConn=4), 4, 5),
    'order2': (dict(Main=['connect', 'disc', 'emit'], KeyCodes=[1, 200, 110, 121], MaxConn=4, Cmps=[1]), 5, 6),
    'nested': (dict(Main=['connect', 'emit', 'disc'], InSlot=['connect', 'disc', 'emit', 'setcomb'], KeyCodes=[1, 200], MaxConn=3), 5, 6),
    'comb':   (dict(Main=['connect', 'emit'], InComb=['connect', 'disc', 'setcomb', 'emit'], InSlot=['disc'], KeyCodes=[200], MaxConn=3, Visit='free', MaxDepth=5), 5, 6),
    'block':  (dict(Main=['connect', 'emit', 'disc', 'bnew', 'bcopy', 'bassign', 'bdel', 'bblock', 'bunblock', 'blockedq'], InSlot=['bnew', 'bdel'], MaxConn=2), 6, 7),
    'track':  (dict(Main=['connect', 'emit', 'onew', 'odrop', 'num', 'connected', 'disc', 'bnew'], InSlot=['odrop', 'connected', 'num'], OKinds=['b', 's'], MaxConn=2, MaxObj=2), 5, 6),
    'trackt': (dict(Main=['connect', 'emit', 'onew', 'ocopy', 'oassign', 'odrop', 'num', 'connected'], InSlot=['odrop', 'connected'], OKinds=['t'], MaxConn=2, MaxObj=2, Kinds=['p', 'x']), 6, 7),
    'chain':  (dict(Main=['new', 'connect', 'emit', 'del', 'massign', 'discSig'], InSlot=['del', 'massign', 'disc'], Kinds=['p', 'c'], MaxConn=2, MaxSig=2, MaxDepth=6), 5, 6),
    'move':   (dict(Main=['new', 'connect', 'emit', 'del', 'move', 'massign', 'swap', 'num', 'null'], InSlot=['del', 'move', 'swap', 'massign'], MaxConn=2, MaxSig=2), 4, 5),
    'ext':    (dict(Main=['connect', 'emit', 'disc', 'discFn', 'bnew', 'bdel'], InSlot=['disc', 'connect', 'emit'], Kinds=['x', 'p'], Fns=[1, 2], MaxConn=3), 4, 5),
    'dtor':   (dict(Main=['connect', 'emit', 'disc', 'discAll', 'onew', 'odrop'], InDtor2=['connect', 'disc', 'num', 'connected', 'emit'], MaxConn=3, OKinds=['s'], MaxDepth=7), 5, 6),
    'scoped': (dict(Main=['connect', 'emit', 'hnew', 'hset', 'hcpy', 'hmov', 'has', 'hmas', 'hswp', 'hdel', 'hrel', 'disc', 'connected'], MaxConn=2, NK=2, HTypes=['s']), 5, 6),
    'scopedb': (dict(Main=['connect', 'emit', 'bnew', 'hnew', 'hset', 'hmas', 'hdel'], MaxConn=2, NK=2, NB=1), 6, 7),
    'handle': (dict(Main=['connect', 'del', 'hnew', 'hcpy', 'hmov', 'has', 'hmas', 'hswp', 'hdel', 'hrel', 'heq', 'hlt', 'hdisc', 'hconn'], MaxConn=2, NK=2), 5, 6),
    'throw':  (dict(Main=['connect', 'emit', 'connected', 'num'], InSlot=['disc', 'emit'], Throws=[1, 98, 99], Visit='free', MaxConn=2), 6, 7),
    'query':  (dict(Main=['connect', 'disc', 'num', 'empty', 'connected', 'blockedq', 'combq', 'setcomb', 'emit', 'onew', 'odrop', 'bnew'], InSlot=['num', 'empty', 'connected', 'disc'], MaxConn=2), 5, 6),
    'select': (dict(Main=['connect', 'emit', 'discGrp', 'discFn', 'num', 'disc'], InSlot=['discGrp', 'discFn'], KeyCodes=[200, 110, 120], Fns=[1, 2], Cmps=[0], Kinds=['p', 'x'], MaxConn=3), 4, 5),
    # swept with failures of allocations and copies (see faults)
    'fconn':  (dict(Main=['connect', 'disc', 'onew', 'odrop', 'emit'], KeyCodes=[200, 110, 120], OKinds=['s'], MaxConn=3), 5, 6),
    'fbulk':  (dict(Main=['connect', 'onew', 'odrop', 'emit'], InSlot=['odrop', 'connect', 'num'], KeyCodes=[200, 100], OKinds=['s'], MaxConn=3), 6, 7),
    'fstate': (dict(Main=['connect', 'disc', 'emit', 'setcomb', 'combq'], InSlot=['connect', 'setcomb', 'disc'], KeyCodes=[200, 111], MaxConn=3), 5, 6),
    'fquery': (dict(Main=['connect', 'onew', 'odrop', 'num', 'empty', 'connected', 'blockedq', 'bnew', 'emit'], Kinds=['p', 'x'], OKinds=['b', 's'], MaxConn=2, MaxObj=2), 5, 6),
}
def val(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, (list, tuple)): return '{' + ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in v) + '}'
    if isinstance(v, str) and not v.startswith('{'): return '"%s"' % v
    return str(v)

def model(theme, tier, emit=True, timeout=500, workers=8):
    """run TLC on a theme: (states, transitions, scripts); raises ToolError if the model itself is wrong"""
    ch, q, th = THEMES[theme]
    c = dict(BASE, **ch); c['MaxOps'] = th if tier == 'thorough' else q; c['Emit'] = emit
    cfg = '%s/mc-%s.cfg' % (work(), theme)
    open(cfg, 'w').write('SPECIFICATION Spec\nCONSTANTS\n' + ''.join('  %s = %s\n' % (k, val(v)) for k, v in c.items()) +
                         'VIEW View\nCONSTRAINT DepthBound\nACTION_CONSTRAINT Script\n' + INV + 'CHECK_DEADLOCK FALSE\n')
    rc, out = tlc('MCSignals2', cfg, workers=workers, timeout=timeout, heap='6g')
    if rc != 0 and rc != -1: raise ToolError('model %s: %s' % (theme, out[-2500:]))
    gen, dist = tlc_counts(out)
    scripts = [x.rstrip('"').split(';') for x in re.findall(r'^"SCRIPT (.*)$', out, re.M)]
    return dist, gen, scripts, rc == 0

def maximal(scripts):
    """drop scripts that are prefixes of others"""
    s = sorted(scripts); out = []
    for i, x in enumerate(s):
        if i + 1 < len(s) and s[i + 1][:len(x)] == x: continue
        out.append(x)
    return out

FAULTY = dict(connect=13, emit=9, setcomb=3, num=2, empty=2, connected=2, blockedq=2, bnew=2, combq=1, bcopy=1, bassign=1, bblock=1)
def faults(scripts, rng, cap, many=False):
    """the last operation that needs memory fails to get it the k-th time it asks, for every k; with many, every slot
    that tracks something is connected 12 times, and some k are drawn (copying such a list takes a lot of allocations)"""
    out = []
    scripts = list(scripts); rng.shuffle(scripts)
    for s in scripts:
        if len(out) >= cap: break
        if many:
            # in an emission an object is given up, and with it lots of slots, and then a slot is connected
            w = [t.split()[1] if t.startswith('op ') else t.split()[0] for t in s]
            if 'emit' not in w or 'odrop' not in w or not any('trk=1' in t for t in s): continue
            i, j = w.index('emit'), w.index('odrop')
            if not (i < j and 'connect' in w[j:]) or 'cend' in w[i:j + w[j:].index('connect')] or not any('trk=1' in t for t in s[:j]): continue
            s = bulk(s, 12)
        i = max([j for j, t in enumerate(s) if t.startswith('op ') and t.split()[1] in FAULTY], default=None)
        if i is None: continue
        if not many and rng.randrange(2): s = [re.sub(r'trk=(\d)$', lambda m: 'trk=' + '.'.join(m.group(1) * 11), t) for t in s]     # more than a small buffer holds
        ks = range(FAULTY[s[i].split()[1]] + 1) if not many else range(6, 46)
        for k in ks:
            out.append(s[:i] + [s[i].replace('flt=0', 'flt=%d fa=%d' % (2 if rng.randrange(5) == 0 else 1, k))] + s[i + 1:])
    return out

def bulk(s, n):
    """every connect of a slot that tracks something becomes n of them"""
    out, ids, last = [], {}, 0
    for t in s:
        m = re.search(r' c=(\d+)', t)
        if t.startswith('op connect'):
            k = 1 if t.endswith('trk=') else n
            ids[m.group(1)] = last + k
            for i in range(k): out.append(re.sub(r' c=\d+', ' c=%d' % (last + i + 1), t))
            last += k
        else: out.append(re.sub(r' c=\d+', ' c=%d' % ids.get(m.group(1), 0), t) if m else t)
    return out

def distinct(ps):
    """failures at different points that were observed to end alike are validated once"""
    seen, out = set(), []
    for p, m in ps:
        k = re.sub(r',"(fa|prog)":\d+', '', '\n'.join(p))
        if k not in seen: seen.add(k); out.append((p, m))
    return out

def execute(prog, scripts, label):
    """run scripts on the real library; returns [(program, meta)]"""
    n = max(1, (len(scripts) + CORES - 1) // CORES)
    chunks = [scripts[i:i + n] for i in range(0, len(scripts), n)]
    def one(k):
        ch = chunks[k]
        f = '%s/%s.%d' % (work(), label, k)
        open(f + '.s', 'w').write('\nreset\n'.join('\n'.join(s) for s in ch) + '\n')
        run_driver(prog, f + '.nd', ['script', f + '.nd', f + '.s'], total=len(ch), firstkey='')
        meta = dict(label=label, prog=prog)
        r = [(p, meta) for p in split_programs(f + '.nd')]
        os.unlink(f + '.s'); os.unlink(f + '.nd')
        return r
    return sum(pmap(one, range(len(chunks))), [])
