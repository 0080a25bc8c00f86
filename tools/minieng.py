"""Engine for the smaller specifications (Combiners, Slots, Args, Deconstruct, Mutex, ...): exhaustive model,
its scripts and random programs executed by a driver based on mini.hpp, traces validated."""
import os, random
from vlib import *
import mceng

def model(module, consts, invs, timeout=300, tag='', props=(), extra='', workers=8):
    cfg = '%s/mc-%s%s.cfg' % (work(), module, tag)
    open(cfg, 'w').write('SPECIFICATION Spec\n' + ('CONSTANTS\n' + ''.join('  %s = %s\n' % (k, mceng.val(v)) for k, v in consts.items()) if consts else '') +
                         'VIEW View\nACTION_CONSTRAINT Script\n' + ('INVARIANTS ' + ' '.join(invs) + '\n' if invs else '') +
                         ('PROPERTIES ' + ' '.join(props) + '\n' if props else '') + extra + 'CHECK_DEADLOCK FALSE\n')
    rc, out = tlc(module, cfg, workers=workers, timeout=timeout, heap='6g')
    if rc != 0 and rc != -1: raise ToolError('model %s: %s' % (module, out[-2500:]))
    gen, dist = tlc_counts(out)
    scripts = [x.rstrip('"').split(';') for x in re.findall(r'^"SCRIPT (.*)$', out, re.M)]
    return dist, gen, scripts, rc == 0

def run(c, name, src, module, variants=((),), mc=None, per=400, per_th=8000, prof=None, cap=4000, cap_th=60000, libs=()):
    """variants: compile flags of the driver; mc: (module, constants, invariants, {thorough constants})"""
    import plans
    progs = pmap(lambda v: build(src, v, libs=libs, san=None if '-fsanitize=thread' in v else True), variants)
    profs = prof or [{}]
    jobs, n = [], per if not c.thorough else per_th
    for k, pr in enumerate(profs):
        for q, pg in enumerate(progs):
            m = max(8, n // (len(profs) * len(progs))); ch = max(10, m // 4)
            for z in range(0, m, ch): jobs.append((name, pg, pr, c.seed * 100000 + (k * 10 + q) * 1000 + z // ch, min(ch, m - z)))
    import seqeng
    while jobs:
        batch, jobs = jobs[:32], jobs[32:]
        ps = seqeng.drive(batch)
        if check(c, ps, module): return
        c.engines['random programs of %s' % module] = c.engines.get('random programs of %s' % module, 0) + len(ps)
        if len(c.stats.samples) < 2: plans.samples(c, [p for p, _ in ps])
    if mc:
        mod, consts, invs, th = mc[:4]
        consts = dict(consts, **(th if c.thorough else {}))
        dist, gen, scripts, ok = model(mod, consts, invs, timeout=240 if not c.thorough else 3000, props=mc[4] if len(mc) > 4 else ())
        c.stats.mc_states += dist; c.stats.mc_transitions += gen
        m = mceng.maximal(scripts); total = len(m)
        random.Random(c.seed).shuffle(m); m = m[:cap if not c.thorough else cap_th]
        key = 'model ' + mod
        while key in c.engines: key += "'"
        c.engines[key] = dict(states=dist, transitions=gen, exhausted=ok, behaviours=total, behaviours_executed=len(m))
        for pg in progs:
            if check(c, mceng.execute(pg, m, mod), module): return

def check(c, ps, module):
    import plans
    rejs, st = plans.validate_programs_meta(ps, module, module + '.cfg')
    c.stats.add(st)
    return bool(rejs) and plans.report(c, rejs, module, module + '.cfg', attr=lambda p, cls, pr: True)
