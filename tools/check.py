#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree.
Exit 0: held on everything explored; 1: VIOLATION printed; 2: no answer."""
import os, sys, json, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, ToolError, BuildError, Stats

class Ctx:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.thorough = tier == 'thorough'
        s.stats = Stats(); s.notes = []; s.violations = []; s.t0 = time.time()
        s.engines = {}
    def note(s, m): print('note: ' + m, flush=True); s.notes.append(m)
    def violation(s, what, replay_text):
        d = VERIF + '/evidence/replay'; os.makedirs(d, exist_ok=True)
        p = '%s/%s-%d.txt' % (d, s.prop, len(s.violations) + 1)
        open(p, 'w').write(what + '\n\n' + replay_text + '\n')
        s.violations.append((what, p))
        print('VIOLATION property=%s replay=%s' % (s.prop, p), flush=True)
        print('  ' + what[:400], flush=True)

def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import plans
    c = Ctx(prop, tier, seed)
    rc = 0
    try:
        plans.run(c)
    except BuildError as e:
        c.violation('a program that uses only the public interface no longer compiles: %s' % e, e.log)
    except ToolError as e:
        print('ERROR: %s' % e, flush=True); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    st = c.stats
    cov = dict(states=st.states + st.mc_states, transitions=st.transitions + st.mc_transitions,
               traces_validated_against_impl=st.traces, samples=st.samples[:4] or ['-'],
               events_validated=st.events, event_kinds=st.kinds, spec_model_states=st.mc_states,
               engines=c.engines, notes=c.notes[:20])
    ev = dict(property=prop, tier=tier, seed=seed, level=plans.LEVEL.get(prop, 'model_checking'), coverage=cov, wall_s=round(time.time() - c.t0, 2),
              violations=[w for w, _ in c.violations])
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    if c.violations: rc = 1
    print('%s %s: %d traces, %d events, %d spec states, %.1f s' % (prop, tier, st.traces, st.events, st.states + st.mc_states, time.time() - c.t0))
    sys.exit(rc)
if __name__ == '__main__': main()
