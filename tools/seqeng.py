"""Engine E1: random sequential programs on the real library, validated against TraceSignals2."""
import os, json
from vlib import *

MODULE, CFG = 'TraceSignals2', 'TraceSignals2.cfg'

def drive(jobs):
    """jobs: (label, program, profile dict, seed, n programs); returns list of (program lines, meta)"""
    def one(j):
        label, prog, profile, seed, n = j
        out = '%s/%s.%d.nd' % (work(), label, seed)
        run_driver(prog, out, ['rand', out, str(seed), str(n)] + ['%s=%d' % kv for kv in profile.items()], total=n)
        meta = dict(label=label, prog=prog, profile=profile, seed=seed)
        r = [(p, meta) for p in split_programs(out)]
        os.unlink(out)
        return r
    return sum(pmap(one, jobs), [])

FEATURES = {
    'block': lambda e: e.get('o', '').startswith('b') and e.get('o') not in ('blockedq',),
    'disc': lambda e: e.get('o') in ('disc', 'discAll', 'discGrp', 'discFn', 'discSig', 'hdel', 'hset', 'hmas', 'has', 'hdisc', 'del', 'massign', 'odrop') or e.get('x') == 99,
    'discsel': lambda e: e.get('o') in ('discGrp', 'discFn', 'discSig'),
    'group': lambda e: e.get('o') == 'connect' and (e.get('p') == 1 or e.get('fr') == 1 or e.get('p') == 0),
    'trk': lambda e: e.get('o') == 'connect' and bool(e.get('trk')) ,
    'objt': lambda e: e.get('o') == 'onew' and e.get('kind') == 't',
    'chain': lambda e: e.get('o') == 'connect' and e.get('kind') == 'c',
    'ext': lambda e: e.get('o') == 'connect' and e.get('kind') == 'x',
    'scoped': lambda e: e.get('o', '') in ('hnew', 'hcpy', 'hmov') and e.get('kind') == 's',
    'handle': lambda e: e.get('o', '').startswith('h'),
    'move': lambda e: e.get('o') in ('del', 'move', 'massign', 'swap'),
    'throw': lambda e: e.get('e') == 'cthrow' or (e.get('e') == 'cend' and e.get('x')),
    'setcomb': lambda e: e.get('o') == 'setcomb',
    'fault': lambda e: e.get('flt', 0) != 0,
    'emit': lambda e: e.get('o') == 'emit',
}
def features(prog):
    fs, depth = set(), 0
    for line in prog:
        e = json.loads(line)
        if e['e'] == 'op':
            for k, f in FEATURES.items():
                if f(e): fs.add(k)
            if depth > 0: fs.add('nested')
        elif e['e'] in ('cthrow', 'cend'):
            if FEATURES['throw'](e): fs.add('throw')
        if e['e'] in ('call', 'comb'): depth += 1
        elif e['e'] in ('cret', 'cthrow', 'cend'): depth -= 1
        if e['e'] in ('sdtor', 'odtor'): fs.add('dtor')
    return fs

EMIT = {'emit:' + k for k in ('comb', 'deref', 'call', 'cret', 'cthrow', 'derr', 'derx', 'inc', 'incr', 'cend', 'reset', 'op')} | {'ret:emit', 'badeq'}
LIFE = {'quiet', 'sdtor', 'end', 'leak'}
QUERY = {'ret:num', 'ret:empty', 'ret:connected', 'ret:combq', 'ret:blockedq', 'ret:hconn', 'ret:hblk'}
DEAD = {'lock', 'deadlock', 'hang', 'lk', 'badmutex'}
CRASH = {'crash', 'terminate'}
OPS_EXC = {'ret:' + o for o in ('connect', 'setcomb', 'disc', 'discAll', 'discGrp', 'discFn', 'discSig', 'new', 'del', 'bnew', 'bcopy', 'bassign', 'bblock')}

# property -> (classes of rejected events, features one of which the program must use)
ATTR = {
    'P01': (EMIT | CRASH, None),
    'P02': (EMIT, None),
    'P03': (EMIT | LIFE | QUERY | CRASH, {'disc', 'throw'}),
    'P04': (EMIT | {'ret:blockedq', 'ret:bblocking', 'ret:num', 'ret:connected', 'ret:empty'} | CRASH, {'block', 'disc'}),
    'P05': (EMIT | LIFE | CRASH, {'nested', 'setcomb'}),
    'P06': (EMIT | LIFE | QUERY | CRASH | {'odtor', 'lock', 'lk'}, {'trk'}),
    'P07': (LIFE | CRASH, None),
    'P08': (DEAD, None),
    'P09': (EMIT | {'ret:combq'} | CRASH, {'emit'}),
    'P11': (EMIT | LIFE | QUERY | CRASH | OPS_EXC, {'throw'}),
    'P12': (QUERY | CRASH | {'quiet', 'ret:null'}, None),
    'P13': (QUERY | EMIT | LIFE | CRASH | {'badself', 'ret:heq', 'ret:hlt'}, {'handle'}),
    'P14': (EMIT | QUERY | LIFE | CRASH | {'ret:heq'}, {'scoped'}),
    'P15': (EMIT | QUERY | LIFE | CRASH | {'ret:null', 'ret:eqh'} | OPS_EXC, {'move'}),
    'P16': (EMIT | QUERY | LIFE | CRASH | {'odtor'}, {'chain'}),
    'P17': (EMIT | QUERY | LIFE | CRASH | {'badself'}, {'ext'}),
    'P18': (EMIT | QUERY | LIFE, None),
    'P19': (CRASH | LIFE, None),
    'P20': (DEAD, None),
    'P21': (EMIT | QUERY | LIFE | CRASH | OPS_EXC | DEAD, {'fault'}),
    'P22': (EMIT | LIFE | QUERY | CRASH, None),
    'P24': (EMIT | LIFE | CRASH | {'odtor'}, {'trk'}),
    'P28': (EMIT | QUERY | LIFE | CRASH | {'odtor'}, {'objt'}),
    'P29': (EMIT | QUERY | LIFE | CRASH | OPS_EXC, {'discsel'}),
    'P30': (EMIT | QUERY | LIFE | CRASH | DEAD | OPS_EXC | {'odtor', 'badself', 'ret:null', 'ret:eqh', 'ret:bblocking'}, None),
}
def attributable(prop, cls, prog):
    classes, need = ATTR[prop]
    return cls in classes and (need is None or bool(need & features(prog)))
