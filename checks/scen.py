"""Scenario tables: property -> list of bounded scenarios."""
import itertools
S = {}
def add(prop, name, h, threads=0, rounds=1, tier='quick', defs=(), **k):
    d = dict(name=name, h=h, threads=threads, rounds=rounds, defs=['NT=%d' % threads] + list(defs), tier=tier, **k)
    S.setdefault(prop, []).append(d)
def scenarios(prop, tier):
    return [s for s in S.get(prop, []) if tier == 'thorough' or s['tier'] == 'quick']
def scr(*a, **k):
    return ['S%d=%s' % (i + 1, x) for i, x in enumerate(a)] + ['%s=%s' % kv for kv in k.items()]

NORMAL, RECUR, ERRCHK = 'KIND=PTHREAD_MUTEX_NORMAL', 'KIND=PTHREAD_MUTEX_RECURSIVE', 'KIND=PTHREAD_MUTEX_ERRORCHECK'
KINDS = [('normal', NORMAL), ('recursive', RECUR), ('errorcheck', ERRCHK)]
ROB = 'ROBUST=PTHREAD_MUTEX_ROBUST'
import s_sync, s_sem, s_cond, s_rwlock, s_barrier, s_misc, s_seq, s_thread
s_sync.define(add, scr)
s_sem.define(add, scr)
s_cond.define(add, scr)
s_rwlock.define(add, scr)
s_barrier.define(add, scr)
s_misc.define(add, scr)
s_seq.define(add, scr)
s_thread.define(add, scr)

# thorough tier: every quick scenario with threads once more, with one more round of context switches and one more loop iteration
def deepen():
    for p in list(S):
        for s in list(S[p]):
            if s['tier'] != 'quick' or s['threads'] < 2: continue
            d = dict(s); d['name'] = s['name'] + '-deep'; d['tier'] = 'thorough'; d['rounds'] = s['rounds'] + 1; d['unwind'] = s.get('unwind', 3) + 1; d['timeout'] = 900
            d['cost'] = -1; S[p].append(d)
deepen()
