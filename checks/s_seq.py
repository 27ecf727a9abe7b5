def define(add, scr):
    add('C24', 'thread-attr', 'attr.c', defs=['THREADATTR'], unwind=9)
    add('C24', 'object-attr', 'attr.c')
    add('C30', 'seq', 'name.c', defs=['SEQ'], unwind=9)
    add('C30', 'nproc', 'name.c', defs=['NPROC'], unwind=66)
    A = lambda nm, *s, **k: add('C30', nm, 'name.c', len(s), k.pop('rounds', 4), tier=k.pop('tier', 'quick'), defs=scr(*s, **k), unwind=4)
    A('first2', 'I', 'I', FIRST=1)
    A('first3', 'I', 'I', 'I', FIRST=1, rounds=3)
    A('race2', "N(1,'a') N(1,'b')", "G(1) G(1)")
    A('race3', "N(1,'a')", "N(1,'b')", 'G(1)', rounds=3)
    add('C25', 'sets', 'cpu.c', defs=['SETS'], unwind=66)
    add('C25', 'count', 'cpu.c', defs=['COUNT'], unwind=66)
    add('C25', 'process', 'cpu.c', defs=['PROCESS'], unwind=9)
    add('C25', 'thread', 'cpu.c', defs=['THREAD'], unwind=9)
    add('C25', 'create', 'cpu.c', defs=['CREATE'], unwind=9)
    add('C26', 'seq', 'prio.c', defs=['SEQ'])
    add('C26', 'sched', 'prio.c', defs=['SCHED'])
    add('C26', 'create', 'prio.c', defs=['CREATE'])
    B = lambda nm, *s, **k: add('C26', nm, 'prio.c', len(s), k.pop('rounds', 4), tier=k.pop('tier', 'quick'), defs=scr(*s, **k))
    B('race2', 'S(1)', 'S(1) G(2)')
    B('race3', 'S(1)', 'S(1)', 'S(2) G(1)', rounds=3)
    for n, w in ((1, 'far'), (2, 'mutex'), (3, 'cond'), (4, 'wrlock'), (5, 'join'), (6, 'rdlock')): add('C23', 'abs-' + w, 'time.c', defs=['ABS=%d' % n])
    for w in (0, 4294967, 2147483, 4194304, 8589934, 31536000): add('C23', 'window-%d' % w, 'time.c', defs=['ABS=1', 'WIN=%d' % w])
    add('C23', 'abs-near', 'time.c', defs=['ABS=1', 'NEAR'])
    add('C23', 'interval', 'time.c', defs=['REL'])
    add('C23', 'convert', 'time.c', defs=['CONV'])
    add('C23', 'delay', 'time.c', defs=['DELAY'])
