from scen import NORMAL, RECUR, ERRCHK, KINDS, ROB
def define(add, scr):
    for kn, kd in KINDS:
        for rn, rd in (('', []), ('-robust', [ROB])):
            n = kn + rn; b = [kd] + rd
            add('C01', 'lock3-' + n, 'mutex.c', 3, 3, defs=b + scr('L Y U', 'L Y U', 'L Y U'))
            add('C01', 'mix3-' + n, 'mutex.c', 3, 3, defs=b + scr('L U T U', 'T U L U', 'M Y U'))
            nest = 'L L U T U U' if kn == 'recursive' else 'L L T U' if kn == 'errorcheck' else 'L T U'
            add('C01', 'nest2-' + n, 'mutex.c', 2, 4, defs=b + scr(nest, 'L Y U'))
            if kn == 'normal' and not rn:
                add('C01', 'seq-' + n, 'mutex.c', 1, 1, defs=b + scr('X L T U X T U P U X'))
            else:
                sq = {'recursive': 'X L L T M P U U U U U X T U X', 'errorcheck': 'X L L T M P U X', 'normal': 'X L T U X'}[kn]
                add('C01', 'seq-' + n, 'mutex.c', 1, 1, defs=b + scr(sq))
                add('C01', 'wrong-' + n, 'mutex.c', 2, 4, defs=b + scr('L Y U', 'X T U'), )
    for nm, init in (('normal', 'PTHREAD_MUTEX_INITIALIZER'), ('recursive', 'PTHREAD_RECURSIVE_MUTEX_INITIALIZER'), ('errorcheck', 'PTHREAD_ERRORCHECK_MUTEX_INITIALIZER')):
        kd = dict(KINDS)[nm]
        add('C01', 'static-' + nm, 'mutex.c', 2, 3, defs=[kd, 'STATIC=' + init] + scr('L Y U', 'T Y U'))
    for kn, kd in KINDS:
        for rn, rd in (('', []), ('-robust', [ROB])):
            n = kn + rn; b = [kd] + rd
            add('C02', 'wake3-' + n, 'mutex.c', 3, 4, defs=b + scr('L U', 'L U', 'L U'))
            add('C02', 'again2-' + n, 'mutex.c', 2, 5 if rn else 6, defs=b + scr('L U L U', 'L U L U'))
            add('C02', 'patient3-' + n, 'mutex.c', 3, 4, defs=b + scr('M U', 'L U', 'M U', PATIENT=14))
            add('C02', 'expire3-' + n, 'mutex.c', 3, 4, defs=b + scr('L U', 'M U', 'L U'))
            add('C02', 'expire-wait3-' + n, 'mutex.c', 3, 4, defs=b + scr('L U', 'M U', 'M U', PATIENT=8))
            add('C02', 'try3-' + n, 'mutex.c', 3, 4, defs=b + scr('L U', 'T U', 'L U'))
            add('C02', 'past2-' + n, 'mutex.c', 2, 4, defs=b + scr('P U L U', 'L Y U'))
            add('C02', 'wake3deep-' + n, 'mutex.c', 3, 6, tier='thorough', defs=b + scr('L U L U', 'M U L U', 'L U T U'))
            add('C02', 'wake4-' + n, 'mutex.c', 4, 5, tier='thorough', defs=b + scr('L U', 'L U', 'M U', 'T U'))
    for kn, kd in KINDS:
        b = [kd]
        R = lambda nm, *s, **k: add('C03', nm + '-' + kn, 'robust.c', len(s), k.pop('rounds', 3), tier=k.pop('tier', 'quick'), defs=b + scr(*s, **k))
        R('seq-recover', 'L D', 'Y L C C U L U', rounds=2)
        R('recover3', 'L D', 'L C U', 'L C U')
        R('norec3', 'L D', 'L U', 'L U')
        R('timed3', 'L D', 'M U', 'L C U')
        R('timednorec3', 'L D', 'M U', 'M U', PATIENT=14)
        R('heirs3', 'L U', 'L U', 'L U', PREDEAD=1)
        R('heirs-timed3', 'L U', 'M U', 'M U', PREDEAD=1, PATIENT=14)
        R('heirs-mixed3', 'M U', 'L U', 'M U', PREDEAD=1, PATIENT=14)
        R('heirs-expire3', 'T C U', 'M U', 'L U', PREDEAD=1)
        R('trytimed3', 'L D', 'T U', 'M U', PATIENT=14)
        R('dieagain3', 'L D', 'L D', 'L C U', rounds=3)
        R('try3', 'L D', 'T C U', 'T U')
        R('exit2', 'L E', 'L C U L U')
        R('released3', 'L U D', 'L U', 'T U')
        R('timedowner2', 'M D', 'L C U')
        R('tryowner2', 'T D', 'L C U L U')
        R('inheritdie3', 'L D', 'L D', 'T D', tier='thorough', rounds=4)
        R('norec3deep', 'L D', 'L U L', 'L U T', tier='thorough', rounds=5)
        R('mixdeep3', 'L D', 'M U T', 'L C U L U', tier='thorough', rounds=5)
    add('C03', 'seq-one', 'robustseq.c', defs=['ONE=1', 'K(k)=k', 'STEPS=5'], unwind=6, cost=50)
    add('C03', 'seq-two', 'robustseq.c', defs=['NM=2', 'K(k)=(k*2)', 'STEPS=5'], unwind=6, cost=50)
    add('C03', 'seq-one-deep', 'robustseq.c', defs=['ONE=1', 'STEPS=6'], unwind=7, tier='thorough', timeout=1800)
    add('C03', 'seq-two-deep', 'robustseq.c', defs=['NM=2', 'STEPS=6'], unwind=7, tier='thorough', timeout=1800)
    add('C03', 'recursive-depth', 'robust.c', 2, 3, defs=[RECUR] + scr('L L U D', 'L L U U'))
    add('C03', 'recursive-inherit', 'robust.c', 2, 3, defs=[RECUR] + scr('L L D', 'L L U C U L U'))
    add('C03', 'recursive-norec', 'robust.c', 3, 3, defs=[RECUR] + scr('L L D', 'L L U U', 'L U'))
