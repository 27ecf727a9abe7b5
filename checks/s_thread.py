"""C15-C22, C27, C28: threads and what hangs off them."""
def define(add, scr):
    P = ['--prune', '3']
    for d, a, n, t in ((7, 2, 3, 'quick'), (7, 3, 2, 'quick'), (5, 3, 3, 'quick'), (2, 4, 3, 'quick'), (7, 3, 3, 'thorough')): add('C15', 'seq-%d-%d-%d' % (d, a, n), 'tsd.c', defs=['SEQ', 'DSET=%d' % d,'ACTS=%d' % a,'NK=%d' % n], unwind=9, tier=t, args=P)
    for d, a, t in ((7, 5, 'quick'), (7, 6, 'thorough'), (2, 6, 'quick')): add('C15', 'del-%d-%d' % (d, a), 'tsd.c', defs=['SEQ', 'DSET=%d' % d,'ACTS=%d' % a,'NK=2', 'NEWKEY'], unwind=9, tier=t, args=P)
    G = lambda prop, h, nm, *s, **k: add(prop, nm, h, len(s), k.pop('rounds', 3), tier=k.pop('tier', 'quick'), cost=k.pop('cost', 1), **{x: k.pop(x) for x in ('unwind', 'vis', 'fair', 'timeout') if x in k}, defs=scr(*s, **k))
    T = lambda nm, *s, **k: G('C15', 'tsd.c', nm, *s, PLAIN=1, NK=1, **k)
    T('set2', 'V(0) G(0)', 'V(0) G(0)', rounds=3, unwind=4)
    T('exit2', 'E G(0)', 'E G(0)', rounds=2, unwind=4)
    T('setexit2', 'V(0) E G(0)', 'V(0) E', rounds=3, unwind=5)
    I = lambda *ts: 'INIT=' + ' '.join('__vx_set_tid(%d);' % t + ''.join('put(%d,(void*)%dLL);' % (k, t * 8 + k + 1) for k in ks) for t, ks in ts)
    def U(nm, init, *s, **k): G('C16', 'tsd.c', nm, *s, PLAIN=1, NK=k.pop('nk', 2), **k); import scen; scen.S['C16'][-1]['defs'].append(init)
    U('exit2', I((2, [0])), 'X(0)', 'E', nk=1, rounds=4, unwind=4)
    U('exit2b', I((2, [0, 1])), 'X(0)', 'E', rounds=3, unwind=5)
    U('exit3', I((2, [0]), (3, [0])), 'X(0)', 'E', 'E', nk=1, rounds=3, unwind=4)
    U('two-keys3', I((3, [0, 1])), 'X(0)', 'X(1)', 'E', rounds=3, unwind=5)
    U('set3', I((2, [0]), (3, [0])), 'X(0)', 'V(1) E', 'V(1) G(1)', rounds=3, unwind=5)
    U('new2', I((2, [0])), 'X(0) C(0) G(0)', 'E', nk=1, rounds=4, unwind=4)
    U('dtor-del2', I((2, [0]), (1, [1])), 'E', 'E', DA=1, rounds=4, unwind=4)
    U('dtor-self2', I((2, [0]), (1, [0])), 'E', 'E', nk=1, DA=0, rounds=3, unwind=4)
    U('exit4', I((2, [0]), (3, [0]), (4, [0])), 'X(0)', 'E', 'E', 'E', nk=1, rounds=3, unwind=5, tier='thorough')
    U('exit2b-4', I((2, [0, 1])), 'X(0)', 'E', rounds=5, unwind=6, tier='thorough')
    for nm, b, a in (('return', '', ''), ('pthread_exit', 'BX', ''), ('cancel', 'BC', 'AC')): add('C15', 'real-' + nm, 'tsd.c', 2, 3, defs=['REALT', 'NK=2', 'ACTS=2', 'BODY=' + b, 'AFTER=' + a], unwind=6)
    def R(prop, nm, *s, **k): k.setdefault('rounds', 5 if k.get('REAL') else 3); k.setdefault('CANCELS', '"!cancelled"'); G(prop, 'cancel.c', nm, *s, **k)
    M = lambda nm, *s, **k: R('C18', nm, *s, **k)
    M('test2', 'T_ Y T_', 'K(1)')
    M('again2', 'C K(2) K(2) J', 'D T_ E T_ T_', REAL=1)
    M('disabled2', 'D T_ Y E T_', 'K(1)', rounds=4)
    M('disabled-wait2', 'D W Y E T_', 'K(1) V', rounds=4)
    M('deferred-user2', 'Y L Y U T_', 'K(1)', rounds=4)
    M('disabled3', 'D T_ Y E T_', 'K(1)', 'Y')
    M('end2', 'C K(2) J', 'Y', REAL=1, CANCELS='"cancelled"')
    M('end-async2', 'C K(2) J', 'A AP F', REAL=1, CANCELS='"cancelled"')
    M('exit-async2', 'C K(2) J', 'A AP X', REAL=1, CANCELS='"cancelled"')
    M('return-async2', 'C K(2) J', 'A AP', REAL=1, CANCELS='"cancelled"')
    M('settings2', 'B D B E B F B T_', 'K(1)', CANCELS='"cancelled"', rounds=4)
    M('settings1', 'B D A B F E A D B F B E B', 'Y', CANCELS='"cancelled"')
    M('self1', 'KS Y T_', 'Y')
    M('self-async1', 'A KS T_', 'Y')
    M('self-disabled1', 'D KS T_ E T_', 'Y')
    M('async2', 'A AP AP AP', 'K(1)', rounds=4)
    M('async-disabled2', 'D A AP AP E AP', 'K(1)', rounds=4)
    M('async-type2', 'Y A AP AP', 'K(1)', rounds=4)
    M('async3', 'A AP AP', 'K(1)', 'D T_ E', CANCELS='"!cancelled"')
    M('start2', 'C K(2) J', 'T_', REAL=1)
    M('real2', 'C K(2) J', 'T_ Y T_', REAL=1)
    M('real3', 'C J', 'D T_ E T_', 'Y', REAL=1, CANCELS='"cancelled"')
    M('real-async2', 'C K(2) J', 'A AP AP', REAL=1)
    M('real-disabled2', 'C K(2) J', 'D W E T_', REAL=1)
    N = lambda nm, *s, **k: R('C17', nm, *s, **k)
    N('nested2', 'P(1) P(2) P(3) T_ Q(0) T_ Q(1) T_ Q(0)', 'K(1)')
    N('inner2', 'P(1) T_ P(2) T_ Q(1) P(3) T_ Q(0) T_ Q(1) T_', 'K(1)')
    N('pop-test2', 'P(1) P(2) Q(1) Q(0)', 'K(1)', HB='HT')
    for h in ('HT', 'HS'): N('exit-%s2' % h, 'C K(2) J', 'P(1) P(2) X Q(0) Q(0)', REAL=1, HB=h, DB=h, PATIENT=0, rounds=4, CANCELS='"cancelled"')
    N('return-HS2', 'C K(2) J', 'Y', REAL=1, DB='HS', PATIENT=0, rounds=4, CANCELS='"cancelled"')
    N('wait2', 'P(1) P(2) W Q(1) Q(1)', 'K(1)')
    N('async2', 'P(1) P(2) A AP AP F Q(1) Q(0)', 'K(1)')
    N('real-nested2', 'C K(2) J', 'P(1) P(2) T_ Q(1) T_ Q(0) T_', REAL=1)
    N('real-normal2', 'C K(2) J', 'P(1) P(2) Q(1) Q(0)', REAL=1, HB='HT')
    O = lambda nm, *s, **k: R('C19', nm, *s, **k)
    for op in ('W', 'WT', 'CW', 'CT', 'DL', 'D0'): O(op.lower() + '2', op, 'K(1)', rounds=4)
    for op in ('JW', 'JT'): O(op.lower() + '2', op, 'K(1)', rounds=4, OTHER=1)
    for op, b in (('W', 'V'), ('WT', 'V'), ('CW', 'SIG'), ('CT', 'SIG')): O(op.lower() + '3', op, 'K(1)', b)
    for nm, op, b in (('lock', 'L U', 'L Y U'), ('read', 'RD', 'WR'), ('barrier', 'BW', 'BW')): O(nm + '3', op + ' T_', 'K(1)', b)
    O('both3', 'W', 'WT', 'K(1) K(2)')
    O('real2', 'C K(2) J', 'W', REAL=1)
    O('real-ct2', 'C K(2) J', 'CT', REAL=1)

    def Th(prop, nm, n=2, tier='quick', rounds=4, unwind=4, **k): add(prop, nm, 'thread.c', n, rounds, tier=tier, unwind=unwind, defs=['%s=%s' % kv for kv in k.items()])
    J = lambda nm, **k: Th('C20', nm, **k)
    DET = 'pthread_attr_setdetachstate(&att,PTHREAD_CREATE_DETACHED);'
    J('return', S1='C(2) J(2)', B2='Y')
    J('exit', S1='C(2) J(2)', B2='Y X')
    J('try', S1='C(2) TJ(2) TJ(2) JF(2)', B2='')
    J('timed', S1='C(2) TM(2) TM(2) JF(2)', B2='X')
    J('mixed', S1='C(2) TJ(2) TM(2) DF(2)', B2='X')
    J('detach', S1='C(2) DT(2)', B2='')
    J('detach-exit', S1='C(2) DT(2)', B2='X')
    J('detach-self', S1='C(2)', B2='DS X')
    J('detach-dtor', S1='C(2)', B2='', DB='DDS')
    J('detach-dtor-exit', S1='C(2)', B2='X', DB='DDS')
    J('detached', S1='C(2)', B2='JS(EINVAL)', AT='&att', ATINIT=DET + 'det[2]=1;')
    J('self', S1='C(2) J(2)', B2='JS(EDEADLK)')
    J('cancel-join', S1='C(2) K(2) J(2)', B2='TC')
    J('cancel-wait', S1='C(2) K(2) J0(2)', B2='W')
    J('cancel-detach', S1='C(2) K(2) DT(2)', B2='TC', rounds=3)
    J('cancel-exit', S1='C(2) K(2) J(2)', B2='X')
    J('cancel-self', S1='C(2) TM(2) JF(2)', B2='KS TC')
    J('two', S1='C(2) C(3) J(2) J(3)', B2='', B3='X', n=3, rounds=3)
    J('detach3', SETUP='C(2)', S1='Y', B2='X', S3='DT(2)', n=3)
    J('chain', S1='C(2) J(2)', B2='C(3) J(3)', B3='X', n=3, rounds=3)
    J('pass', S1='C(2) C(3) J(3)', B2='X', B3='J(2)', n=3, rounds=3)
    Q = lambda nm, **k: Th('C21', nm, **k)
    Q('reuse', S1='C(2) J(2) C(3) SI(2) J(3)', B2='I', B3='I SO I', n=3, rounds=3)
    Q('stale', S1='I SO I', S2='I I SO OUT I', ATT=2)
    Q('stale3', S1='SO', S2='I', S3='OUT I', n=3, ATT=8)
    Q('implicit', S1='I OUT I', S2='I OUT', ATT=0, rounds=3)
    Q('implicit3', S1='I OUT', S2='I', S3='I OUT', n=3, ATT=0, rounds=3, unwind=5)
    Q('implicit3-deep', S1='I OUT', S2='I OUT', S3='I OUT I', n=3, ATT=0, rounds=3, unwind=5, tier='thorough')
    Q('implicit-new', S1='C(2) I J(2) I', B2='I', S3='I OUT', n=3, ATT=2, rounds=3)
    Q('implicit-new-deep', S1='C(2) I J(2) I', B2='I I', S3='I OUT I', n=3, ATT=2, tier='thorough')
    Q('detached', S1='C(2) I', B2='I I', S3='OUT I', AT='&att', ATINIT=DET + 'det[2]=1;', n=3)
    add('C22', 'attributes', 'create.c', 2, 3, defs=['FULL'], unwind=9)
    for nm, a, o, t in (('alloc', 1, 0, 0), ('object', 0, 1, 0), ('thread', 0, 0, 1), ('any', 2, 1, 1)): add('C22', 'fail-' + nm, 'create.c', 2, 2, defs=['FAILS', 'ALLOCF=%d' % a, 'OBJF=%d' % o, 'THRF=%d' % t], unwind=6)
    add('C22', 'creators', 'create.c', 4, 3, defs=['S1=create(1);join(1);', 'S4=create(2);join(2);'], unwind=5)
    add('C22', 'creators-cross', 'create.c', 3, 3, defs=['S1=create(1);join(1);', 'BODY=if(w==1){create(2);join(2);}'], unwind=5)
    for w, nm in enumerate('mutex mutex-static cond cond-static rwlock rwlock-static spin spin-static sem barrier key setspecific attrs attr-name name name-kept once other none'.split(), 1):
        add('C27', nm, 'fault.c', defs=['W=%d' % w, 'NF=2'], unwind=6, args=P)
    add('C27', 'self', 'fault.c', defs=['SELF', 'NF=1'], unwind=6, args=P)
    add('C27', 'self-new', 'fault.c', defs=['SELF', 'FRESH', 'NF=1'], unwind=6, args=P)
    add('C27', 'start', 'fault.c', defs=['SELF', 'BOOT', 'NF=2'], unwind=6, args=P)

    F = lambda nm, h, *s, **k: G('C27', h, 'busy-' + nm, *s, OBJF0=k.pop('F', 1), **k)
    F('queue-lock2', 'mcs.c', 'A Y R', 'A Y R', F=2, rounds=4)
    F('queue-lock3', 'mcs.c', 'A R', 'A R', 'A R')
    F('queue-try3', 'mcs.c', 'A R', 'T R', 'A H R')
    F('once2', 'once.c', 'O', 'O', F=2)
    F('once3', 'once.c', 'O', 'O', 'O')
    F('once-cancel2', 'once.c', 'O', 'K(1) O', VICTIM=1)
    F('barrier2', 'barrier.c', 'B B', 'B B')
    F('barrier3', 'barrier.c', 'B', 'B', 'B')
    F('cond2', 'cond.c', 'W', 'S')
    F('cond3', 'cond.c', 'W', 'W', 'B')
    F('mutex2', 'mutex.c', 'L Y U', 'L Y U', KIND='PTHREAD_MUTEX_NORMAL')
    F('robust2', 'robust.c', 'L D', 'L C U', KIND='PTHREAD_MUTEX_NORMAL')
    F('sem3', 'sem.c', 'W', 'P', 'W')
    F('rwlock3', 'rwlock.c', 'R U', 'W U', 'R U')

    I_ = lambda nm, *s, **k: G('C13', 'init.c', nm, *s, **k)
    for kn, kv in (('normal', ''), ('recursive', 'RECURSIVE_'), ('errorcheck', 'ERRORCHECK_')):
        st = 'PTHREAD_%sMUTEX_INITIALIZER' % kv
        I_('mutex-%s2' % kn, 'L Y U', 'L Y U', STATIC=st, rounds=4)
        I_('mutex-%s3' % kn, 'L U', 'T U', 'M U', STATIC=st)
        I_('mutex-%s-destroy3' % kn, 'D', 'L', 'H', STATIC=st, RACE=1)
        I_('mutex-%s-use-destroy3' % kn, 'L Y U', 'D', 'H', STATIC=st, RACE=1)
        I_('mutex-%s-destroy4' % kn, 'D', 'M U', 'T U', 'H', STATIC=st, RACE=1)
    I_('cond-wait2', 'W', 'W', OBJ=2, rounds=3)
    I_('cond-signal2', 'W', 'S', OBJ=2)
    I_('cond3', 'W', 'W', 'S', OBJ=2, rounds=2)
    I_('cond-destroy3', 'D', 'W', 'H', OBJ=2, RACE=1)
    I_('cond-use-destroy3', 'W', 'D', 'H', OBJ=2, RACE=1)
    I_('rwlock2', 'L Y U', 'R Y U', OBJ=3)
    I_('rwlock-try3', 'RT U', 'T U', 'R U', OBJ=3)
    I_('rwlock-timed3', 'RM U', 'M U', 'L U', OBJ=3)
    for a in ('L', 'R', 'T', 'RT', 'M', 'RM'): I_('rwlock-destroy-%s3' % a.lower(), 'D', a, 'H', OBJ=3, RACE=1)
    I_('rwlock-use-destroy3', 'R Y U', 'D', 'H', OBJ=3, RACE=1)
    I_('rwlock-use-destroy-w3', 'L Y U', 'D', 'H', OBJ=3, RACE=1)
    for sfx, kw in (('', {}), ('-uni', dict(UNI=1))):
        I_('spin2' + sfx, 'L Y U', 'T Y U', OBJ=4, **kw)
        I_('spin3' + sfx, 'L U', 'L U', 'T U', OBJ=4, **kw)
        I_('spin-destroy3' + sfx, 'D', 'L', 'H', OBJ=4, RACE=1, **kw)
        I_('spin-use-destroy3' + sfx, 'L Y U', 'D', 'H', OBJ=4, RACE=1, **kw)
        I_('spin-destroy-try3' + sfx, 'D', 'T', 'H', OBJ=4, RACE=1, **kw)

    for st, lv, tier in ((4, 1, 'quick'), (2, 2, 'quick'), (6, 1, 'thorough'), (4, 2, 'thorough')): add('C28', 'seq-%d-%d' % (st, lv), 'life.c', defs=['SEQ', 'STEPS=%d' % st, 'LIVES=%d' % lv], unwind=8, args=P, tier=tier)
    def Z(nm, n=2, tier='quick', rounds=3, unwind=5, **k): add('C28', nm, 'life.c', n, rounds, tier=tier, unwind=unwind, defs=['%s=%s' % kv for kv in k.items()])
    Z('return', S1='C(2) J(2)', B2='N V L')
    Z('exit', S1='C(2) J(2)', B2='N V L X')
    Z('cancel', S1='C(2) K(2) J(2)', B2='V L TC')
    Z('cancel-wait', S1='C(2) K(2) J(2)', B2='V L P(W)')
    Z('detach', S1='C(2) DT(2)', B2='N V L')
    Z('detached', S1='C(2)', B2='N V L X', AT='&att', ATINIT=DET)
    Z('released', S1='C(2) J(2)', B2='L U V')
    Z('implicit2', S1='N V L OUT', S2='N V')
    Z('implicit-again2', S1='I OUT I', S2='I OUT V')
    Z('two3', n=3, S1='C(2) C(3) J(2) J(3)', B2='V', B3='N X')
    Z('chain3', n=3, S1='C(2) J(2)', B2='C(3) J(3)', B3='L X')
    Z('mixed3', n=3, S1='C(2) J(2)', B2='V', S3='I OUT')

    for w, nm in enumerate('mutex rwlock spin sem barrier cond static'.split(), 1): add('C29', 'states-' + nm, 'destroy.c', defs=['W=%d' % w], unwind=6, args=P)
    D_ = lambda nm, *s, **k: G('C29', 'destroy.c', nm, *s, **k)
    for kn in ('NORMAL', 'RECURSIVE', 'ERRORCHECK'):
        for sx, kw in (('', {}), ('-robust', dict(ROBUST='PTHREAD_MUTEX_ROBUST'))):
            kw = dict(kw, OBJ=1, KIND='PTHREAD_MUTEX_' + kn); n = kn.lower() + sx
            D_('held-%s2' % n, 'Y U', 'X X', HELD='t=1; AS(1) L', rounds=4, **kw)
            D_('held-wait-%s3' % n, 'STAY U', 'L U', 'XB', HELD='t=1; AS(1) L', rounds=3, **kw)
            D_('last-%s2' % n, 'DROP', 'DROP', rounds=4, **kw)
    D_('last-again-normal2', 'L U DROP', 'L U DROP', rounds=4, OBJ=1)
    D_('last-again-recursive2', 'L U DROP', 'L U DROP', rounds=4, OBJ=1, KIND='PTHREAD_MUTEX_RECURSIVE')
    D_('last-again-robust2', 'L U DROP', 'L U DROP', rounds=4, OBJ=1, ROBUST='PTHREAD_MUTEX_ROBUST')
    D_('rwlock-held-writer2', 'Y U', 'X X', HELD='t=1; AS(1) L', OBJ=2, rounds=4)
    D_('rwlock-held-reader2', 'Y U', 'X', HELD='t=1; AS(1) R', OBJ=2, rounds=4)
    D_('rwlock-held-readers3', 'U', 'STAY U', 'XB', HELD='t=1; AS(1) R t=2; AS(2) R', OBJ=2)
    for a, x in (('reader', 'R'), ('writer', 'L')):
        for b, y in (('reader', 'R'), ('writer', 'L')): D_('rwlock-%s-wait-%s3' % (a, b), 'STAY U', y + ' U', 'XB', HELD='t=1; AS(1) ' + x, OBJ=2)
    D_('rwlock-last2', 'DROP', 'DROP', OBJ=2, rounds=4)
    D_('rwlock-last-reader2', 'RDROP', 'DROP', OBJ=2, rounds=4)
    D_('spin-held2', 'Y U', 'X X', HELD='t=1; AS(1) L', OBJ=3, rounds=4)
    D_('spin-wait3', 'STAY U', 'L U', 'XB', HELD='t=1; AS(1) L', OBJ=3)
    D_('spin-last3', 'DROP', 'DROP', 'DROP', OBJ=3)
    D_('sem-last2', 'WT G', 'P', OBJ=4, rounds=4)
    D_('sem-last3', 'WT WG', 'WT WG', 'P P', OBJ=4, REFS=2, rounds=3)
    D_('sem-last-multiple3', 'WT WG', 'WT WG', 'PN', OBJ=4, REFS=2, rounds=3)
    D_('sem-expire2', 'WD WG', 'P WG', OBJ=4, REFS=2, rounds=4)
    D_('sem-wait2', 'WT', 'XS P', OBJ=4, rounds=3)
    D_('sem-wait3', 'WT', 'WT', 'XS P XS P', OBJ=4, rounds=3)
    D_('barrier-serial2', 'BW SG', 'BW SG', OBJ=5, rounds=4)
    D_('barrier-serial3', 'BW SG', 'BW SG', 'BW SG', OBJ=5, rounds=3)
    D_('barrier-again2', 'BW BW SG', 'BW BW SG', OBJ=5, rounds=3)
    D_('barrier-busy2', 'BW', 'XBAR BW', OBJ=5, rounds=4)
    D_('barrier-busy3', 'BW', 'BW', 'XBAR BW', OBJ=5, rounds=3)
    D_('cond-bcast-destroy2', 'CW', 'CS(broadcast) G', OBJ=6, rounds=4)
    D_('cond-bcast-destroy3', 'CW', 'CW', 'CS(broadcast) G', OBJ=6, rounds=3)
    D_('cond-waiter-destroys2', 'CW G', 'CS(signal)', OBJ=6, rounds=4)
