def define(add, scr):
    G = lambda prop, h, nm, *s, **k: add(prop, nm, h, len(s), k.pop('rounds', 3), tier=k.pop('tier', 'quick'), cost=k.pop('cost', 1), **{x: k.pop(x) for x in ('unwind', 'vis', 'fair') if x in k}, defs=scr(*s, **k))
    A = lambda nm, *s, **k: G('C11', 'spin.c', nm, *s, **k)
    for sfx, kw in (('', {}), ('-uni', dict(UNI=1))):
        A('lock2' + sfx, 'L Y U', 'L Y U', rounds=4, **kw)
        A('lock3' + sfx, 'L Y U', 'L Y U', 'L Y U', **kw)
        A('try3' + sfx, 'L Y U', 'T Y U T U', 'T Y U', **kw)
        A('again2' + sfx, 'L U L Y U', 'L Y U T U', rounds=4, **kw)
        A('destroy2' + sfx, 'L X Y U', 'T X U', **kw)
        A('held2' + sfx, 'L', 'T Y U T U', **kw)
        A('static2' + sfx, 'L Y U', 'L Y U', STATIC=1, **kw)
        A('static-try3' + sfx, 'T Y U', 'T Y U', 'L Y U', STATIC=1, **kw)
    B = lambda nm, *s, **k: G('C12', 'once.c', nm, *s, **k)
    B('two', 'O', 'O', rounds=4)
    B('three', 'O', 'O', 'O', rounds=4)
    B('four', 'O', 'O', 'O', 'O')
    B('again2', 'O O', 'O O', rounds=4)
    B('exit3', 'O', 'O', 'O', EXITER=1, rounds=3)
    B('exit2', 'O', 'O O', EXITER=1, rounds=4)
    B('cancel2', 'O', 'K(1) O', VICTIM=1, rounds=4)
    B('cancel3', 'O', 'O', 'K(1) O', VICTIM=1, rounds=3)
    C = lambda nm, *s, **k: G('C14', 'mcs.c', nm, *s, **k)
    C('two', 'A Y R', 'A Y R', rounds=5)
    C('three', 'A Y R', 'A Y R', 'A Y R', rounds=4)
    C('four', 'A R', 'A R', 'A R', 'A R', rounds=3)
    C('again2', 'A R A R', 'A R A R', rounds=4)
    C('try3', 'A Y R', 'T Y R T R', 'A R')
    C('transfer2', 'A H Y R', 'A H R', rounds=4)
    C('transfer3', 'A H Y R', 'A R', 'A H R', rounds=3)
    C('trytransfer3', 'T H R', 'A H H R', 'T R', rounds=3)
