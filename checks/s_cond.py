def define(add, scr):
    A = lambda nm, *s, **k: add(k.pop('prop', 'C06'), nm, 'cond.c', len(s), k.pop('rounds', 3), tier=k.pop('tier', 'quick'), cost=k.pop('cost', 1), defs=scr(*s, **k))
    A('sig2', 'W', 'S')
    A('sig3', 'W', 'W', 'S')
    A('sig-sig3', 'W', 'W', 'S S')
    A('bcast3', 'W', 'W', 'B')
    A('late3', 'W', 'S W', 'W')
    A('again2', 'W W', 'S S', rounds=4)
    A('bcast-late3', 'W W', 'W', 'B')
    A('unlocked3', 'W', 'W', 'N')
    A('unlocked-bcast3', 'W', 'W', 'A')
    A('expire2', 'D', 'S', rounds=4)
    A('expire3', 'D', 'W', 'S', rounds=4, cost=5)
    A('expire-late3', 'D W', 'W', 'S', rounds=4, cost=9)
    A('expire-bcast3', 'D', 'W', 'B', rounds=4, cost=5)
    A('static2', 'W', 'S', STATIC=1)
    A('past-again2', 'W W', 'S S', rounds=4, PRE=1)
    A('past-bcast2', 'W W', 'B S', rounds=4, PRE=2)
    A('past3', 'W', 'W', 'S S', PRE=1)
    A('past-mixed3', 'W Z W', 'S', 'W S', rounds=3, cost=5)
    A('past-pair3', 'Z W', 'Z W', 'S S', rounds=3, cost=9)
    A('again-bcast3', 'W W', 'W', 'S B S', rounds=3, cost=9)
    A('hist2', 'W', 'S', rounds=3, HIST=1)
    A('hist-again2', 'Z W', 'S S', rounds=3, HIST=1)
    A('hist3', 'W', 'W', 'S S', HIST=1)
    B = lambda nm, *s, **k: A(nm, *s, prop='C07', **k)
    B('destroy2', 'W', 'X')
    B('destroy-sig2', 'W', 'S X')
    B('cancel2', 'W', 'K(1)')
    B('cancel-sig2', 'W', 'K(1) S', rounds=3)
    B('cancel-sig3', 'W', 'W', 'K(1) S', rounds=3, cost=5)
    B('cancel-bcast3', 'W', 'W', 'K(1) B', rounds=3, cost=5)
    B('expire-x3', 'D', 'W', 'S X', rounds=3, cost=5)
    B('canceltimed2', 'D', 'K(1) S', rounds=4)
    B('owner-dies2', 'W', 'E', rounds=3, ROBM=1)
    B('owner-dies-timed2', 'D', 'E', rounds=3, ROBM=1)
    B('hist-destroy2', 'W', 'X', HIST=1)
    B('hist-cancel2', 'W', 'K(1) X', HIST=1, EXPIRES=1)
