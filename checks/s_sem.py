def define(add, scr):
    A = lambda nm, *s, **k: add(k.pop('prop', 'C04'), nm, 'sem.c', len(s), k.pop('rounds', 3), tier=k.pop('tier', 'quick'), defs=scr(*s, **k))
    add('C04', 'arith', 'semseq.c')
    A('wait-post3', 'W', 'W', 'P P')
    A('wait-postn3', 'W', 'W', 'Q')
    A('short3', 'W', 'W', 'P')
    A('init1-3', 'W P', 'W P', 'V', INIT=1)
    A('postn-over3', 'W', 'Q', 'Q V')
    A('try3', 'V W', 'P V', 'P G')
    A('timed3', 'I', 'D', 'Q', PATIENT=14)
    A('timed-mix3', 'D', 'W', 'P P', PATIENT=14)
    A('pingpong2', 'W P W', 'P W P', rounds=4)
    A('mix4', 'W', 'D V', 'Q', 'P', PATIENT=30, rounds=3)
    A('deep3', 'W W', 'W V', 'P Q P', rounds=5, tier='thorough')
    A('deep4', 'W', 'W', 'W', 'Q P', rounds=4, tier='thorough')
    B = lambda nm, *s, **k: A(nm, *s, prop='C05', **k)
    B('expire2', 'D', 'P', rounds=4)
    B('expire3', 'D', 'W', 'P P')
    B('expire-two3', 'D', 'D', 'P')
    B('expire-postn3', 'D', 'W', 'Q')
    B('expire-wait3', 'D', 'W', 'P', rounds=4)
    B('past3', 'Z', 'W', 'P')
    B('expire-again3', 'D D', 'P', 'V')
    B('cancel-wait2', 'W', 'K(1)', rounds=4)
    B('cancel-post3', 'W', 'K(1)', 'P')
    B('cancel-other3', 'W', 'W', 'K(1) P', rounds=4)
    B('cancel-postn3', 'W', 'W', 'K(1) Q', rounds=4)
    B('cancel-race4', 'W', 'W', 'K(1)', 'P', rounds=3)
    B('cancel-timed3', 'D', 'K(1)', 'P')
    B('cancel-timed-other3', 'I', 'W', 'K(1) P', rounds=4)
    B('cancel-timed-race4', 'I', 'W', 'K(1)', 'P', rounds=3)
    B('cancel-expire3', 'D', 'W', 'K(1) P', rounds=4)
    B('cancel-both3', 'W', 'I', 'K(1) Q K(2)', rounds=4, tier='thorough')
    B('deep4', 'D', 'W', 'K(2) P', 'Q', rounds=4, tier='thorough')
