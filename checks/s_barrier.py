def define(add, scr):
    A = lambda nm, *s, **k: add('C08', nm, 'barrier.c', len(s), k.pop('rounds', 3), tier=k.pop('tier', 'quick'), cost=k.pop('cost', 1), defs=scr(*s, **k))
    A('two', 'B', 'B', rounds=4)
    A('two-again', 'B B', 'B B', rounds=4)
    A('two-thrice', 'B B B', 'B B B', rounds=4)
    A('three', 'B', 'B', 'B')
    A('three-again', 'B B', 'B B', 'B B', rounds=3)
    A('height1', 'B B', 'B', HEIGHT=1)
    A('mixed3', 'B B', 'B', 'B', HEIGHT=2)
    A('mixed4', 'B', 'B', 'B', 'B', HEIGHT=2)
    A('short3', 'B B', 'B', 'B B', HEIGHT=2)
    A('four', 'B', 'B', 'B', 'B', rounds=2)
