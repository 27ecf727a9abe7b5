def define(add, scr):
    A = lambda nm, *s, **k: add(k.pop('prop', 'C09'), nm, 'rwlock.c', len(s), k.pop('rounds', 3), tier=k.pop('tier', 'quick'), cost=k.pop('cost', 1), defs=scr(*s, **k))
    A('rw2', 'R Y U', 'W Y U', rounds=4)
    A('ww2', 'W Y U', 'W Y U', rounds=4)
    A('rrw3', 'R Y U', 'R Y U', 'W Y U')
    A('wwr3', 'W Y U', 'W Y U', 'R Y U')
    A('try3', 'R Y U', 'T Y U', 'V Y U')
    A('trymix3', 'W Y U', 'T Y U', 'V Y U')
    A('again2', 'R U W U', 'W U R U', rounds=4)
    A('timed3', 'R Y U', 'D Y U', 'E Y U')
    A('timedw3', 'W Y U', 'D Y U', 'E Y U')
    A('seq', 'R R T V U V U U W V T D U')
    A('static2', 'R Y U', 'W Y U', STATIC='PTHREAD_RWLOCK_INITIALIZER')
    A('hist-seq', 'R U R V U T U Q U V D P U U P U', HIST=1)
    A('hist2', 'R Y U R U', 'W Y U R U', rounds=4, HIST=1)
    A('hist-try2', 'T Y U T U', 'V Y U', rounds=4, HIST=1)
    A('hist-timed2', 'D Y U D U', 'E Y U', rounds=4, HIST=1)
    B = lambda nm, *s, **k: A(nm, *s, prop='C10', **k)
    B('rw3', 'R U', 'W U', 'R U')
    B('w3', 'W U', 'W U', 'R U')
    B('reuse2', 'R U R U', 'W U W U', rounds=4)
    B('expire-wr2', 'R U', 'E U R U', rounds=4)
    B('expire-wr3', 'R U', 'E U', 'W U')
    B('expire-rd3', 'W U', 'D U', 'W U')
    B('patient3', 'R U', 'E U', 'D U', PATIENT=14)
    B('past2', 'R U W U', 'P U Q U', rounds=4)
    B('hold2', 'R', 'E U')
    B('cancel-wr2', 'R K(2) U', 'W U')
    B('cancel-wr3', 'R U', 'W U', 'K(2) W U')
    B('cancel-tw3', 'R U', 'E U', 'K(2) R U')
    B('destroy2', 'W X U', 'R U')
    B('destroyrd2', 'R X U', 'W U')
    B('hist-cancel3', 'R U', 'W U', 'K(2) R U', HIST=1)
    B('hist-expire2', 'R U', 'E U R U', rounds=4, HIST=1)
