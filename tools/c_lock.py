"""L01 reader-writer lock, L02 mutex"""
T = 'CONSTANTS Thread = {{{}}} Mode = "{}"\n'
TR = T + 'SPECIFICATION TraceSpec\nCONSTRAINT TraceInv\nCHECK_DEADLOCK FALSE\n'
MC = T + 'SPECIFICATION RWSpec\nINVARIANTS Exclusion CountExact NoLostLock\nCHECK_DEADLOCK TRUE\n'


def rw(c):
    c.model('RWLock', MC.format('0, 1, 2' if not c.thorough else '0, 1, 2, 3', 'rw'))
    b = c.build('rwlock.cpp')
    rec = c.run_checked(b, ['what=rw'], what='reader-writer lock')
    c.validate('RWLockTrace', TR.format('0, 1, 2, 3', 'rw'), rec, minimum=500, what='reader-writer lock')


def mutex(c):
    c.model('RWLock', MC.format('0, 1, 2', 'mutex'))
    b = c.build('rwlock.cpp')
    rec = c.run_checked(b, ['what=mutex'], what='mutex')
    c.validate('RWLockTrace', TR.format('0, 1, 2, 3', 'mutex'), rec, minimum=100, what='mutex')


CHECKS = {'L01': rw, 'L02': mutex}
