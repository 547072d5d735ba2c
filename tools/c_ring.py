"""D01.. disruptor: ring buffer, processors, pools, pollers, wait strategies"""
MC = 'CONSTANTS Producer = {{1, 2}} MaxSeq = {} Topo = "{}"\nSPECIFICATION {}\nINVARIANT Inv\n{}CHECK_DEADLOCK TRUE\n'
TR = 'CONSTANTS Producer = {1, 2, 3} MaxSeq = 1000\nSPECIFICATION TraceSpec\nCONSTRAINT TraceInv\nCHECK_DEADLOCK FALSE\n'


def model(c, topos, live=True):
    for t in topos:
        c.model('RingModel', MC.format(3 if c.thorough else 2, t, 'MLive' if live else 'MSpec', 'PROPERTY Progress\n' if live else ''))


def ring(what, topos, minimum=500, src='ring.cpp'):
    def f(c):
        model(c, topos)
        b = c.build(src, shims=('.',))
        rec = c.run_checked(b, [f'what={what}'], what='ring buffer', timeout=600)
        c.validate('RingTrace', TR, rec, minimum=minimum, what='ring buffer')
    return f


def proc(what, topos):
    return ring(what, topos, src='proc.cpp')


def queue(c):
    c.model('WorkQueueModel', 'CONSTANTS Thread <- T3 Values <- V3\nSPECIFICATION MSpec\nINVARIANTS Once Kept\nPROPERTY Served\nCHECK_DEADLOCK TRUE\n')
    b = c.build('workqueue.cpp', shims=('.',))
    rec = c.run_checked(b, what='task queue', timeout=600)
    c.validate('WorkQueueTrace', 'CONSTANTS Thread = {} Values = 0\nSPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n', rec, minimum=500, what='task queue')


CHECKS = {'D09': queue, 'D04': ring('dsl', ['chain', 'join', 'pool'], src='dsl.cpp'), 'D03': proc('batch', ['one', 'chain', 'join']), 'D05': proc('pool', ['pool']), 'D06': proc('life', ['one', 'chain']), 'D08': proc('poll', ['two', 'join']),
          'D01': ring('claim', ['one', 'two']), 'D02': ring('visible', ['one', 'chain', 'join']), 'D10': ring('gating', ['two', 'late'])}
