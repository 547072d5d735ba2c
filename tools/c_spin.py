"""S01 spinUntil, S02 spinOnce"""
TR = 'CONSTANTS Timeout = 0 MaxTime = 0\nSPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n'


def mk(what):
    def f(c):
        for t in (-2, -1, 0, 1, 2) + ((5,) if c.thorough else ()):
            c.model('SpinWait' + (f'Neg{-t}' if t < 0 else ''), f'CONSTANTS Timeout {"<- TO" if t < 0 else "= " + str(t)} ' + 'MaxTime = 8000\nSPECIFICATION WSpec\nINVARIANTS NeverGivesUp TrueIsTrue NotTooEarly\nPROPERTIES Terminates WaitsForTruth\nCHECK_DEADLOCK FALSE\n')
        b = c.build('spinwait.cpp')
        rec = c.run_checked(b, [f'what={what}'], what='spin wait')
        c.validate('SpinWaitTrace', TR, rec, minimum=20, what='spin wait')
    return f


CHECKS = {'S01': mk('until'), 'S02': mk('once')}
