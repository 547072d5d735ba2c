"""Majordomo worker: histories through a stand-in for libzmq, judged by spec/WorkerTrace.tla"""
CFG = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n'


def histories(c, profiles, n, nt):
    b = c.build('worker.cpp', ['-fsanitize=address'], shims=('mdp', '.'))
    for w in profiles:
        k = (nt if c.thorough else n) // len(profiles)
        rec = c.run_checked(b, [f'what={w}', f'n={k}'], what=f'worker ({w})', timeout=600, out=f'{w}.ndjson')
        c.validate('WorkerTrace', CFG, rec, minimum=k, what=f'worker ({w})', timeout=800 if not c.thorough else 3000)


def design(c):
    for k in ([(6, 2, 2), (9, 2, 1)] if c.thorough else [(4, 2, 1), (8, 1, 0)]):
        c.model('WorkerModel', 'SPECIFICATION Spec\nCONSTANTS MaxTime = %d\n MaxReq = %d\n MaxNote = %d' % k + '\n Tokens = {"RBAC=R,1", "RBAC=ADMIN"}\nINVARIANTS AtMostOneReply EveryRequestAnswered DeniedNeverHandled OnlyWithRights Orderly NoticesSilence GaveUpForAReason\nCHECK_DEADLOCK FALSE\n', timeout=3000)


def w01(c):
    design(c)
    histories(c, ['serve'], 1200, 8000)


def w02(c):
    histories(c, ['serve', 'hostile'], 1200, 8000)


def w03(c):
    histories(c, ['notify'], 1200, 8000)
    b = c.build('notify.cpp', shims=('mdp', '.'))
    rec = c.run_checked(b, what='worker (threads notify)', timeout=900, out='threads.ndjson')
    c.validate('WorkerTrace', CFG, rec, minimum=500, what='worker (threads notify)', timeout=2000)


def w04(c):
    histories(c, ['live', 'hostile'], 1500, 9000)


CHECKS = dict(W01=w01, W02=w02, W03=w03, W04=w04)
