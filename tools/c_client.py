"""C01..C03: the client context and its Majordomo implementation: histories with brokers played by the harness, judged by spec/ClientTrace.tla"""


def client(what, n, nt):
    def f(c):
        c.model('ClientModel', 'CONSTANTS MaxOps = %d MaxMsg = %d\nSPECIFICATION Spec\nINVARIANTS OneAnswer OwnAnswer EachNoteOnce NotesInOrder Distinct QuietMeansDone\nCHECK_DEADLOCK FALSE\n' % ((4, 4) if c.thorough else (3, 3)), timeout=3000)
        b = c.build('client.cpp', shims=('mdp', '.'))
        for w in what:
            rec = c.run_checked(b, [f'what={w}', f'n={(nt if c.thorough else n) // len(what)}'], what=f'client ({w})', timeout=800, out=f'{w}.ndjson')
            c.validate('ClientTrace', 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n', rec, minimum=200, what=f'client ({w})', timeout=800 if not c.thorough else 3000)
    return f


CHECKS = {'C01': client(['req'], 1000, 6000), 'C02': client(['sub'], 1000, 6000), 'C03': client(['stop'], 1000, 6000)}
