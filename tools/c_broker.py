"""Majordomo broker: histories through a stand-in for libzmq, judged by spec/BrokerTrace.tla"""
CFG = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n'


def histories(c, profiles, n, nt):
    b = c.build('broker.cpp', ['-fsanitize=address'], shims=('mdp', '.'))
    for i, w in enumerate(profiles):
        k = (nt if c.thorough else n) // len(profiles)
        rec = c.run_checked(b, [f'what={w}', f'n={k}'], what=f'broker ({w})', timeout=600, out=f'{w}.ndjson')
        c.validate('BrokerTrace', CFG, rec, minimum=k, what=f'broker ({w})', timeout=800 if not c.thorough else 3000)


def design(c):
    big = 'MaxReq = 2\n MaxTime = 2\n Asked = {"/a", "/a/b", "/a/x", "/ab"}\n Tokens = {"RBAC=ADMIN,1", "RBAC=ANY,1"}'
    small = 'MaxReq = 2\n MaxTime = 2\n Asked = {"/a/x", "/a/b"}\n Tokens = {"RBAC=ADMIN,1", ""}'
    c.model('BrokerModel', 'SPECIFICATION Spec\nCONSTANTS Clients = {"c1", "c2"}\n Workers = {"w1", "w2"}\n ' + (big if c.thorough else small) + '\nINVARIANTS RightClient OnceOnly RightWorker ExactlyOnePlace OneAtATime NoIdling Consistent Ordered\nCHECK_DEADLOCK FALSE\n', timeout=3000)


def m01(c):
    design(c)
    histories(c, ['route', 'order'], 2000, 12000)


def m02(c):
    histories(c, ['order', 'route'], 2000, 12000)


def m03(c):
    histories(c, ['match'], 1500, 9000)


def m04(c):
    histories(c, ['pubsub'], 1500, 9000)


def m05(c):
    histories(c, ['live'], 1500, 9000)


def m06(c):
    histories(c, ['hostile'], 1500, 9000)


def m07(c):
    b = c.build('dnsreg.cpp', ['-fsanitize=address'], shims=('mdp', '.'))
    rec = c.run_checked(b, what='address registry', timeout=600)
    c.validate('DnsRegistryTrace', CFG, rec, minimum=1000, what='address registry', timeout=2000)


CHECKS = dict(M07=m07, M01=m01, M02=m02, M03=m03, M04=m04, M05=m05, M06=m06)
