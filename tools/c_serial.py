"""Z01..Z07: buffers, the three serialisers, damaged messages, query parameters, multi-arrays; spec/Wire.tla, IoBuf.tla, JsonText.tla"""
import concurrent.futures
CFG = 'SPECIFICATION RecSpec\nINVARIANT NoneBad\nCHECK_DEADLOCK FALSE\n'
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow,alignment,nonnull-attribute,bool,vptr', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']


def model(c, module, invs):
    c.model(module, f'SPECIFICATION Spec\nINVARIANTS {invs}\nCONSTANT Deep = {"TRUE" if c.thorough else "FALSE"}\nCHECK_DEADLOCK FALSE\n', timeout=3000)


def simple(src, what, n, nt, module, mod=None, invs=None):
    def f(c):
        if mod:
            model(c, mod, invs)
        b = c.build(src, flags=SAN, shims=('.',), vsched=False)
        k = nt if c.thorough else n
        rec = c.run_checked(b, [f'what={what}', f'n={k}'], what=what, timeout=800)
        c.records(module, CFG, rec, minimum=k, what=what, timeout=800 if not c.thorough else 3000)
    return f


def built(c, protos):
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        return dict(zip(protos, ex.map(lambda p: c.build('serial.cpp', flags=SAN + [f'-DPROTO={p}'], name=f'serial_{p}', opt='-O0', shims=('.',), vsched=False), protos)))


def judge(c, b, p, what, n):
    rec = c.run_checked(b[p], [f'what={what}', f'n={n}'], what=f'{p} {what}', timeout=800, out=f'{p}_{what}.ndjson')
    c.records('WireRecords', CFG + f'CONSTANT Proto = "{p}"\n', rec, minimum=n, what=f'{p} {what}', timeout=800 if not c.thorough else 3000)


def serial(p, n, nt):
    def f(c):
        model(c, 'WireModel', 'Distinct Own Strict Common')
        b = built(c, [p])
        for what in ('wire', 'cross'):
            judge(c, b, p, what, nt if c.thorough else n)
    return f


def damage(c):
    b = built(c, ['YaS', 'CmwLight', 'Json'])
    for p, n in (('YaS', 2500), ('CmwLight', 2500), ('Json', 2500)):
        judge(c, b, p, 'damage', n * 8 if c.thorough else n)


CHECKS = {'Z01': simple('iobuf.cpp', 'buf', 1500, 12000, 'IoBufRecords', 'IoBufModel', 'Inside PutGet NoOverread'), 'Z02': serial('YaS', 1500, 12000), 'Z03': serial('CmwLight', 1500, 12000),
          'Z04': serial('Json', 1500, 10000), 'Z05': damage, 'Z06': simple('query.cpp', 'query', 4000, 30000, 'QueryRecords'), 'Z07': simple('iobuf.cpp', 'array', 400, 3000, 'IoBufRecords')}
