"""U01..U06: URI"""
CFG = 'CONSTANT Kind = "{}"\nSPECIFICATION RecSpec\nINVARIANT NoneBad\nCHECK_DEADLOCK FALSE\n'


def mk(kind, model, minimum):
    def f(c):
        if model:
            c.model('UriModel', f'SPECIFICATION Spec\nINVARIANTS {model}\nCONSTANT MaxLen = {6 if c.thorough else 5}\nCHECK_DEADLOCK FALSE\n')
        b = c.build('uri.cpp', flags=['-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS'], vsched=False)
        rec = c.run_checked(b, [f'what={kind}'], what='URI ' + kind)
        c.records('UriRecords', CFG.format(kind), rec, minimum=minimum, what='URI ' + kind, timeout=800)
    return f


CHECKS = {'U01': mk('parse', 'Reassembles Partition', 2000), 'U02': mk('codec', 'RoundTrip EncodedSafe', 1000), 'U03': mk('build', '', 1000),
          'U04': mk('query', 'QueryTheorems', 1000), 'U05': mk('values', '', 1000), 'U06': mk('any', '', 1000)}
