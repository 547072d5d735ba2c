"""T01..T04: topics, subscription matching, timing selectors, MIME types: reports of the real code judged by spec/Topic.tla"""
CFG = 'SPECIFICATION RecSpec\nINVARIANT NoneBad\nCHECK_DEADLOCK FALSE\n'


def mk(what, n, nt, model=None):
    def f(c):
        if model:
            c.model('TopicModel', f'SPECIFICATION Spec\nINVARIANTS {model}\nCONSTANT Deep = {"TRUE" if c.thorough else "FALSE"}\nCHECK_DEADLOCK FALSE\n', timeout=3000)
        b = c.build('topics.cpp', flags=['-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS'], shims=('.',), vsched=False)
        k = nt if c.thorough else n
        rec = c.run_checked(b, [f'what={what}', f'n={k}'], what='topics ' + what, timeout=600)
        c.records('TopicRecords', CFG, rec, minimum=k, what=what, timeout=800 if not c.thorough else 3000)
    return f


CHECKS = {'T01': mk('topics', 2000, 12000, 'Injective PrefixFree RoundTrip'), 'T02': mk('match', 6000, 40000), 'T03': mk('sel', 3000, 20000, 'SelTheorems'), 'T04': mk('mime', 1500, 8000)}
