"""B01/B02: base64"""
CFG = 'SPECIFICATION RecSpec\nINVARIANT NoneBad\nCHECK_DEADLOCK FALSE\n'
MC = 'CONSTANTS MaxLen = {} Sample = {{0, 1, 63, 64, 127, 128, 190, 254, 255}}\nSPECIFICATION Spec\nINVARIANTS RoundTrip Canonical\nCHECK_DEADLOCK FALSE\n'
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']


def mk(what):
    def f(c):
        c.model('Base64Model', MC.format(5 if c.thorough else 4))
        b = c.build('base64.cpp', flags=ASAN, vsched=False)
        rec = c.run_checked(b, [f'what={what}'], what='base64 ' + what)
        c.records('Base64Records', CFG, rec, minimum=1000, what='base64 ' + what)
    return f


CHECKS = {'B01': mk('enc'), 'B02': mk('dec')}
