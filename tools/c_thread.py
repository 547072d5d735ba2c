"""A01: thread and process attributes"""
WRAP = ['pthread_setname_np', 'pthread_getname_np', 'pthread_setaffinity_np', 'pthread_getaffinity_np', 'sched_setaffinity', 'sched_getaffinity',
        'sched_get_priority_min', 'sched_get_priority_max', 'pthread_setschedparam', 'pthread_getschedparam', 'sched_setscheduler', 'sched_getscheduler', 'sched_getparam']


def attrs(c):
    import json
    c.model('ThreadOSModel', f'CONSTANTS NCpu = {3 if c.thorough else 2} MaxName = 2\nSPECIFICATION Spec\nINVARIANT Sane\nPROPERTY OneAtATime\nCHECK_DEADLOCK FALSE\n')
    b = c.build('threados.cpp', flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS'] + ['-Wl,--wrap=' + w for w in WRAP], vsched=False, libs=['-lpthread'])
    rec = c.run_checked(b, what='thread attributes')
    n = json.loads(open(rec).readline())['n'] if not c.violations else 1
    c.validate('ThreadOSTrace', f'CONSTANTS NCpu = {n} MaxName = 15\nSPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n', rec, minimum=300, what='thread attributes')


CHECKS = {'A01': attrs}
