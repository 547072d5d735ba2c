def pool(mode):
    def f(c):
        n, room = (3, 2) if c.tier == 'quick' else (4, 2)
        c.model('ThreadPoolModel', f'CONSTANTS Tasks = {n} Prios = {{0, 1, 5}} Room = {room}\nSPECIFICATION Spec\nINVARIANTS Sorted Consistent NothingLeft\nPROPERTY EveryTaskRunsOrIsDropped\nCHECK_DEADLOCK FALSE\n')
        b = c.build('pool.cpp', shims=('.',))
        rec = c.run_checked(b, [f'mode={mode}'], what='thread pool', timeout=600)
        c.validate('ThreadPoolTrace', 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n', rec, minimum=500, what='thread pool')
    return f


def workers(c):
    wrap = ['pthread_setname_np', 'pthread_getname_np', 'pthread_setaffinity_np', 'sched_get_priority_min', 'sched_get_priority_max', 'pthread_setschedparam']
    b = c.build('poolos.cpp', flags=['-D_GLIBCXX_ASSERTIONS'] + ['-Wl,--wrap=' + w for w in wrap], shims=('.',), vsched=False, libs=['-lpthread', '-ldl'])
    rec = c.run_checked(b, what='workers of a thread pool', timeout=600)
    c.records('PoolOSRecords', 'SPECIFICATION RecSpec\nINVARIANT NoneBad\nCHECK_DEADLOCK FALSE\n', rec, minimum=300, what='workers of a thread pool')


CHECKS = {'P01': pool('run'), 'P02': pool('life'), 'P03': workers}
