"""What each check runs."""
MUTEX = ['sut_spin', 'sut_alt', 'sut_fair', 'sut_fairrw', 'sut_checked', 'sut_posix']
SYNC = ['sut_sync', 'sut_posixsem']
WRAP = ['sut_wrap', 'sut_native']
LIBS = {
    'default': ([], MUTEX + SYNC + WRAP),
    'ndebug': (['-DNDEBUG'], MUTEX + SYNC + WRAP),
    'abort': (['-DYAMC_CHECKED_CALL_ABORT=1'], ['sut_checked']),
    'nodetect': (['-DYAMC_CHECKED_DETECT_DEADLOCK=0'], ['sut_checked']),
    'abort_nodetect': (['-DYAMC_CHECKED_CALL_ABORT=1', '-DYAMC_CHECKED_DETECT_DEADLOCK=0'], ['sut_checked']),
    'checked': ([], ['sut_checked']),
    'def_rp': ([], ['sut_defaults']),
    'def_wt': (['-DCFG_WRITER', '-DCFG_TASK', '-DYAMC_RWLOCK_SCHED_DEFAULT=yamc::rwlock::WriterPrefer', '-DYAMC_RWLOCK_FAIRNESS_DEFAULT=yamc::rwlock::TaskFairness'], ['sut_defaults']),
    'def_wp': (['-DCFG_WRITER', '-DYAMC_RWLOCK_SCHED_DEFAULT=yamc::rwlock::WriterPrefer'], ['sut_defaults']),
    'plat': ([], ['sut_win', 'sut_gcd']),
    'plat2': (['-DNDEBUG', '-DUNICODE', '-DNOMINMAX'], ['sut_win', 'sut_gcd']),
    'plat3': (['-DYAMC_WIN_ACCURATE_TIMEOUT=0', '-DYAMC_SEMAPHORE_LEAST_MAX_VALUE=65'], ['sut_win', 'sut_gcd']),
    'verbose': (['-DYAMC_CHECK_VERBOSE=1', '-DYAMC_DEBUG_TRACING=2'], ['sut_checked', 'sut_fairrw']),
    'nonp': (['-include', 'nonp.h'], ['sut_posix', 'sut_native']),
    'std': ([], ['sut_std']),
}


def D(driver, lib, quick, thorough, tus=None):
    return dict(type='driver', driver=driver, lib=lib, quick=quick if quick < 100 else quick * 3, thorough=thorough, tus=tus)


def both(driver, q, t, tus):
    return [D(driver, 'default', q * 4 // 5, t * 4 // 5, tus), D(driver, 'ndebug', q // 5, t // 5, tus)]


CHK = ['sut_checked']
PLAN = {
    'C01': both('C01', 600000, 20000000, MUTEX) + [D('C10', 'default', 60000, 1000000, CHK)],
    'C02': both('C02', 500000, 16000000, MUTEX) + both('C02s', 400000, 12000000, SYNC),
    'C03': both('C03', 500000, 16000000, MUTEX) + [D('C12', 'default', 60000, 1000000, CHK), D('C13', 'default', 40000, 1000000, CHK)],
    'C04': both('C04', 600000, 20000000, MUTEX),
    'C05': both('C05', 600000, 20000000, ['sut_alt', 'sut_fair', 'sut_fairrw', 'sut_checked', 'sut_posix']) + both('C05s', 400000, 12000000, SYNC),
    'C06': both('C06', 500000, 16000000, ['sut_alt', 'sut_fair', 'sut_checked', 'sut_posix']),
    'C07': both('C07', 500000, 16000000, ['sut_fair']),
    'C08': both('C08', 400000, 12000000, ['sut_fairrw']),
    'C09': both('C09', 500000, 16000000, ['sut_alt', 'sut_checked']),
    'C10': both('C10', 600000, 20000000, CHK),
    'C11': [D('C11', 'abort', 150000, 4000000), D('C11n', 'nodetect', 150000, 4000000), D('C11an', 'abort_nodetect', 150000, 4000000), D('C11d', 'checked', 150000, 4000000), D('C11d', 'verbose', 30000, 600000, CHK), D('C08', 'verbose', 20000, 400000, ['sut_fairrw'])],
    'C12': both('C12', 300000, 9000000, CHK),
    'C13': both('C13', 300000, 9000000, CHK),
    'C14': both('C14', 1200000, 40000000, SYNC),
    'C15': both('C15', 1000000, 30000000, ['sut_sync']),
    'C16': both('C16', 800000, 24000000, ['sut_sync']) + [D('C16k', 'default', 64, 64, ['sut_sync'])],
    'C17': both('C17', 600000, 16000000, ['sut_wrap']),
    'C18': both('C18', 500000, 14000000, MUTEX + ['sut_wrap']),
    'C19': [dict(type='module', module='mods.c19')],
    'C20': both('C20', 500000, 14000000, MUTEX + SYNC),
    'C21': both('C21m', 50000, 1500000, MUTEX) + both('C21s', 80000, 2400000, SYNC) + [dict(type='module', module='mods.c21')],
    'C22': both('C22n', 300000, 9000000, ['sut_native']) + [D('C22n', 'nonp', 60000, 1500000, ['sut_native']), D('C06', 'nonp', 60000, 1500000, ['sut_posix'])] + both('C22s', 400000, 12000000, ['sut_posixsem']),
    'C23': [D('C23d', l, 60000, 1500000) for l in ('def_rp', 'def_wt', 'def_wp')] + [dict(type='module', module='mods.c23')],
    'C24': [D('C24m', 'plat', 400000, 12000000), D('C24s', 'plat', 400000, 12000000), D('C24m', 'plat2', 100000, 3000000), D('C24s', 'plat2', 100000, 3000000), D('C24m', 'plat3', 60000, 1000000, ['sut_win']), D('C24s', 'plat3', 60000, 1000000, ['sut_win'])],
    'C26': both('C26', 300000, 9000000, CHK) + both('C26p', 100000, 3000000, ['sut_posix']),
    'C27': [dict(type='module', module='mods.c27')],
    'C28': [dict(type='module', module='mods.c28')],
    'C29': both('C29m', 250000, 7000000, ['sut_posix', 'sut_native']) + both('C29s', 150000, 5000000, ['sut_posixsem']) + [D('C29m', 'nonp', 100000, 3000000, ['sut_posix', 'sut_native'])] + [D(d, l, 100000, 3000000) for d in ('C29m', 'C29s') for l in ('plat', 'plat2')],
    'C25': both('C25', 500000, 16000000, MUTEX) + both('C25s', 500000, 16000000, SYNC),
}
