"""Which harnesses decide which property.  Each entry: list of harness builds.

variant: 'real'     - /repo's sources as they are
         'scripted' - /repo's sources except src/Random.cpp, with the random engine replaced by the
                      explorer-driven one (lib/shim/rapidcheck/Random.h)
san:     '' or 'asan' (AddressSanitizer + selected UBSan checks)
"""
CHECKS = {}


def check(pid, *harnesses, **kw):
    CHECKS[pid] = dict(harnesses=list(harnesses), **kw)


def h(src, variant='scripted', san='', flags='', extra_src=(), libs='', shim_first='', std='c++17', lib=True, libflags=None):
    d = dict(src=src, variant=variant, san=san, flags=flags, extra_src=list(extra_src), libs=libs,
             shim_first=shim_first, std=std, lib=lib)
    if libflags is not None:
        d['libflags'] = libflags
    return d


check('C01', h('c01_verdict.cpp'))
check('C02', h('c02_sizes.cpp'))
check('C03', h('c03_shrink.cpp'), h('c03_minimal.cpp', flags='-finstrument-functions'))
check('C04', h('c04_reproduce.cpp', variant='real'))
check('C05', h('c05_outcome.cpp'))
check('C07', h('c07_random.cpp', variant='real'))
check('C08', h('c08_config.cpp', variant='real', san='asan'))
check('C09', h('c09_encoding.cpp', variant='real', san='asan'))
check('C10', h('c10_numbers.cpp', variant='real'))
check('C11', h('c11_containers.cpp'))
CAT_PARTS = 12      # the last one holds long values


def catalogue(src, san='asan'):
    """One build per part of lib/catalogue.h (they compile in parallel)."""
    return [dict(h(src, san='' if i == CAT_PARTS - 1 else san, flags='-DCAT_PART=%d' % i), libflags='') for i in range(CAT_PARTS)]


check('C06', h('c06_runs.cpp', variant='real'), h('c06_outlive.cpp', san='asan'), *catalogue('c06_pure.cpp'))
check('C12', *catalogue('c12_promises.cpp'))
check('C13', *catalogue('c13_progress.cpp', san=''))
check('C14', h('c14_seq.cpp', variant='real', san='asan'))
check('C15', h('c15_shrinkable.cpp', variant='real', san='asan'))
check('C16', h('c16_weights.cpp'))
check('C17', h('c17_size.cpp'))
check('C18', h('c18_commands.cpp'))
check('C19', h('c19_lockstep.cpp'))
check('C20', h('c20_values.cpp', variant='real', san='asan'))
check('C21', h('c21_implicit.cpp'))
check('C22', h('c22_exec.cpp'))
TSAN = '-fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0'
check('C23', h('c23_threads.cpp', variant='real', flags=TSAN,
               extra_src=[('lib/mt_rt.cpp', '-fno-builtin -fno-tree-loop-distribute-patterns')], libs='-rdynamic -ldl'),
      *[h('c23_gens.cpp', variant='real', flags=TSAN + ' -DCAT_PART=%d' % i, libflags=TSAN, extra_src=[('lib/mt_rt.cpp', '-fno-builtin -fno-tree-loop-distribute-patterns')],
          libs='-rdynamic -ldl') for i in range(CAT_PARTS - 1)])
check('C24', h('c24_listen.cpp'))
check('C25', h('c25_report.cpp'))
check('C26', h('c26_show.cpp', variant='real'))
check('C27', h('c27_gtest.cpp', variant='real', libs='-lgtest'), h('c27_gmock.cpp', variant='real', libs='-lgmock -lgtest'), h('c27_catch.cpp', variant='real', libs='-lCatch2'),
      h('c27_boost.cpp', variant='real'), h('c27_optional.cpp'), h('c27_doctest.cpp', variant='real', std='c++20', libflags=''))
check('C28', h('c28_bitstream.cpp', variant='real'))
check('C29', h('c29_independent.cpp'))
