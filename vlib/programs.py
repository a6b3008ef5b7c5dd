"""The conformance harnesses: which sources make which program."""
FMT = ['int', 'dbl', 'flt', 'i64', 'cpx', 'v3f', 'm2c']
PROGRAMS = {
    'fm': dict(hila=['fm_main.cpp'] + ['fm_%s.cpp' % t for t in FMT],
               plain=['hx_raw.cpp', 'hx_lazy.cpp']),
    'red': dict(hila=['red_main.cpp'] + ['red_%s.cpp' % t for t in ('int', 'dbl', 'flt', 'lng', 'cpx', 'v3d')],
                plain=['hx_raw.cpp', 'hx_lazy.cpp']),
    'lay': dict(hila=['lay_main.cpp'] + ['lay_%s.cpp' % t for t in ('int', 'v3d', 'flt')],
                plain=['hx_raw.cpp', 'hx_lazy.cpp']),
    'pool': dict(hila=['pool_main.cpp'], plain=['hx_raw.cpp', 'pool_wrap.cpp'], ld=['-Wl,--wrap=free']),
    'com': dict(hila=['com_main.cpp'], plain=['hx_raw.cpp']),
    'rng': dict(hila=['rng_main.cpp'], plain=['hx_raw.cpp']),
    'inp': dict(hila=['inp_main.cpp'], plain=['hx_raw.cpp']),
    'cmd': dict(hila=['cmd_main.cpp'], plain=['hx_raw.cpp']),
    'io': dict(hila=['io_main.cpp'], plain=['hx_raw.cpp', 'io_wrap.cpp'], ld=['-ldl']),
    # the same with a small buffer for reading and writing, so that small fields need several
    'ios': dict(hila=['io_main.cpp'], plain=['hx_raw.cpp', 'io_wrap.cpp'], ld=['-ldl'], defs=['-DWRITE_BUFFER_SIZE=200']),
    'tim': dict(hila=['tim_main.cpp'], plain=['hx_raw.cpp', 'tim_wrap.cpp'], ld=['-Wl,--wrap=clock_gettime']),
    'alg': dict(hila=['alg_main.cpp'], plain=['hx_raw.cpp']),
    'muc': dict(hila=['muc_main.cpp', 'muc_lib.cpp'], plain=['hx_raw.cpp']),
    'small': dict(hila=['small_main.cpp'], plain=['hx_raw.cpp']),
    'ext': dict(hila=['ext_main.cpp'], plain=['hx_raw.cpp']),
    'sd': dict(hila=['sd_main.cpp'], plain=['hx_raw.cpp']),
    'gau': dict(hila=['gau_main.cpp'], plain=['hx_raw.cpp']),
    'fft': dict(hila=['fft_main.cpp'], plain=['hx_raw.cpp']),
    'sel': dict(hila=['sel_main.cpp'] + ['sel_%s.cpp' % t for t in ('int', 'dbl', 'v3d')],
                plain=['hx_raw.cpp', 'hx_lazy.cpp']),
}


def program(name):
    if name.startswith('lp-'):      # generated loops: lp-<seed>-<number of kernels>
        from . import loops
        return dict(hila=['lp_main.cpp'], gen=lambda v: loops.sources(name, v), plain=['hx_raw.cpp', 'hx_lazy.cpp'])
    return PROGRAMS[name]
