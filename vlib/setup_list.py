"""What setup_cmd builds beforehand: (variant, program) of the quick checks."""
SETUP = [(v, 'fm') for v in ('v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'o3', 'v3n')] + \
        [(v, 'red') for v in ('v1', 'v2', 'v3', 'v4', 'a3', 'o3')]
SETUP += [(v, 'lay') for v in ('v1', 'v2', 'v3', 'v4', 'a2', 'a3', 'a4', 'o3')] + \
         [(v, 'lp-1-40') for v in ('v2', 'v3', 'a2', 'a3', 'o3')]
SETUP += [(v, 'sel') for v in ('v1', 'v2', 'v3', 'v4', 'a3', 'o3')]
SETUP += [(v, 'pool') for v in ('v2', 'a3')] + [(v, p) for p in ('com', 'rng') for v in ('v2', 'v3', 'a3', 'o3')]
SETUP += [(v, p) for p in ('inp', 'fft') for v in ('v2', 'v3', 'v4')] + [(v, 'cmd') for v in ('v2', 'v3')]
SETUP += [(v, p) for v in ('v2', 'v3', 'v4', 'a3') for p in ('io', 'ios')] + [('v2', 'tim')]
SETUP += [(v, 'sd') for v in ('v2', 'v3', 'v4')] + [('v2', 'muc')]
SETUP += [('v2', 'small'), ('v3', 'small')]
SETUP += [('v2', 'alg'), ('a3', 'alg')] + [(v, 'ext') for v in ('v2', 'v3', 'a3', 'o3')]
SETUP += [(v, 'gau') for v in ('v2', 'v3', 'v4')]
