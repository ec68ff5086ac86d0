def load(pid=None):
    from . import lines, circles, ellipses, triangles, transforms, mobius, symmetry, sampling, contracts, chains, coincide, transport, display
