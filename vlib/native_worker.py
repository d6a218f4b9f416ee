"""Runs one workload of checks.c18_native in this process, with the variant of the native code named by VERIF_VARIANT,
and records what each call returned so that the runs of different variants can be compared."""
import ctypes
import pickle
import os
import sys


def plain_value(x):
    """the answer as nested lists, numbers as arrays"""
    import numpy as np
    import pandas as pd
    if isinstance(x, (list, tuple)):
        return [plain_value(v) for v in x]
    if isinstance(x, (pd.DataFrame, pd.Series)):
        x = x.to_numpy()
    if isinstance(x, (np.ndarray, np.generic, float, int, complex)):
        return np.array(x)
    return repr(x)


class Recorder:
    def __init__(self, seed, shard, thorough, path):
        import numpy as np
        self.rng = np.random.default_rng([int(seed), int(shard), 18])
        self.thorough = thorough
        self.out = []
        self.counts = {}
        self.problems = []
        self.path = path
        self.progress = os.open(path + '.now', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def run(self, key, fn, *args, compare=True, **kw):
        """calls fn and notes what it answered; returns (answer, error)"""
        os.pwrite(self.progress, repr(key).encode()[:300].ljust(300), 0)
        try:
            v, err = fn(*args, **kw), None
        except Exception as e:  # a matter of comparison
            v, err = None, e
        d = 'raised ' + type(err).__name__ if err is not None else plain_value(v) if compare else '-'
        self.out.append([repr(key), d, repr(err)[:200] if err is not None else ''])
        return v, err


def main():
    name, seed, tier, shard, path = sys.argv[1:6]
    from vlib import boot
    boot.boot()
    import numpy as np
    np.seterr(all='ignore')
    ignored = []
    sys.unraisablehook = lambda u: ignored.append(repr(u.exc_value))
    from checks import c18_native
    r = Recorder(seed, shard, tier == 'thorough', path)
    c18_native.WORKLOADS[name](r)
    import copulae.special._specfunc as sf
    if os.environ.get('VERIF_VARIANT') == 'tsan':
        lib = ctypes.CDLL(sf.__file__)
        for f in ('verif_omp_regions', 'verif_omp_threads'):
            getattr(lib, f).restype = ctypes.c_ulong
        r.counts['parallel regions'] = lib.verif_omp_regions()
        r.counts['threads of parallel regions'] = lib.verif_omp_threads()
    with open(path + '.tmp', 'wb') as f:
        pickle.dump({'out': r.out, 'counts': r.counts, 'ignored': ignored[:5], 'problems': r.problems}, f)
    os.rename(path + '.tmp', path)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
