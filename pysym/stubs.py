"""Stand-ins used only in symbolic runs: progress bars do nothing."""
import sys
import types


class tqdm(object):
    def __init__(self, it=None, total=None, **k):
        self.it = it
        self.total = total
        self.n = 0

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, n=1):
        pass

    def set_description(self, *a, **k):
        pass

    set_postfix = set_description_str = write = refresh = set_description

    def close(self):
        pass


def trange(*a, **k):
    return tqdm(range(*a), **k)


def install():
    m = types.ModuleType('tqdm')
    m.tqdm = tqdm
    m.trange = trange
    a = types.ModuleType('tqdm.auto')
    a.tqdm = tqdm
    a.trange = trange
    m.auto = a
    sys.modules['tqdm'] = m
    sys.modules['tqdm.auto'] = a
