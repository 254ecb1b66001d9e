"""Small trees, enumerated."""

from functools import lru_cache


@lru_cache(None)
def forests(n):
    """all ordered forests with exactly n nodes, as nested tuples"""
    if n == 0:
        return ((),)
    out = []
    for k in range(1, n + 1):
        for kids in forests(k - 1):
            for rest in forests(n - k):
                out.append((kids,) + rest)
    return tuple(out)


def build(forest, mk):
    """mk(path, children) -> node; children is None for a leaf"""

    def go(f, path):
        return [mk(path + (i,), go(kids, path + (i,)) if kids else None) for i, kids in enumerate(f)]

    return go(forest, ())
