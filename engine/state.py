"""module state of the code under test: every path starts with what importing left behind

Values that one path leaves in a module-level cache, a class attribute or a memoised function mean nothing on another path."""
import sys

_SAVED = None
_MISS = object()


def _copy(v):
    t = type(v)
    if t in (dict, list, set, bytearray):
        return t(v)
    return None


def _ns(d):
    return {k: (v, _copy(v)) for k, v in d.items() if not k.startswith('__')}


def snapshot(root):
    global _SAVED
    _SAVED = []
    memo = set()
    for m in list(sys.modules.values()):
        if not (getattr(m, '__file__', None) or '').startswith(root + '/'):
            continue
        d = vars(m)
        classes = []
        for v in list(d.values()):
            if isinstance(v, type) and v.__module__ == m.__name__ and id(v) not in memo:
                memo.add(id(v))
                classes.append((v, _ns(vars(v))))
        _SAVED.append((d, _ns(d), classes))


def _content(v, c):
    if c is None:
        if hasattr(v, 'cache_clear') and callable(v.cache_clear):
            v.cache_clear()
    elif type(v) is dict:
        if len(v) != len(c) or any(v.get(k, _MISS) is not x for k, x in c.items()):
            v.clear()
            v.update(c)
    elif type(v) is set:
        if v != c:
            v.clear()
            v.update(c)
    elif len(v) != len(c) or any(x is not y for x, y in zip(v, c)):
        v[:] = c


def restore():
    if _SAVED is None:
        return
    for d, ns, classes in _SAVED:
        for k in [k for k in d if k not in ns and not k.startswith('__')]:
            del d[k]
        for k, (v, c) in ns.items():
            if d.get(k, _MISS) is not v:
                d[k] = v
            _content(v, c)
        for cls, cns in classes:
            cur = vars(cls)
            for k in [k for k in cur if k not in cns and not k.startswith(('__', '_abc_'))]:
                delattr(cls, k)
            for k, (v, c) in cns.items():
                if cur.get(k, _MISS) is not v and not k.startswith('_abc_'):
                    setattr(cls, k, v)
                _content(v, c)
