"""Byte code of the repository goes to the run's scratch space (never reused: no stale code);
installed packages use the byte code installed with them."""
import sys

if sys.pycache_prefix:
    _b = sys.modules["_frozen_importlib_external"]
    _orig = _b.cache_from_source
    _own = (sys.prefix + "/", sys.base_prefix + "/lib/")

    def _cache_from_source(path, *a, **k):
        p = str(path)
        if not p.startswith(_own):
            return _orig(path, *a, **k)
        keep, sys.pycache_prefix = sys.pycache_prefix, None
        try:
            return _orig(path, *a, **k)
        finally:
            sys.pycache_prefix = keep

    _b.cache_from_source = _cache_from_source
