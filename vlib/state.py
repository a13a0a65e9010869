"""Bring the library under test back to a known state between cases.

Only used so that a case is reproducible on its own; every access is tolerant, since
the names involved are not part of any property.
"""
import collections
import gc


def reset():
    import marsh
    try:
        namespaces = marsh.namespaces
        for name in list(namespaces):
            del namespaces[name]
    except Exception:
        pass
    for clear in (
        lambda: marsh.schema.UnmarshalSchema.cache_clear(),
        lambda: marsh.schema.MarshalSchema.cache_clear(),
        lambda: marsh.schema.caches.cache_clear(),
    ):
        try:
            clear()
        except Exception:
            pass
