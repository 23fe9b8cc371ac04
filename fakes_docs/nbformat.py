"""Stand-in for nbformat (not installed here)."""
import json

NO_CONVERT = object()


class NotebookNode(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError as e:
            raise AttributeError(k) from e


def _node(x):
    if isinstance(x, dict):
        return NotebookNode({k: _node(v) for k, v in x.items()})
    if isinstance(x, list):
        return [_node(v) for v in x]
    return x


def reads(s, as_version=4, **kw):
    nb = _node(json.loads(s))
    if "cells" not in nb:
        raise ValueError("Notebook does not appear to be valid: no cells")
    return nb


def read(fp, as_version=4, **kw):
    if hasattr(fp, "read"):
        return reads(fp.read(), as_version)
    with open(fp, encoding="utf-8") as f:
        return reads(f.read(), as_version)
