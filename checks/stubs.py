"""Stand-ins for files read by the code under test (nothing touches the real file system)."""
import json, pickle



class Handle:
    def __init__(self, name, content):
        self.name, self.content = name, content

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def read(self, *a):
        return Token(self.content)

    readlines = None


class Token(str):
    """text of a file; the json stand-in recovers the content"""
    def __new__(cls, content):
        t = str.__new__(cls, "<file>")
        t.content = content
        return t


def pickled(name, content):
    """World keywords so that reading the pickle file `name` gives `content`"""
    def op(fn, mode="r", *a, **k):
        if str(fn) != name or "b" not in mode or "w" in mode:
            raise FileNotFoundError(fn)
        return Handle(name, content)

    def load(h, **k):
        return h.content

    def loads(t, **k):
        return t.content
    from symx.npshim import Shim
    return dict(open_fn=op, extra_modules={"pickle": Shim("pickle", pickle, {"load": load, "loads": loads})})


def jsonfile(name, content):
    def op(fn, mode="r", *a, **k):
        if str(fn) != name or "w" in mode:
            raise FileNotFoundError(fn)
        return Handle(name, content)

    def load(h, **k):
        return dict(h.content)

    def loads(t, **k):
        return dict(t.content) if isinstance(t, Token) else json.loads(t)
    from symx.npshim import Shim
    return dict(open_fn=op, extra_modules={"json": Shim("json", json, {"load": load, "loads": loads})})
