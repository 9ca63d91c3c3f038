"""Model of the worker pool: tasks run one after another; what a task returns is what it hands back."""


class _Async:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        return None


class Manager:
    def __init__(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return False

    def dict(self):
        return {}

    def list(self):
        return []

    def shutdown(self):
        return None


class Pool:
    def __init__(self, processes=None):
        pass

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return False

    def map(self, f, xs, chunksize=None):
        return [f(x) for x in xs]

    def imap(self, f, xs, chunksize=1):
        return [f(x) for x in xs]

    def imap_unordered(self, f, xs, chunksize=1):
        return [f(x) for x in xs]

    def starmap(self, f, xs, chunksize=None):
        return [f(*x) for x in xs]

    def map_async(self, f, xs, chunksize=None):
        return _Async([f(x) for x in xs])

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}):
        return _Async(f(*args, **kwds))

    def close(self):
        return None

    def join(self):
        return None

    def terminate(self):
        return None
