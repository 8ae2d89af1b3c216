# Stands in for the plotting library, which is not installed: accepts every call,
# and writes the calls of each figure to the path it is saved to.
_calls = []


def __getattr__(name):
    def call(*args, **kwargs):
        _calls.append((name, args, tuple(sorted(kwargs.items()))))

    return call


def figure(*args, **kwargs):
    _calls.clear()


def savefig(path, **kwargs):
    with open(path, "w") as f:
        for c in _calls:
            f.write(repr(c) + "\n")
    _calls.clear()
