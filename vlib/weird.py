"""Values nothing can be asked of."""


class Weird:
    def _no(self, *a):
        raise TypeError("not supported")

    __bool__ = __eq__ = __ne__ = __len__ = __iter__ = __getitem__ = __contains__ = __call__ = __copy__ = __deepcopy__ = __reduce_ex__ = _no
    __hash__ = None

    def __repr__(self):
        return "<weird>"


def kinds():
    """Values of kinds that code may mistake for the absence of one."""
    return [None, False, 0, "", (), [], Weird(), NotImplemented, StopIteration(), ValueError("x"), KeyError]
