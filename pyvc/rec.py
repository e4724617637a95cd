"""Records of contracts (usable without the solver)."""


class SRec(object):
    """An opaque record with symbolic attributes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    hook = None

    def __setattr__(self, a, v):
        if SRec.hook is not None:
            SRec.hook(self)
        object.__setattr__(self, a, v)
