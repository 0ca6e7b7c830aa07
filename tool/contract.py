"""Contract objects: specifications attached to the real functions, matched by qualified name and signature."""
from cxxast import norm_sig, strip_ns


class Contract:
    def __init__(self, qual, sig=None, params=None, globals=(), requires=(), ensures=(), pure=None, throws=False,
                 entry=None, ret=None, loops=(), calls=None, locals=(), rett=None, dec=None, structural=False,
                 targs=None, alias=(), rlimit=None, byref=False, trusted=False, lv=None):
        self.qual, self.sig, self.params = qual, sig, params
        self.globals = list(globals)
        self.requires = [requires] if isinstance(requires, str) else list(requires)
        self.ensures = [ensures] if isinstance(ensures, str) else list(ensures)
        self.pure, self.throws, self.entry, self.ret = pure, throws, entry, ret
        self.loops, self.calls, self.locals = list(loops), dict(calls or {}), list(locals)
        self.rett, self.dec, self.structural, self.targs, self.alias = rett, dec, structural, targs, [tuple(a) for a in alias]
        self.rlimit = rlimit
        self.byref, self.trusted = byref, trusted
        self.lv = lv        # the function returns a reference to this place (see owned.py)
        self.hits = 0

    def matches(self, f):
        if strip_ns(f.qual) != self.qual or f.tmpl:
            return False
        if self.sig is not None and norm_sig(f.type) != norm_sig(self.sig):
            return False
        if self.targs is not None and f.targs != self.targs:
            return False
        return True

    def label(self):
        return self.qual + (' ' + self.sig if self.sig else '')


def loop(inv=(), ens=(), dec=None, before=None, head=None, start=None, end=None, after=None):
    return dict(inv=[inv] if isinstance(inv, str) else list(inv), ens=[ens] if isinstance(ens, str) else list(ens),
                dec=dec, before=before, head=head, start=start, end=end, after=after)
