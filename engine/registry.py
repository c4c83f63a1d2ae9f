"""Harness registration."""
HARNESSES = []


class H:
    def __init__(self, prop, fn, label, kwargs, tier, opts):
        self.prop, self.fn, self.label, self.kwargs, self.tier, self.opts = prop, fn, label, kwargs, tier, opts

    @property
    def id(self):
        return f"{self.prop}.{self.fn.__name__}" + (f"[{self.label}]" if self.label else "")


def harness(prop, params=None, tier="quick", **opts):
    """params: dict label -> kwargs; tier 'quick' harnesses run in both tiers."""
    def deco(fn):
        if params is None:
            HARNESSES.append(H(prop, fn, "", {}, tier, opts))
        else:
            for lab, kw in params.items():
                t = tier
                kw = dict(kw)
                if "_tier" in kw:
                    t = kw.pop("_tier")
                HARNESSES.append(H(prop, fn, lab, kw, t, opts))
        return fn
    return deco
