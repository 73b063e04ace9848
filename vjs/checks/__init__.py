"""Registry of the decided properties."""
from .catalogue import CLAIMED


def lookup(pid):
    for p in CLAIMED:
        if p['id'] == pid:
            from . import deciders
            return dict(p, fn=getattr(deciders, p['fn']))
    raise SystemExit('unknown property ' + pid)
