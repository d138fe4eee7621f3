r"""Helpers of scenarios on formal arrays (tensor.py)."""
import traceback
import pv.run as R


def mod(name):
    import importlib
    return importlib.import_module(name)


def formal(scn):
    r"""what a Formal cannot do is not a failure of the code; an axis mismatch is."""
    def f(mk):
        try:
            return scn(mk)
        except (R.Unsupported, R.Skip):
            raise
        except (AttributeError, TypeError, NotImplementedError) as e:
            if mk.symbolic: raise R.Unsupported(f'{type(e).__name__}: {e} :: {traceback.format_exc()[-500:]}')
            raise
    f.__name__ = getattr(scn, '__name__', 'scn')
    return f


class Duck:
    r"""what the stand-in does not offer is not a failure of the code."""
    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'): raise AttributeError(n)
        raise R.StubMiss(f'{type(self).__name__}.{n}')
