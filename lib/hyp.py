"""Make Hypothesis importable from the interpreter that runs the code under test.

The project's virtual environment has no Hypothesis.  It is taken from
/verif/.deps (filled by setup.sh from the offline wheelhouse) when that exists,
else straight from the verification tools' site-packages.  In both cases only
`hypothesis` and `sortedcontainers` are taken: the directory is off sys.path again
before any code under test is imported, so it cannot provide the code under test
with packages that its own environment lacks.
"""
import os
import sys
import warnings

_here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_cands = [os.path.join(_here, '.deps'),
          '/opt/veriftools/pyvenv/lib/python3.12/site-packages']
_err = None
for _p in _cands:
    if not os.path.isdir(os.path.join(_p, 'hypothesis')):
        continue
    sys.path.append(_p)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import hypothesis
            import hypothesis.strategies
            import hypothesis.extra.numpy
        break
    except ImportError as e:
        _err = e
    finally:
        sys.path.remove(_p)
else:
    raise ImportError(f'hypothesis is not available ({_err})')
