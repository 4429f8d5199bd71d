"""Runs one job of one check in one interpreter (lxml or standard library)."""
import importlib
import json
import logging
import os
import resource
import sys
import time
import traceback
import warnings


def main():
    prop, job, mode, tier, seed, scratch, out = sys.argv[1:8]
    only = sys.argv[8] if len(sys.argv) > 8 else None
    warnings.simplefilter('ignore')
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, os.path.dirname(here))
    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    root.addHandler(logging.NullHandler())
    root.setLevel(logging.CRITICAL)
    from mc import core
    core.install_watchdog()
    t0 = time.time()
    ctx = core.Ctx(prop, job, mode, tier, int(seed), scratch, only)
    res = None
    try:
        mod = importlib.import_module('mc.' + prop.lower())
        import ndg.xacml
        assert os.path.realpath(ndg.xacml.__file__).startswith(
            os.path.realpath(os.environ['MC_REPO']) + os.sep), ndg.xacml.__file__
        mod.run(ctx)
    except core.StopJob:
        pass
    except core.Hang:
        ctx.violations.append(dict(property=prop, job=job, mode=mode, tier=tier,
                                   seed=int(seed), key='(hang)',
                                   what='did not terminate', expected=None,
                                   got=None, traceback=traceback.format_exc()))
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        repo = os.path.realpath(os.environ['MC_REPO']) + os.sep
        if any(os.path.realpath(f.filename).startswith(repo) for f in tb):
            # raised inside the code under test on an input it must accept
            ctx.violations.append(dict(
                property=prop, job=job, mode=mode, tier=tier, seed=int(seed),
                key='(setup)', what='unexpected %s: %s' % (type(e).__name__, e),
                expected=None, got=None, traceback=traceback.format_exc()))
        else:
            raise
    res = ctx.result(time.time() - t0)
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


if __name__ == '__main__':
    main()
