"""imports GPyOpt from /repo's current sources (never from cached bytecode)"""
import os, sys, tempfile, shutil, atexit

REPO = os.environ.get('GPYOPT_REPO', '/repo')


def load():
    if 'GPyOpt' in sys.modules:
        return sys.modules['GPyOpt']
    os.environ.setdefault('MPLBACKEND', 'agg')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    sys.dont_write_bytecode = True
    scratch = None
    if 'MPLCONFIGDIR' not in os.environ:
        scratch = tempfile.mkdtemp(prefix='symx-mpl-')
        os.environ['MPLCONFIGDIR'] = scratch
        pid = os.getpid()
        atexit.register(lambda: shutil.rmtree(scratch, ignore_errors=True) if os.getpid() == pid else None)
    import warnings
    warnings.filterwarnings('ignore')
    # third-party packages first, with their ordinary bytecode caches
    import numpy, scipy, scipy.special, scipy.stats, scipy.optimize, scipy.linalg          # noqa
    for m in ('pylab', 'matplotlib.pyplot', 'GPy', 'pyDOE', 'sobol_seq', 'cma', 'emcee', 'paramz', 'six', 'mpl_toolkits.axes_grid1'):
        try:
            __import__(m)
        except Exception:
            pass
    old = sys.pycache_prefix
    sys.pycache_prefix = os.path.join('/nonexistent-symx-%d' % os.getpid())
    sys.path.insert(0, REPO)
    try:
        import GPyOpt
        import GPyOpt.interface
        import GPyOpt.util.mcmc_sampler                                                   # noqa
        for m in ('GPyOpt.objective_examples.experiments1d', 'GPyOpt.objective_examples.experimentsNd', 'GPyOpt.objective_examples.experiments2d'):
            try:
                __import__(m)
            except Exception:
                pass
    finally:
        sys.pycache_prefix = old
    f = os.path.realpath(GPyOpt.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('GPyOpt was imported from %s, not from %s' % (f, REPO))
    import logging
    logging.disable(logging.CRITICAL)
    numpy.seterr(all='ignore')
    warnings.filterwarnings('ignore')
    return GPyOpt
