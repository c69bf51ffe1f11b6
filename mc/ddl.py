"""Imports dedalus from /repo quietly."""
import logging, os, sys, warnings

def quiet():
    warnings.simplefilter("ignore")
    import dedalus
    import dedalus.public
    assert os.path.realpath(dedalus.__file__).startswith("/repo/"), dedalus.__file__
    logging.disable(logging.CRITICAL)
