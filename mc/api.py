"""Thin driver around the code under test (imports only public entry points)."""
import copy
import numpy as np


def clone(p):
    return copy.deepcopy(p)


def opts(**kw):
    from pypower.ppoption import ppoption
    base = dict(VERBOSE=0, OUT_ALL=0)
    base.update(kw)
    return ppoption(**base)


def pf(p, **kw):
    from pypower.runpf import runpf
    return runpf(clone(p), opts(**kw))


def dcpf(p, **kw):
    from pypower.rundcpf import rundcpf
    return rundcpf(clone(p), opts(**kw))


def opf(p, **kw):
    from pypower.runopf import runopf
    return runopf(clone(p), opts(**kw))


def dcopf(p, **kw):
    from pypower.rundcopf import rundcopf
    return rundcopf(clone(p), opts(**kw))
