"""Helpers shared by the oracles (runs on the interpreter of the code under test)"""
import os
import json
from pathlib import Path
import numpy as np


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Ctx:
    def __init__(self, tmp):
        self._tmp = tmp
        self.tmp_made = False
        self.nt = False
        self.labels = set()
        self.known_hits = set()

    def tmp(self) -> Path:
        if not self.tmp_made:
            os.makedirs(self._tmp)
            self.tmp_made = True
        return Path(self._tmp)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg)

    def eq(self, a, b, msg):
        if not (a == b):
            raise Violation("%s: got %.600r expected %.600r" % (msg, a, b))

    def fail(self, msg):
        raise Violation(msg)

    def known(self, key):
        self.known_hits.add(key)

    def raises(self, exc, fn, msg):
        try:
            val = fn()
        except exc:
            return
        raise Violation("%s: no exception, returned %.300r" % (msg, val))

    def same(self, a, b, msg, dtype=False):
        """Exactly equal arrays (NaN equal NaN)"""
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation("%s: shape %s expected %s" % (msg, a.shape, b.shape))
        if dtype and a.dtype != b.dtype:
            raise Violation("%s: dtype %s expected %s" % (msg, a.dtype, b.dtype))
        ok = (a == b) | ((a != a) & (b != b))
        if not np.all(ok):
            idx = tuple(int(x) for x in np.argwhere(~ok)[0])
            raise Violation(
                "%s: at %s got %r expected %r (%d of %d differ)"
                % (msg, idx, a[idx], b[idx], int((~ok).sum()), ok.size)
            )

    def close(self, a, b, msg, rtol=1e-9, atol=0.0, scale=None):
        """
        Close arrays: |a-b| <= rtol*scale + atol, where scale defaults to the
        largest magnitude of the expected array
        """
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation("%s: shape %s expected %s" % (msg, a.shape, b.shape))
        if a.size == 0:
            return
        if not np.all(np.isfinite(b)):
            raise HarnessError("%s: expected value not finite" % msg)
        if not np.all(np.isfinite(a)):
            raise Violation("%s: not finite: %.300r" % (msg, a))
        if scale is None:
            scale = float(np.max(np.absolute(b)))
        tol = rtol * scale + atol
        diff = np.absolute(a - b)
        if np.any(diff > tol):
            idx = tuple(
                int(x) for x in np.unravel_index(int(np.argmax(diff)), diff.shape)
            )
            raise Violation(
                "%s: at %s got %r expected %r (tolerance %.3g)"
                % (msg, idx, a[idx], b[idx], tol)
            )


def snapshot(obj):
    """A deep, comparable picture of metadata (pydantic) or any JSON-able model"""
    return json.loads(obj.json())
