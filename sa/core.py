"""Reports, obligations, evidence and known findings shared by all rules."""
import json, os, time, sys


class Broken(Exception):
    """the analysis itself cannot run: an anchor vanished, nothing was analysed"""


class Check:
    def __init__(self, prop, m, units, tier='quick'):
        self.prop = prop; self.m = m; self.units = units; self.tier = tier
        self.findings = {}; self.oblig = []; self.undec = []; self.funcs = set(); self.samples = []; self.notes = []
        self.rules = []

    # -- results
    def rule(self, text):
        self.rules.append(text)

    def fail(self, key, where, msg, path=None):
        """a definite violation; key identifies it independent of line numbers"""
        if key not in self.findings:
            self.findings[key] = {'key': key, 'where': where, 'message': msg, 'path': path or []}

    def ok(self, name):
        self.oblig.append((name, True))

    def obligation(self, name, ok, where='', msg='', path=None, key=None):
        self.oblig.append((name, bool(ok)))
        if not ok:
            self.fail(key or name, where, msg or name, path)

    def undecided(self, name, why=''):
        self.undec.append('%s: %s' % (name, why) if why else name)

    def fn(self, *fs):
        for f in fs:
            self.funcs.add(f.dem if hasattr(f, 'dem') else f)

    # -- anchors
    def need(self, base, n=1):
        """repo functions with this qualified name; vanished anchors are an error of the check"""
        r = self.m.find(base)
        if len(r) < n:
            raise Broken('anchor %s not found (%d)' % (base, len(r)))
        return r

    def one(self, base):
        return self.need(base)[0]

    def record(self, name):
        r = self.m.record(name)
        if not r:
            raise Broken('class %s not found' % name)
        return r

    def atleast(self, what, n, k):
        if n < k and not self.findings and not self.undec:
            raise Broken('%s: only %d instances analysed, expected at least %d' % (what, n, k))


def pathlist(st, n=40):
    return ['%s %s' % x if isinstance(x, tuple) else str(x) for x in st.path(n)]
