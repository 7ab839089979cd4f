"""Context handed to a rule: the program, the analyses it asked for, and its obligations."""
import hashlib, json, os, sys, time
import engine, interp, build
from engine import *
from interp import Program, Interp

OPAQUE = {'NodeBase::post', 'NodeTreeBase::post', 'Logger::post', 'Logger::post_manual', 'functions::draw_tree', 'NodePath::to_string', 'Log::get_colour'}


class Fail(Exception):
    """an anchor of the rule is gone, or the analysis cannot follow the code any more"""


class Ctx:
    def __init__(self, pid, tier, prog, wprog=None):
        self.pid, self.tier = pid, tier
        self.P = prog
        self.W = wprog
        self.obs = []
        self.viol = {}
        self.fns = set()
        self.paths = 0
        self.calls = 0
        self.samples = []
        self.notes = []
        self.cache = {}

    # ------------------------------------------------------------ anchors
    def inherent(self, ty, meth):
        return self.P.inherent(ty, meth)

    def trait_method(self, tr, meth, self_re, n=1, crate='node_tree'):
        r = self.P.method(tr, meth, self_re, crate)
        if n is not None and len(r) != n:
            raise AnalysisError('anchor %s::%s for %s: %d implementations match' % (tr, meth, self_re, len(r)))
        return r[0] if n == 1 else r

    # ------------------------------------------------------------ analysis
    def run(self, fn, opaque=(), base=OPAQUE, transparent=(), volatile=None, args=None, prog=None, typed=None, reads=False, ub=False):
        key = (fn.key, frozenset(opaque), frozenset(base), frozenset(transparent), repr(args), tuple(sorted(typed or ())), reads, ub)
        if key in self.cache:
            return self.cache[key]
        I = Interp(prog or self.P, opaque=set(base) | set(opaque), transparent_hooks=transparent)
        I.typed = dict(typed or {})
        I.ub = ub
        if reads:
            I.reads = set()
        try:
            outs = I.analyse(fn, args=args)
        except AnalysisError as e:
            raise AnalysisError('%s: %s' % (fn.path, e))
        except RecursionError:
            raise AnalysisError('%s: recursion too deep' % fn.path)
        self.fns |= I.fns_seen or {fn.path}
        self.fns.add(fn.path)
        self.paths += len(outs)
        self.calls += I.calls_seen
        outs.sort(key=lambda o: o.kind)
        r = (outs, I)
        self.cache[key] = r
        return r

    # ------------------------------------------------------------ obligations
    def ob(self, ok, key, msg, where='', path=None):
        """one obligation instance; key names the construct without line numbers"""
        self.obs.append((key, bool(ok)))
        if not ok and key not in self.viol:
            self.viol[key] = {'key': key, 'message': msg, 'where': where, 'path': [repr(e)[:400] for e in (path or [])][:60]}
        return ok

    def floor(self, n, least, what):
        self.ob(n >= least, 'floor:' + what, '%s: %d found, at least %d expected (an anchor of the rule disappeared)' % (what, n, least))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def where(e):
    return '%s (%s)' % (e.sp, e.fn) if e is not None else ''
