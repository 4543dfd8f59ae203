"""Engine: symbolic variables, path forking, assertions, leaf records.

One process explores one path.  A branch whose condition is not decided by the path condition forks
the process; the child takes one side and the parent the other one.  A small pool of tokens limits
how many processes run at once.  Every process that reaches the end of its path appends one JSON record.
"""
import asyncio
import ctypes
import hashlib
import json
import mmap
import os
import signal
import sys
import tempfile
import time
import traceback

import z3

TOK0 = 0xF0000
TOKN = 0xFFFFD

_z3true = z3.BoolVal(True)
_z3false = z3.BoolVal(False)


try:
    _prctl = ctypes.CDLL(None).prctl
except (OSError, AttributeError):
    _prctl = None


def die_with_parent():
    """a forked process does not outlive the one that forked it"""
    if _prctl is not None:
        _prctl(1, 9, 0, 0, 0)


def zb(x):
    """Anything boolean -> z3 Bool."""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    return _z3true if x else _z3false


def zn(x):
    """Anything numeric -> z3 arithmetic expression."""
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if x == x and abs(x) != float("inf") else _bad_float(x)
    raise TypeError("not numeric: %r" % (x,))


def _bad_float(x):
    E.unsupported("non-finite float with symbolic number")


def And(*xs):
    xs = [zb(x) for x in xs]
    return z3.And(*xs) if xs else _z3true


def Or(*xs):
    xs = [zb(x) for x in xs]
    return z3.Or(*xs) if xs else _z3false


def Not(x):
    return z3.Not(zb(x))


def Implies(a, b):
    return z3.Implies(zb(a), zb(b))


def If(c, a, b):
    return z3.If(zb(c), zn(a), zn(b))


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, zb(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, zb(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e == zb(o))
        if isinstance(o, (int, float, SymNum)):
            return SymBool(zn(self) == zn(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else True

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return SymNum(zn(self) + zn(o))
    __radd__ = __add__

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return "<SymBool %s>" % self.e

    def __format__(self, spec):
        return format(bool(self), spec)


def _arith(op):
    def f(self, o):
        if not isinstance(o, (int, float, SymNum, SymBool)):
            return NotImplemented
        return SymNum(op(self.e, zn(o)))
    return f


def _rarith(op):
    def f(self, o):
        if not isinstance(o, (int, float, SymNum, SymBool)):
            return NotImplemented
        return SymNum(op(zn(o), self.e))
    return f


def _cmp(op):
    def f(self, o):
        if isinstance(o, float) and (o != o or abs(o) == float("inf")):
            return op(0.0, o)
        if not isinstance(o, (int, float, SymNum, SymBool)):
            return NotImplemented
        return SymBool(op(self.e, zn(o)))
    return f


class SymNum:
    """Symbolic int or real."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _rarith(lambda a, b: a + b)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _rarith(lambda a, b: a - b)
    __mul__ = _arith(lambda a, b: a * b)
    __rmul__ = _rarith(lambda a, b: a * b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        if not isinstance(o, (int, float, SymNum, SymBool)):
            return False
        return SymBool(self.e == zn(o))

    def __ne__(self, o):
        if not isinstance(o, (int, float, SymNum, SymBool)):
            return True
        return SymBool(self.e != zn(o))

    def __neg__(self):
        return SymNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o > 0:
            if z3.is_int(self.e):
                return SymNum(self.e / o)
            return SymNum(z3.ToInt(self.e / o))
        return E.unsupported("floordiv")

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and o != 0:
            return SymNum((self.e if z3.is_real(self.e) else z3.ToReal(self.e)) / zn(o))
        return E.unsupported("truediv")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and z3.is_int(self.e):
            return SymNum(self.e % o)
        return E.unsupported("mod")

    def _bits(self, o):
        """self & o for o >= 0 (two's complement, as in Python)"""
        if o & (o + 1) == 0:
            return SymNum(self.e % (o + 1))
        return SymNum(z3.Sum([z3.If((self.e / (1 << i)) % 2 == 1, 1 << i, 0) for i in range(o.bit_length()) if o >> i & 1]))

    def _int_operand(self, o):
        if not z3.is_int(self.e) or not isinstance(o, (int, SymNum, SymBool)):
            return None
        return int(o)

    def __and__(self, o):
        o = self._int_operand(o)
        if o is None:
            return NotImplemented
        return self._bits(o) if o >= 0 else self - self._bits(~o)
    __rand__ = __and__

    def __or__(self, o):
        o = self._int_operand(o)
        return NotImplemented if o is None else self + o - (self & o)
    __ror__ = __or__

    def __xor__(self, o):
        o = self._int_operand(o)
        return NotImplemented if o is None else self + o - 2 * (self & o)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __rshift__(self, o):
        o = self._int_operand(o)
        return NotImplemented if o is None else SymNum(self.e / (1 << o))

    def __lshift__(self, o):
        o = self._int_operand(o)
        return NotImplemented if o is None else SymNum(self.e * (1 << o))

    def __bool__(self):
        return E.branch(self.e != 0)

    def _floor(self):
        return self.e if z3.is_int(self.e) else z3.ToInt(self.e)

    def __index__(self):
        if not z3.is_int(self.e):
            raise TypeError("real used as index")
        return E.concretize(self.e)

    def __int__(self):
        if z3.is_int(self.e):
            return E.concretize(self.e)
        # truncation towards zero
        return E.concretize(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    __trunc__ = __int__

    def __floor__(self):
        return E.concretize(self._floor())

    def __ceil__(self):
        return E.concretize(self.e if z3.is_int(self.e) else -z3.ToInt(-self.e))

    def __round__(self, nd=None):
        if z3.is_int(self.e):
            return self
        if nd is None:
            return E.concretize(z3.ToInt(self.e + z3.RealVal("1/2")))
        return E.unsupported("round with digits")

    def __float__(self):
        if z3.is_int(self.e):
            return float(E.concretize(self.e))
        return E.unsupported("float() of a symbolic real")

    def __hash__(self):
        if z3.is_int(self.e):
            return hash(E.concretize(self.e))
        return E.unsupported("hash of symbolic real")

    def __str__(self):
        if z3.is_int(self.e):
            return str(E.concretize(self.e))
        return "<real>"

    def __repr__(self):
        return "<Sym %s>" % self.e

    def __format__(self, spec):
        if z3.is_int(self.e):
            return format(E.concretize(self.e), spec)
        return "<real>"


class Engine:
    def __init__(self):
        self.mode = None
        self.ntok = 0

    # ---------------------------------------------------------------- set-up
    def start_symbolic(self, out_fd, tok_r, tok_w, shared, deadline, path_limit, debug=False):
        self.mode = "sym"
        self.out_fd, self.tok_r, self.tok_w = out_fd, tok_r, tok_w
        self.shared = shared
        self.deadline = deadline
        self.path_limit = path_limit
        self.debug = debug
        self.s = z3.SimpleSolver()
        self.s.set("random_seed", 1)
        self.vars = {}
        self.tokens = []
        self.ntok = 0
        self.model = None
        self.decisions = []
        self.async_children = []
        self.is_async = False
        self.covers = set()
        self.fns = set()
        self.obs = None
        self.violations = []
        self.knowns = []
        self.reset_counters()
        self.arm()

    def reset_counters(self):
        self.nq = 0
        self.tq = 0.0
        self.nforks = 0
        self.nchecks = 0
        self.nproved = 0
        self.own_covers = set()

    def start_concrete(self, assignment, out_fd):
        self.mode = "con"
        self.out_fd = out_fd
        self.assignment = dict(assignment)
        self.ntok = 0
        self.covers = set()
        self.fns = set()
        self.obs = None
        self.violations = []
        self.knowns = []
        self.vars = {}

    def arm(self):
        signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, self.path_limit)

    def _alarm(self, *a):
        if self.debug:
            traceback.print_stack(file=sys.__stderr__)
        self.violation("hang", "the path did not end within %s s" % self.path_limit)

    # ---------------------------------------------------------------- variables
    def _mk(self, name, sort):
        assert name not in self.vars, name
        c = z3.Const(name, sort)
        self.vars[name] = c
        return c

    def int(self, name, lo=None, hi=None):
        if self.mode == "con":
            return int(self.assignment.get(name, lo if lo is not None else 0))
        c = self._mk(name, z3.IntSort())
        if lo is not None:
            self._add(c >= lo)
        if hi is not None:
            self._add(c <= hi)
        return SymNum(c)

    def real(self, name, lo=None, hi=None):
        """lo <= x < hi"""
        if self.mode == "con":
            v = self.assignment.get(name, lo if lo is not None else 0)
            if isinstance(v, str):
                from fractions import Fraction
                v = float(Fraction(v))
            return v
        c = self._mk(name, z3.RealSort())
        if lo is not None:
            self._add(c >= lo)
        if hi is not None:
            self._add(c < hi)
        return SymNum(c)

    def bool(self, name):
        if self.mode == "con":
            return bool(self.assignment.get(name, False))
        return SymBool(self._mk(name, z3.BoolSort()))

    def decide(self, name):
        """A symbolic bool decided at once (forks); python bool."""
        b = self.bool(name)
        return bool(b)

    def choose(self, name, n):
        """A symbolic int in [0,n) decided at once; python int."""
        if n == 1:
            return 0
        v = self.int(name, 0, n - 1)
        if self.mode == "con":
            return v
        return self.concretize(v.e)

    def pick(self, name, options):
        return options[self.choose(name, len(options))]

    def string(self, name, length, alphabet):
        """Symbolic string of the given (concrete) length over a set of characters."""
        if self.mode == "con":
            return str(self.assignment.get(name, alphabet[0] * length))
        cs = sorted(set(ord(c) for c in alphabet))
        ranges = []
        for c in cs:
            if ranges and ranges[-1][1] == c - 1:
                ranges[-1][1] = c
            else:
                ranges.append([c, c])
        out = []
        exprs = []
        for i in range(length):
            c = z3.Const("%s#%d" % (name, i), z3.IntSort())
            self._add(z3.Or(*[c == a if a == b else z3.And(c >= a, c <= b) for a, b in ranges]))
            exprs.append(c)
            out.append(self.token(c))
        assert name not in self.vars, name
        self.vars[name] = exprs
        return "".join(out)

    def string_upto(self, name, maxlen, alphabet, minlen=0):
        n = minlen + self.choose(name + "#len", maxlen - minlen + 1)
        return self.string(name, n, alphabet)

    def token(self, expr):
        i = len(self.tokens)
        if TOK0 + i > TOKN:
            self.unsupported("too many symbolic characters")
        self.tokens.append(expr)
        self.ntok = i + 1
        return chr(TOK0 + i)

    # ---------------------------------------------------------------- solver
    def _add(self, e):
        self.s.add(e)
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def _check(self, e=None):
        t = time.time()
        if e is not None:
            self.s.push()
            self.s.add(e)
        r = self.s.check()
        m = None
        if r == z3.sat:
            m = self.s.model()
        if e is not None:
            self.s.pop()
        self.nq += 1
        self.tq += time.time() - t
        if r == z3.unknown:
            self.unsupported("solver answered unknown: %s" % self.s.reason_unknown())
        return m

    def _have_model(self):
        if self.model is None:
            self.model = self._check()
            if self.model is None:
                self.finish("infeasible")
        return self.model

    def assume(self, c):
        if self.mode == "con":
            if not self._conc(c):
                self.finish("infeasible")
            return
        e = z3.simplify(zb(c))
        if z3.is_true(e):
            return
        self._add(e)
        self._have_model()

    def _conc(self, c):
        if isinstance(c, z3.ExprRef):
            return z3.is_true(z3.simplify(c))
        return bool(c)

    def branch(self, e):
        if self.mode == "con":
            return self._conc(e)
        e = z3.simplify(zb(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        m = self._have_model()
        v = z3.is_true(m.eval(e, model_completion=True))
        other = z3.simplify(z3.Not(e)) if v else e
        om = self._check(other)
        if om is None:
            return v
        if time.time() > self.deadline:
            self.finish("deadline")
        if self.shared[0]:
            self.finish("stopped")
        same = e if v else z3.Not(e)
        if self.fork():
            self.s.add(other)
            self.model = om
            self.decisions.append(0 if v else 1)
            return not v
        self.s.add(same)
        self.decisions.append(1 if v else 0)
        return v

    def concretize(self, e):
        e = z3.simplify(zn(e))
        n = 0
        while not z3.is_int_value(e):
            m = self._have_model()
            v = m.eval(e, model_completion=True)
            if self.branch(e == v):
                return v.as_long()
            n += 1
            if n > 300:
                self.unsupported("concretisation of an unbounded integer")
        return e.as_long()

    def must(self, e):
        """True if the path condition implies e (no fork)."""
        if self.mode == "con":
            return self._conc(e)
        e = z3.simplify(zb(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            self._have_model()
            return False
        return self._check(z3.Not(e)) is None

    # ---------------------------------------------------------------- forking
    def fork(self):
        """True in the child."""
        self.nforks += 1
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            tok = os.read(self.tok_r, 1)
        except BlockingIOError:
            tok = b""
        # asyncio forgets its running loop in a forked child; a path goes on in the child
        rl = asyncio._get_running_loop()
        pol = asyncio.events._event_loop_policy
        loc = pol._local if pol is not None else None
        pid = os.fork()
        if pid == 0:
            die_with_parent()
            if pol is not None:
                pol._local = loc
            asyncio._set_running_loop(rl)
            self.async_children = []
            self.is_async = bool(tok)
            self.reset_counters()
            self.arm()
            return True
        if tok:
            self.async_children.append(pid)
        else:
            self._wait(pid)
        signal.setitimer(signal.ITIMER_REAL, self.path_limit)
        return False

    def _wait(self, pid):
        while True:
            try:
                _, st = os.waitpid(pid, 0)
                break
            except InterruptedError:
                continue
        if st != 0:
            os.write(self.out_fd, (json.dumps({"status": "crash", "msg": "child status %d" % st}) + "\n").encode())

    # ---------------------------------------------------------------- results
    def cover(self, label):
        self.covers.add(label)

    def observe(self, x):
        """What the run did, for the comparison with the uninstrumented code."""
        self.obs = x

    def eval(self, x, m):
        if isinstance(x, SymBool):
            return z3.is_true(m.eval(x.e, model_completion=True))
        if isinstance(x, SymNum):
            return self._val(m.eval(x.e, model_completion=True))
        if isinstance(x, z3.BoolRef):
            return z3.is_true(m.eval(x, model_completion=True))
        if isinstance(x, z3.ExprRef):
            return self._val(m.eval(x, model_completion=True))
        if isinstance(x, str):
            if self.ntok and not x.isascii():
                return "".join(chr(m.eval(self.tokens[ord(c) - TOK0], model_completion=True).as_long())
                               if TOK0 <= ord(c) <= TOKN else c for c in x)
            return x
        if isinstance(x, (list, tuple)):
            return [self.eval(y, m) for y in x]
        if isinstance(x, (set, frozenset)):
            return sorted((self.eval(y, m) for y in x), key=repr)
        if isinstance(x, dict):
            return {str(self.eval(k, m)): self.eval(v, m) for k, v in x.items()}
        if x is None or isinstance(x, (bool, int, float)):
            return x
        return repr(x)

    @staticmethod
    def _val(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            f = v.as_fraction()
            if f.denominator == 1:
                return int(f)
            return "%d/%d" % (f.numerator, f.denominator)
        return str(v)

    def assignment_of(self, m):
        a = {}
        for n, c in self.vars.items():
            if isinstance(c, list):
                a[n] = "".join(chr(m.eval(x, model_completion=True).as_long()) for x in c)
            elif z3.is_bool(c):
                a[n] = z3.is_true(m.eval(c, model_completion=True))
            else:
                a[n] = self._val(m.eval(c, model_completion=True))
        return a

    def check(self, prop, label, detail="", known=()):
        """Assert prop on this path.  known: [(finding id, predicate)] - violations inside a predicate
        are reported as known findings."""
        if self.mode == "con":
            if not self._conc(prop):
                for fid, pred in known:
                    if self._conc(pred):
                        self.knowns.append((fid, label, self._txt(detail)))
                        self.finish("known")
                self.violations.append((label, self._txt(detail)))
                self.finish("violation")
            return
        self.nchecks += 1
        e = z3.simplify(zb(prop))
        if z3.is_true(e):
            self.nproved += 1
            return
        neg = z3.Not(e)
        excl = [z3.Not(zb(p)) for _, p in known]
        m = self._check(z3.And(neg, *excl))
        if m is not None:
            self.model = m
            self._violation(m, label, detail)
            self.finish("violation")
        hit = False
        for fid, p in known:
            m = self._check(z3.And(neg, zb(p)))
            if m is not None:
                hit = True
                self.knowns.append((fid, label, self.eval(self._txt(detail), m), self.assignment_of(m)))
        if hit:
            # go on with the part of the input space where it holds
            self._add(e)
            self.model = None
            if self._check() is None:
                self.finish("known")
        self.nproved += 1

    def _txt(self, d):
        return d() if callable(d) else str(d)

    def violation(self, label, detail="", known=()):
        """This point must not be reached."""
        self.check(False, label, detail, known)
        self.finish("violation")

    def _violation(self, m, label, detail):
        try:
            d = self._txt(detail)
        except Exception as ex:
            d = repr(ex)
        self.violations.append((label, self.eval(d, m), self.assignment_of(m)))
        if len(self.violations) and self.shared[1] < 250:
            self.shared[1] += 1
            if self.shared[1] >= 8:
                self.shared[0] = 1

    def unsupported(self, msg):
        if self.mode == "con":
            raise RuntimeError("unsupported in concrete mode: " + msg)
        if self.debug:
            traceback.print_stack(file=sys.__stderr__)
        fr = []
        f = sys._getframe(1)
        while f is not None and len(fr) < 12:
            fr.append("%s:%d" % (os.path.basename(f.f_code.co_filename), f.f_lineno))
            f = f.f_back
        self.finish("unsupported", msg + " @ " + " < ".join(fr))

    def finish(self, status, msg=""):
        if self.mode == "con":
            signal.setitimer(signal.ITIMER_REAL, 0)
            rec = {"status": status, "msg": msg, "violations": self.violations, "knowns": self.knowns,
                   "obs": _plain(self.obs)}
            data = json.dumps(rec, default=repr).encode()
            while data:
                data = data[os.write(self.out_fd, data):]
            os._exit(0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        rec = {"status": status, "msg": msg, "nq": self.nq, "tq": self.tq, "forks": self.nforks,
               "checks": self.nchecks, "proved": self.nproved, "depth": len(self.decisions),
               "covers": sorted(self.covers), "fns": sorted(self.fns),
               "violations": self.violations, "knowns": self.knowns}
        if status == "ok":
            m = self._have_model() if self.model is None else self.model
            rec["asg"] = self.assignment_of(m)
            rec["obs"] = self.eval(self.obs, m)
        path = "".join(map(str, self.decisions))
        rec["path"] = hashlib.sha1(path.encode()).hexdigest()[:16]
        os.write(self.out_fd, (json.dumps(rec, default=repr) + "\n").encode())
        for pid in self.async_children:
            self._wait(pid)
        if self.is_async:
            os.write(self.tok_w, b"x")
        os._exit(0)


E = Engine()


def _run_path(fn):
    """Run the harness to its end in this process (never returns)."""
    try:
        fn()
    except SystemExit as ex:
        E.check(False, "unexpected-exit", "SystemExit(%r)" % (ex.code,))
    except BaseException as ex:
        tb = traceback.format_exc(limit=-6)
        E.check(False, "unexpected-exception", "%s: %s\n%s" % (type(ex).__name__, ex, tb))
    E.finish("ok")


def explore(fn, prepare=None, jobs=None, time_limit=600, path_limit=60, debug=False):
    """Explore all paths of fn().  Returns (records, complete?)."""
    jobs = jobs or os.cpu_count() or 1
    fd, name = tempfile.mkstemp(prefix="symx-")
    os.close(fd)
    out = os.open(name, os.O_WRONLY | os.O_APPEND)
    r, w = os.pipe()
    os.set_blocking(r, False)
    os.write(w, b"x" * (jobs - 1))
    shared = mmap.mmap(-1, 4096)
    deadline = time.time() + time_limit
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        die_with_parent()
        try:
            os.setpgid(0, 0)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            if not debug:
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            E.start_symbolic(out, r, w, shared, deadline, path_limit, debug)
            if prepare:
                prepare()
            import gc
            gc.collect()
            gc.freeze()
            gc.disable()
            _run_path(fn)
        except BaseException:
            os.write(out, (json.dumps({"status": "crash", "msg": traceback.format_exc()}) + "\n").encode())
        os._exit(3)
    killed = False
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > deadline + path_limit + 5:
            killed = True
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
            break
        time.sleep(0.01)
    recs = []
    with open(name) as f:
        for line in f:
            recs.append(json.loads(line))
    os.unlink(name)
    for x in (out, r, w):
        os.close(x)
    if killed:
        recs.append({"status": "deadline", "msg": "killed"})
    if st != 0 and not killed:
        recs.append({"status": "crash", "msg": "root status %d" % st})
    return recs


def run_concrete(fn, assignment, prepare=None, time_limit=60):
    """Run fn with concrete values in a forked process. Returns a record."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        die_with_parent()
        os.close(r)
        rec = {}
        try:
            os.setpgid(0, 0)
            dn = os.open(os.devnull, os.O_RDWR)
            for i in (0, 1, 2):
                os.dup2(dn, i)
            E.start_concrete(assignment, w)

            def al(*a):
                E.violations.append(("hang", "no end within %s s" % time_limit))
                E.finish("violation")
            signal.signal(signal.SIGALRM, al)
            signal.setitimer(signal.ITIMER_REAL, time_limit)
            if prepare:
                prepare()
            _run_path(fn)
        except BaseException:
            rec = {"status": "crash", "msg": traceback.format_exc(), "violations": [], "knowns": []}
        os.write(w, json.dumps(rec, default=repr).encode())
        os._exit(0)
    os.close(w)
    chunks = []
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    data = b"".join(chunks).decode()
    os.waitpid(pid, 0)
    if not data:
        return {"status": "crash", "msg": "no answer", "violations": [], "knowns": []}
    return json.loads(data)


def _plain(x):
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((_plain(y) for y in x), key=repr)
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, z3.BoolRef):
        return z3.is_true(z3.simplify(x))
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return int(x) if x == int(x) else x
    return repr(x)
