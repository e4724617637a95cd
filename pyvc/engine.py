"""Path-exhaustive symbolic execution of the (instrumented) repository code.

A harness is re-executed once per path; every branch on a symbolic condition is
a recorded decision.  Loops over symbolic-length collections are cut: one
arbitrary iteration is executed from a havocked state, an inductive closed form
of everything it changes is computed from that (sums, pointwise updates,
appends, last writes), the iteration is re-executed from the closed form (so
the closed form is checked to be inductive, not guessed), and execution goes on
after the loop from the closed form at the bound.
"""
import re
import time
from fractions import Fraction as Fr
from . import terms as T
from . import smt


class PathEnd(BaseException):
    pass


class Unsupported(BaseException):
    """The code left the engine's subset: the obligation is undecided."""


class TimeOut(BaseException):
    pass


UNDEF = None      # set by values


class Branch(object):
    __slots__ = ('fm', 'value', 'other', 'real')
    kind = 'br'

    def __init__(self, fm, value, other):
        self.fm, self.value, self.other = fm, value, other
        self.real = other

    def advance(self):
        if self.other:
            self.value = not self.value
            self.other = False
            return True
        return False


class Choice(object):
    __slots__ = ('n', 'value', 'label')
    kind = 'choice'

    def __init__(self, n, label):
        self.n, self.value, self.label = n, 0, label

    def advance(self):
        self.value += 1
        return self.value < self.n


class Obligation(object):
    def __init__(self, label, status, detail='', model=None, path=None,
                 tainted=False, opaque=False):
        self.label = label
        self.status = status
        self.detail = detail
        self.model = model
        self.path = path
        self.tainted = tainted
        self.opaque = opaque


# names of the engine's value classes, in the message of an exception
ENGINE_TYPES = re.compile(
    r"\b(Num|Cplx|S(Bool|Str|Opt|Member|Split|List|Vec|Range|View|Dict|"
    r"KeyValues|Default|Rec|Set)|Comp|Nest|Item|GMap|_Undef)\b")


class Engine(object):
    def __init__(self, deadline=None, solver_ms=8000):
        self.stack = []
        self.pos = 0
        self.pc = []
        self.taint = []
        self.discovery = 0
        self.obls = []
        self.reached = {}
        self.entered = {}
        self.paths = 0
        self.deadline = deadline
        self.solver_ms = solver_ms
        self.feas_ms = 1500
        self._feas_cache = {}
        self._fresh = {}
        self.fresh_log = []
        self.peeking = 0
        self.class_inv = {}
        self.active_loops = []
        self.births = {}
        self.frozen = {}
        self.inputs = {}
        self.max_paths = 4000
        self.unsupported = []

    # ---------------------------------------------------------- names
    def fresh(self, base):
        n = self._fresh.get(base, 0) + 1
        self._fresh[base] = n
        # a value that may differ from one iteration to the next
        self.fresh_log.append('%s!%d' % (base, n))
        return '%s!%d' % (base, n)

    # ---------------------------------------------------------- driving
    def explore(self, fn):
        self.stack = []
        while True:
            self.paths += 1
            if self.paths > self.max_paths:
                self.unsupported.append('path limit reached')
                break
            self.begin_path()
            ended = None
            finished = True
            try:
                fn()
            except PathEnd:
                finished = False
            except Unsupported as e:
                if not self.discovery:
                    self.unsupported.append(str(e))
                else:
                    finished = False
                    self.stack_loop().node.bad = str(e)
            except TimeOut:
                self.unsupported.append('time limit reached')
                break
            except Exception as e:
                ended = e
            if self.discovery:
                L = self.stack_loop()
                if (finished or self.escaped) and not L.recorded:
                    L.record_escape(self)
            elif ended is not None:
                self.uncaught(ended)
            while self.stack and not self.stack[-1].advance():
                self.stack.pop()
            if not self.stack:
                break

    def stack_loop(self):
        for L in reversed(self.active_loops):
            if L.stage == 'disc':
                return L
        return self.active_loops[-1]

    def begin_path(self):
        self.pos = 0
        self.pc = []
        self.taint = []
        self._fresh = {}
        self.fresh_log = []
        self.discovery = 0
        from .values import REMAP
        REMAP.clear()
        self.active_loops = []
        self.births = {}
        self.frozen = {}
        self.peeking = 0
        self.escaped = False

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise TimeOut()

    def uncaught(self, e):
        import os, traceback
        if os.environ.get("VDEBUG"):
            traceback.print_exception(e)
        label = 'no-unexpected-exception'
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for f in reversed(tb):
            if '/auxi/' in f.filename:
                where = ' at %s:%d' % (f.filename, f.lineno)
                break
        if tb and '/contracts/' in tb[-1].filename:
            self.unsupported.append('stand-in: %s: %s at %s:%d' % (
                type(e).__name__, e, tb[-1].filename, tb[-1].lineno))
            return
        if not where and tb:
            # raised by the harness or the engine itself: not the code
            if not any('/auxi/' in f.filename for f in tb):
                self.unsupported.append('harness error: %s: %s at %s:%d' % (
                    type(e).__name__, e, tb[-1].filename, tb[-1].lineno))
                return
        if ENGINE_TYPES.search(str(e)) or isinstance(
                e, (AttributeError, NameError, RecursionError,
                    MemoryError)) or isinstance(
                e, (TypeError, NotImplementedError)) and \
                'pyvc' in (tb[-1].filename if tb else ''):
            # may be a value the engine does not model: left to the bounded run
            self.unsupported.append('engine: %s: %s%s' % (
                type(e).__name__, e, where))
            return
        self.obligation(label, T.FALSE, '%s: %s%s' % (
            type(e).__name__, e, where))

    # ---------------------------------------------------------- branching
    def feasible(self, fm):
        """May fm hold on this path? (False only if the solver refutes it)"""
        if fm.op == 'F':
            return False
        key = (tuple(self.pc), fm)
        r = self._feas_cache.get(key)
        if r is None:
            self.check_time()
            r = smt.solve(self.pc, T.not_(fm), self.feas_ms,
                          light=True)[0] != 'proved'
            if r and len(self.pc) and _needs_full(self.pc, fm):
                r = smt.solve(self.pc, T.not_(fm), self.feas_ms)[0] \
                    != 'proved'
            self._feas_cache[key] = r
        return r

    def decide(self, fm):
        if fm.op == 'T':
            return True
        if fm.op == 'F':
            return False
        if self.peeking:
            if fm in self.pc:
                return True
            if T.not_(fm) in self.pc:
                return False
            t = self.feasible(fm)
            f = self.feasible(T.not_(fm))
            if t and f:
                raise NeedFork()
            return t
        if self.pos < len(self.stack):
            n = self.stack[self.pos]
            self.pos += 1
            if n.kind != 'br':
                raise Unsupported('nondeterministic replay')
            v = n.value
        else:
            if fm in self.pc:
                t, f = True, False
            elif T.not_(fm) in self.pc:
                t, f = False, True
            else:
                t = self.feasible(fm)
                f = self.feasible(T.not_(fm)) if t else True
            if t and f:
                n = Branch(fm, True, True)
            else:
                n = Branch(fm, t, False)
            self.stack.append(n)
            self.pos += 1
            v = n.value
        self.assume(fm if v else T.not_(fm))
        return v

    def cases(self, fn, facts=()):
        """[(condition, value of fn)] where fn may branch: used for values
        under a bound variable, about which a path cannot assume anything"""
        if self.peeking:
            return [(T.TRUE, fn())]
        stack, pos, pc = self.stack, self.pos, self.pc
        f0 = dict(self._fresh)
        out = []
        self.stack = []
        try:
            while True:
                self.pos, self.pc = 0, pc + list(facts)
                self._fresh = dict(f0)
                try:
                    v = fn()
                    if any(b.kind != 'br' for b in self.stack):
                        raise Unsupported('a choice under a bound variable')
                    out.append((T.and_(*[
                        b.fm if b.value else T.not_(b.fm)
                        for b in self.stack if b.real]), v))
                except PathEnd:
                    pass
                while self.stack and not self.stack[-1].advance():
                    self.stack.pop()
                if not self.stack:
                    break
                if len(out) > 16:
                    raise Unsupported('many cases under a bound variable')
        finally:
            self.stack, self.pos, self.pc = stack, pos, pc
        return out

    def choose(self, k, label=''):
        if self.discovery:
            # the summary of a loop combines its cases by their conditions
            raise Unsupported('a choice without a condition in a loop')
        if self.pos < len(self.stack):
            n = self.stack[self.pos]
            if n.kind != 'choice':
                raise Unsupported('nondeterministic replay')
        else:
            n = Choice(k, label)
            self.stack.append(n)
        self.pos += 1
        return n.value

    def assume(self, fm):
        if fm.op == 'T':
            return
        if fm.op == 'F':
            raise PathEnd()
        self.pc.append(fm)

    def assume_checked(self, fm):
        """assume; end the path when it is infeasible"""
        if fm.op == 'T':
            return
        if not self.feasible(fm):
            raise PathEnd()
        self.pc.append(fm)

    def implied(self, fm, ms=1500):
        if fm.op == 'T':
            return True
        if fm.op == 'F':
            return False
        return smt.solve(self.pc, fm, ms)[0] == 'proved'

    # ---------------------------------------------------------- obligations
    def obligation(self, label, fm, detail=''):
        if self.discovery:
            return
        self.check_time()
        self.reached[label] = self.reached.get(label, 0) + 1
        status, model, enc = self.prove(fm)
        if status != 'proved':
            extra = self.sum_facts()
            if extra:
                n0 = len(self.pc)
                self.pc += extra
                try:
                    if smt.solve(self.pc, T.FALSE,
                                 self.solver_ms)[0] == 'proved' or \
                            self.prove(fm)[0] == 'proved':
                        status = 'proved'
                finally:
                    del self.pc[n0:]
        if status == 'refuted' and not self.taint:
            status = self.confirm(fm)
        taint = list(self.taint)
        o = Obligation(label, status, detail, None, None, bool(taint),
                       bool(enc is not None and enc.opaque))
        if status != 'proved':
            # an infeasible path proves everything
            if fm.op == 'F' and smt.solve(self.pc, T.FALSE,
                                          self.solver_ms)[0] == 'proved':
                o.status = 'proved'
            else:
                o.detail = (detail + ' | goal: ' + T.show_fm(fm)[:1500] +
                            ' | path: ' + ' ; '.join(
                                T.show_fm(f)[:300] for f in self.pc)[:3000] +
                            (' | taint: %s' % taint if taint else ''))
                if status == 'refuted' and model is not None:
                    o.model = decode_model(model, enc)
        self.obls.append(o)

    def confirm(self, fm):
        """A countermodel in which sums are any numbers is no countermodel:
        with the sizes fixed to small numbers every sum and quantifier is
        written out, and the goal has to fail for some of them."""
        fs = list(self.pc) + [fm]
        if not any(a.kind == 'sum' for f in fs for a in _deep_atoms(f)):
            return 'refuted'
        sizes = set()
        for f in fs:
            _sizes(f, sizes)
        sizes = sorted(sizes)
        if not 1 <= len(sizes) <= 3:
            return 'refuted'
        import itertools
        end = time.time() + 20
        for c in itertools.product(range(4 if len(sizes) < 2 else 3),
                                   repeat=len(sizes)):
            s = {v: T.const(x) for v, x in zip(sizes, c)}
            pc = [_expand(T.subst_fm(f, s)) for f in self.pc]
            goal = _expand(T.subst_fm(fm, s))
            if any(f.op == 'F' for f in pc):
                continue
            pc += [T.eq0(T.var(v, 'I') - x) for v, x in s.items()]
            if smt.solve(pc, goal, 2000)[0] == 'refuted' or \
                    time.time() > end:
                return 'refuted'
        return 'unknown'

    def lemma(self, label):
        """an auxiliary obligation that was discharged"""
        self.obls.append(Obligation(label, 'proved', '', None, None, False,
                                    False))

    def sum_facts(self):
        """facts about sums on the path, their summands simplified with the
        other facts (added, never replacing)"""
        out = []
        for f in list(self.pc):
            if f.op in ('le', 'eq', 'not') and any(
                    a.kind == 'sum' for a in _fm_atoms(f)):
                g = self.deep_simplify(f)
                if g != f and g.op != 'T':
                    out.append(g)
        return out

    def prove(self, fm, depth=0):
        """-> (status, model, enc); splits the goal, then decides each part"""
        if fm.op == 'and':
            last = ('proved', None, None)
            for g in fm.a:
                r = self.prove(g, depth)
                if r[0] != 'proved':
                    return r
            return last
        n0 = len(self.pc)
        try:
            if fm.op == 'all':
                v, n, f = fm.a
                kv = T.var(T.fresh_name('q'), 'I')
                self.pc += [f for f in (T.le0(-kv), T.lt0(kv - n))
                            if f.op != 'T']
                return self.prove(T.subst_fm(f, {v: kv}), depth)
            if fm.op == 'or':
                rank = {'all': 0, 'and': 1, 'eq': 2, 'le': 3}
                gs = sorted(fm.a, key=lambda g: rank.get(g.op, 4))
                if gs[0].op in rank:
                    self.pc += [T.not_(g) for g in gs[1:]]
                    return self.prove(gs[0], depth)
            return self.prove_atom(fm, depth)
        finally:
            del self.pc[n0:]

    def prove_atom(self, fm, depth):
        if fm.op == 'F':
            return smt.solve(self.pc, fm, self.solver_ms, want_model=True)
        fm = self.simplify(fm)
        if self.termwise(fm):
            return ('proved', None, None)
        r = smt.solve(self.pc, fm, self.solver_ms, want_model=True)
        if r[0] == 'proved':
            return r
        fm2 = self.simplify(self.deep_simplify(fm))
        if fm2 != fm:
            r2 = smt.solve(self.pc, fm2, self.solver_ms, want_model=True)
            if r2[0] == 'proved':
                return r2
            if r[0] == 'unknown':
                r = r2
        for g in ((fm, fm2) if fm2 != fm else (fm,)):
            if depth < 3 and self.extensional(g, depth):
                return ('proved', None, None)
            if depth < 4 and self.by_cases(g, depth):
                return ('proved', None, None)
            if depth < 4:
                g2 = self.same_bounds(g)
                if g2 is not None and \
                        self.prove(g2, depth + 1)[0] == 'proved':
                    return ('proved', None, None)
        if depth < 4:
            g2 = self.by_equalities(fm2)
            if g2 is not None and self.prove(g2, depth + 1)[0] == 'proved':
                return ('proved', None, None)
        if r[0] == 'unknown':
            from . import cvc
            t0 = time.time()
            ok = cvc.solve_like(self.pc, fm)
            smt.STATS['cvc5_s'] += time.time() - t0
            if ok:
                return ('proved', None, None)
        return r

    def termwise(self, fm):
        """extensional(), with one query for each range"""
        g = self.by_range(fm)
        if g is None:
            return False
        for rng, f in g:
            if smt.solve(self.pc + rng, f, 3000)[0] != 'proved':
                return False
        return True

    def extensional(self, fm, depth):
        """Sums over the same range are equal (ordered) when their terms are:
        prove the combined term of each range separately."""
        g = self.by_range(fm)
        if g is None:
            return False
        for rng, f in g:
            n0 = len(self.pc)
            self.pc += rng
            try:
                if self.prove(f, depth + 1)[0] != 'proved':
                    return False
            finally:
                del self.pc[n0:]
        return True

    def by_range(self, fm):
        if fm.op not in ('eq', 'le'):
            return None
        groups, rest = {}, T.ZERO
        for m, c in fm.a[0].t.items():
            s = [a for a, e in m if a.kind == 'sum' and e == 1]
            if len(s) != 1:
                rest = rest + T.Poly({m: c})
                continue
            n, b, body = s[0].data
            q = T.const(c)
            for a, e in m:
                if a is not s[0] and a != s[0]:
                    q = q * T.from_atom(a, e)
            groups.setdefault(n, []).append((b, body, q))
        if not groups:
            return None
        mk = T.eq0 if fm.op == 'eq' else T.le0
        out = []
        for n, l in groups.items():
            kv = T.var(T.fresh_name('x'), 'I')
            t = T.ZERO
            for b, body, q in l:
                t = t + q * T.subst_poly(body, {b: kv})
            out.append(([T.le0(-kv), T.lt0(kv - n)], mk(t)))
        return out + [([], mk(rest))]

    def same_bounds(self, fm):
        """Use an equality of two bounds of sums that the path implies."""
        ns = []
        for a in _fm_atoms(fm):
            if a.kind == 'sum' and a.data[0] not in ns:
                ns.append(a.data[0])
        for i in range(len(ns)):
            for m in ns[:i] + ns[i + 1:] + [T.ZERO]:
                for off in (0, 1, 2):
                    eq = T.eq0(ns[i] - m - T.const(off))
                    if eq.op == 'F' or eq.op == 'T' and not off:
                        continue
                    if off and not m.is_const() and \
                            not self.implied(T.le0(-m)):
                        break
                    if self.implied(eq):
                        return self.with_bound(fm, ns[i], m, off)
        return None

    def with_bound(self, fm, n, m, off):
        """n == m + off: rewrite the sums up to n"""
        ra = {}
        for a in _fm_atoms(fm):
            if a.kind == 'sum' and a.data[0] == n:
                _, b, body = a.data
                k = T.fresh_name('s')
                r = T.mk_sum(m, k, T.subst_poly(body, {b: T.var(k, 'I')}))
                for j in range(off):
                    r = r + T.subst_poly(body, {b: m + T.const(j)})
                ra[a] = r
        g = T.replace_atoms(fm.a[0], ra)
        return T.eq0(g) if fm.op == 'eq' else T.le0(g)

    def by_equalities(self, fm):
        """The goal after use of the equations of the path condition (x <= y
        with y <= x is one), also under sums; None: nothing to use."""
        les = {f.a[0] for f in self.pc if f.op == 'le'}
        eqs = [f for f in self.pc if f.op == 'eq'] + [
            T.eq0(p) for p in les if T.ZERO - p in les]
        g = fm
        for e in eqs:
            if e.op != 'eq':
                continue
            s = T.solve_atom(e)
            if s is not None:
                g = T.replace_atoms(g, {s[0]: s[1]})
        return None if g == fm else g

    def by_cases(self, fm, depth):
        """Distinguish x == t / x != t for an equation that occurs as a
        condition inside the goal, using the equation in the first case."""
        if fm.op not in ('eq', 'le'):
            return False
        for a in fm.a[0].atoms():
            if a.kind != 'ind' or a.data.op != 'eq':
                continue
            s = T.solve_atom(a.data)
            if s is None:
                continue
            n0 = len(self.pc)
            try:
                self.pc.append(a.data)
                if self.prove(T.replace_atoms(fm, {s[0]: s[1]}),
                              depth + 1)[0] != 'proved':
                    return False
                del self.pc[n0:]
                self.pc.append(T.not_(a.data))
                return self.prove(T.replace_atoms(fm, {a: T.ZERO}),
                                  depth + 1)[0] == 'proved'
            finally:
                del self.pc[n0:]
        return False

    def simplify(self, fm):
        """Clear denominators in (dis)equalities when they are nonzero."""
        if fm.op == 'eq':
            p = smt.expand_pw(fm.a[0])
            q, nz = smt.clear_denoms(p)
            if not nz:
                return T.eq0(p)
            ok = True
            for a in set(nz):
                if T._atom_positive(a):
                    continue
                pa = a.data if a.kind == 'pw' else T.from_atom(a)
                if not self.implied(T.not_(T.eq0(pa))):
                    ok = False
                    break
            return T.eq0(q) if ok else T.eq0(p)
        if fm.op in ('and',):
            return T.and_(*[self.simplify(x) for x in fm.a])
        if fm.op == 'or':
            return T.or_(*[self.simplify(x) for x in fm.a])
        if fm.op == 'not' and fm.a[0].op == 'eq':
            return T.not_(self.simplify(fm.a[0]))
        return fm

    def deep_simplify(self, fm):
        """Decide the indicators occurring in fm (also under sums) with the
        path condition."""
        cache = {}

        def fmx(f):
            if f.op in ('le', 'eq'):
                p = poly(f.a[0], [])
                return T.le0(p) if f.op == 'le' else T.eq0(p)
            if f.op == 'not':
                return T.not_(fmx(f.a[0]))
            if f.op == 'and':
                return T.and_(*[fmx(x) for x in f.a])
            if f.op == 'or':
                return T.or_(*[fmx(x) for x in f.a])
            return f

        def poly(p, ctx):
            key = (p, tuple(ctx))
            if key in cache:
                return cache[key]
            r = T.ZERO
            for m, c in p.t.items():
                q = T.const(c)
                for a, e in m:
                    if a.kind == 'ind':
                        f = a.data
                        st = smt.solve(self.pc + ctx, f, 800)[0]
                        if st == 'proved':
                            continue
                        st = smt.solve(self.pc + ctx, T.not_(f), 800)[0]
                        if st == 'proved':
                            q = T.ZERO
                            break
                        q = q * T.from_atom(a)
                    elif a.kind == 'sum':
                        n, b, body = a.data
                        k = self.fresh('ds')
                        kv = T.var(k, 'I')
                        nb = poly(T.subst_poly(body, {b: kv}),
                                  ctx + [T.le0(-kv), T.lt0(kv - n)])
                        s = T.mk_sum(n, k, nb)
                        q = q * (s if e == 1 else T.powq(s, e))
                    elif a.kind == 'pw':
                        nb = poly(a.data, ctx)
                        q = q * T.powq(nb, e)
                    else:
                        q = q * T.from_atom(a, e)
                r = r + q
            cache[key] = r
            return r
        return fmx(fm)


def _fm_atoms(f):
    if f.op == 'not':
        return _fm_atoms(f.a[0])
    if f.op in ('le', 'eq'):
        return f.a[0].atoms()
    return ()


class NeedFork(BaseException):
    pass


def _needs_full(pc, fm):
    """Is there anything the light query drops (quantifiers, sums)?"""
    return any(f.op == 'all' or (f.op == 'or' and any(
        g.op == 'all' for g in f.a)) for f in pc) or 'SUM' in T.show_fm(fm)


def decode_model(model, enc):
    """{symbol text: float/int/str} for replay"""
    out = {'vars': {}, 'apps': {}, 'keys': {}, 'bools': {}}

    def val(z):
        v = model.eval(z, model_completion=True)
        try:
            if v.is_int():
                return v.as_long()
        except Exception:
            pass
        try:
            return float(v.as_fraction())
        except Exception:
            try:
                return float(v.approx(20).as_fraction())
            except Exception:
                return None

    def ev_poly(p):
        r = 0.0
        for m, c in p.t.items():
            t = float(c)
            for a, e in m:
                if a.kind == 'ind' or a not in enc.c:
                    return None
                v = val(enc.c[a])
                if v is None:
                    return None
                t *= float(v) ** float(e)
            r += t
        return r
    for a in enc.atoms:
        if a.kind == 'var':
            out['vars'][a.data] = val(enc.c[a])
        elif a.kind == 'app':
            try:
                args = []
                for y in a.data[1]:
                    if isinstance(y, T.Poly):
                        args.append(ev_poly(y))
                    elif y in enc.keyc:
                        args.append('k%s' % val(enc.keyc[y]))
                    else:
                        args.append(None)
                if None not in args:
                    out['apps'][a.data[0] + repr(tuple(args))] = \
                        val(enc.c[a])
            except Exception:
                pass
    for k in enc.keys:
        out['keys'][T.show_key(k)] = val(enc.keyc[k])
    return out


E_CUR = [None]


def cur():
    return E_CUR[0]


def _deep_atoms(f):
    """the atoms of f, also those inside of others"""
    return T.atoms_in(T._atom('ind', f))


def _sizes(f, out):
    """the integers that bound the sums and quantifiers of f"""
    def bound(n):
        for m in n.t:
            for a, e in m:
                if a.kind == 'var' and a.sort == 'I' and \
                        not a.data.startswith('#'):
                    out.add(a.data)
    for a in _deep_atoms(f):
        if a.kind == 'sum':
            bound(a.data[0])

    def fm(f):
        if f.op == 'all':
            bound(f.a[1])
        for x in f.a:
            if isinstance(x, T.Fm):
                fm(x)
    fm(f)


def _expand(f):
    """quantifiers over a known range written out"""
    if f.op == 'all':
        v, n, g = f.a
        if n.is_const() and n.const() <= 4:
            return T.and_(*[_expand(T.subst_fm(g, {v: T.const(i)}))
                            for i in range(int(n.const()))])
        return f
    if f.op == 'not':
        return T.not_(_expand(f.a[0]))
    if f.op == 'and':
        return T.and_(*[_expand(x) for x in f.a])
    if f.op == 'or':
        return T.or_(*[_expand(x) for x in f.a])
    return f
