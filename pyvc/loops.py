"""Cut loops: discovery, closed forms, inductive re-check, exit."""
from . import terms as T
from . import smt
from .engine import cur, PathEnd, Unsupported, NeedFork, TimeOut
from .values import (Num, now, frozen, Nest, subst_seg, SBool, SStr, SList, SVec, SDict, SRange, SView,
                     SRec, Comp, Item, UNDEF, as_segs, to_poly, tag_of,
                     is_num, key_of, subst_value, same_value, same_segs,
                     merge_values, in_range, seq_len, join_tag, REMAP)

MAX_ROUNDS = 6


def symbols(x):
    """All symbol names of a term: variables and applied functions."""
    out = set()

    def pol(p):
        for m in p.t:
            for a, _ in m:
                at(a)

    def at(a):
        if a.kind == 'var':
            out.add(a.data)
        elif a.kind == 'app':
            out.add(a.data[0])
            for y in a.data[1]:
                arg(y)
        elif a.kind == 'ind':
            fm(a.data)
        elif a.kind == 'sum':
            pol(a.data[0])
            pol(a.data[2])
        else:
            pol(a.data)

    def arg(y):
        if isinstance(y, T.Poly):
            pol(y)
        else:
            key(y)

    def key(k):
        if k[1] == 'var':
            out.add(k[2])
        elif k[1] == 'app':
            out.add(k[2])
            for y in k[3]:
                arg(y)

    def fm(f):
        if f.op == 'b':
            out.add(f.a[0])
        for x in f.a:
            if isinstance(x, T.Poly):
                pol(x)
            elif isinstance(x, T.Fm):
                fm(x)
            elif isinstance(x, tuple) and x and x[0] == 'k':
                key(x)
            elif isinstance(x, tuple):
                for y in x:
                    arg(y)
    if isinstance(x, T.Poly):
        pol(x)
    elif isinstance(x, T.Fm):
        fm(x)
    else:
        key(x)
    return out


# ---------------------------------------------------------------- state graph
IGN = (int, float, str, bytes, bool, type(None))


def is_obj(v):
    return (hasattr(v, '__dict__') and
            type(v).__module__.startswith('auxi')) or isinstance(v, SRec)


class Snap(object):
    """Shallow state of everything reachable from the roots, by path."""

    def __init__(self, roots):
        self.leaf = {}        # path -> (kind, value)
        self.obj = {}         # path -> object
        self.byid = {}
        for name, v in sorted(roots.items()):
            self.walk((name,), v, 0)

    def walk(self, path, v, depth):
        if depth > 7:
            return
        if isinstance(v, (Num, SBool, SStr)) or isinstance(v, IGN):
            self.leaf[path] = ('val', v)
            return
        if isinstance(v, tuple):
            self.leaf[path] = ('val', v)
            return
        if isinstance(v, (SList, SVec, SDict)):
            if id(v) in self.byid:
                self.leaf[path] = ('alias', self.byid[id(v)])
                self.obj[path] = v
                return
            self.byid[id(v)] = path
            self.obj[path] = v
            self.leaf[path] = ('cont', content(v))
            if isinstance(v, SList):
                for j, g in enumerate(v.seg_view()):
                    if isinstance(g, Item) and (is_obj(g.v) or isinstance(
                            g.v, (SList, SVec, SDict))):
                        self.walk(path + (j,), g.v, depth + 1)
            elif isinstance(v, SDict) and not v.sym():
                for kk in dict.keys(v):
                    x = dict.__getitem__(v, kk)
                    if is_obj(x) or isinstance(x, (SList, SVec, SDict)):
                        self.walk(path + (('k', kk),), x, depth + 1)
            return
        if is_obj(v):
            if id(v) in self.byid:
                self.leaf[path] = ('alias', self.byid[id(v)])
                self.obj[path] = v
                return
            self.byid[id(v)] = path
            self.obj[path] = v
            self.leaf[path] = ('obj', type(v))
            for a in sorted(v.__dict__):
                self.walk(path + ('.' + a,), v.__dict__[a], depth + 1)
            return
        self.leaf[path] = ('opaque', v)


class LState(object):
    """content of a list"""

    def __init__(self, segs):
        self.segs = segs


class VState(object):
    def __init__(self, n, elem):
        self.n, self.elem = n, elem


class DState(object):
    def __init__(self, val, has, enum, conc):
        self.val, self.has, self.enum, self.conc = val, has, enum, conc


def content(v):
    if isinstance(v, SList):
        return LState(list(v.seg_view()))
    if isinstance(v, SVec):
        return VState(v.n, v.elem)
    return DState(v.val, v.has, v.enum,
                  None if v.sym() else dict(dict.items(v)))


def same_content(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, LState):
        return same_segs(a.segs, b.segs)
    if isinstance(a, VState):
        if a.n != b.n:
            return False
        if a.elem is b.elem:
            return True
        k = T.var('#sv', 'I')
        return same_value(a.elem(k), b.elem(k))
    if a.conc is not None and b.conc is not None:
        if len(a.conc) != len(b.conc):
            return False
        for (k1, v1), (k2, v2) in zip(a.conc.items(), b.conc.items()):
            if k1 is not k2 and not same_value(k1, k2):
                return False
            if v1 is not v2 and not same_value(v1, v2):
                return False
        return True
    if a.conc is not None or b.conc is not None:
        return False
    if a.val is b.val and a.has is b.has:
        return True
    q = ('k', 'var', '#q')
    return same_value(a.val(q), b.val(q)) and a.has(q) == b.has(q)


def restore(v, c):
    if isinstance(v, SList):
        v.set_segs(list(c.segs))
    elif isinstance(v, SVec):
        v.n, v.elem = c.n, c.elem
    else:
        dict.clear(v)
        if c.conc is not None:
            v.val = v.has = v.enum = None
            for k, x in c.conc.items():
                dict.__setitem__(v, k, x)
        else:
            v.set_map(c.val, c.has, c.enum)


IVAR = '#i'
QVAR = '#q'


class Leaf(object):
    """A changed location."""

    def __init__(self, path, kind):
        self.path = path
        self.kind = kind          # 'num' 'str' 'any' 'list' 'vec' 'dict'
        self.closed = None        # function(init, k Poly) -> value/content
        self.sym = None
        self.how = None
        self.fresh_obj = False
        self.refs = {}            # objects of the head it mentions -> path
        self.inv = None           # class invariant: attribute = inv(object)
        self.inv_bad = False


class LoopNode(object):
    kind = 'loop'

    def __init__(self, site, names):
        self.site = site
        self.names = names
        self.kname = None
        self.facts = []           # how it was left on the current path
        self.stage = 'disc'
        self.round = 0
        self.leaves = {}          # path -> Leaf
        self.outcomes = []        # (status, cond Fm, {path: (pre, post)})
        self.escapes = []
        self.bad = None
        self.recorded = False
        self.new_leaf = False
        self.cond_facts = []
        self.exit_seen = False
        self.fresh_paths = set()
        self.refs = {}            # id -> (object, path at the head)
        self.body_syms = set()    # may differ from iteration to iteration

    # called by the driver when this node's subtree is exhausted
    def advance(self):
        if self.stage == 'disc':
            again = self.summarise()
            self.round += 1
            if again and self.round < MAX_ROUNDS:
                self.outcomes = []
                return True
            self.stage = 'final'
            return True
        if self.stage == 'final':
            self.stage = 'exit'
            return True
        return False

    def unresolved_syms(self):
        s = set(self.body_syms)
        for l in self.leaves.values():
            if l.closed is None and l.sym is not None:
                s.add(l.sym)
                s.add(l.sym + '.has')
                s.add(l.sym + '.n')
        return s

    def summarise(self):
        """Try to resolve unresolved leaves from the outcomes of this round.
        -> True when another discovery round is needed."""
        changed = self.new_leaf
        self.new_leaf = False
        if changed:
            for l in self.leaves.values():
                l.closed = None
            return True
        if any(l.how == 'inv' and l.inv_bad for l in self.leaves.values()):
            # the invariant does not hold: start again without it
            for l in self.leaves.values():
                l.closed = l.how = None
            return True
        un = [l for l in self.leaves.values() if l.closed is None]
        if not un:
            return False
        normal = [o for o in self.outcomes if o[0] == 'ok']
        U = self.unresolved_syms()
        progress = False
        for l in un:
            c = resolve(self, l, normal, U)
            if c is not None:
                l.closed, l.how = c
                progress = True
        if not progress:
            # fall back on a stated class invariant (attribute = f(object));
            # it is verified in the next round
            for l in un:
                if l.kind == 'num' and l.sym is not None and \
                        not l.inv_bad and l.inv is not None:
                    l.closed, l.how = True, 'inv'
                    progress = True
        def later(l):
            if l.how == 'inv':
                return True
            if l.closed is not None:
                return False
            if l.kind == 'any' and l.sym is None:
                # undefined before; not the same value on every path
                ps = [ch.get(l.path) for st, c, ch in normal]
                return len(ps) == 1 and ps[0] is not None
            return True
        # conditions in terms of a state that is known only now
        s = {l.sym for l in self.leaves.values() if l.closed is not None}
        stale = any(not symbols(c).isdisjoint(s)
                    for c in [o[1] for o in self.outcomes] + self.cond_facts)
        return progress and (stale or any(
            later(l) for l in self.leaves.values()))


def resolve(node, l, normal, U):
    kn = node.kname
    posts = []
    for st, cond, ch in normal:
        post = ch.get(l.path)
        posts.append((cond, post))       # post None: unchanged
    if not posts:
        return None
    for o, path in l.refs.values():
        # which object that is must not change in the loop
        if any(path[:j] in node.fresh_paths or path[:j] in node.leaves and
               node.leaves[path[:j]].kind == 'any'
               for j in range(1, len(path) + 1)):
            return None

    def free(x):
        return symbols(x).isdisjoint(U)

    def mix(vals):
        """combine [(cond, Poly)] into one Poly, or None"""
        first = vals[0][1]
        if all(v == first for _, v in vals):
            return first if free(first) else None
        for c, v in vals:
            if not free(v) or not free(c):
                return None
        r = T.ZERO
        for c, v in vals:
            if v.t:
                r = r + T.ind(c) * v
        return r

    kv = T.var(kn, 'I')
    if l.sym is None:
        # undefined before the loop: only its last value matters
        vals = [p for c, p in posts]
        if any(v is None for v in vals):
            return None
        if l.kind == 'num':
            f = mix([(c, to_poly(p)) for c, p in posts if is_num(p)])
            if f is None or not all(is_num(p) for p in vals):
                return None
            tag = tag_of(vals[0])

            def closed(init, k, f=f):
                return Num(T.subst(f, {kn: k - T.ONE}), tag)
            return closed, 'last'
        if l.kind == 'any' and len(vals) == 1 and value_free(vals[0], U):
            def closed(init, k, v0=vals[0]):
                return subst_value(v0, {kn: k - T.ONE})
            return closed, 'last'
        return None
    if l.kind == 'num':
        pre = T.var(l.sym, 'R' if l.tag != 'int' else 'I')
        vals = []
        tag = l.tag
        for c, p in posts:
            if p is None:
                vals.append((c, T.ZERO))
            elif not is_num(p):
                return None
            else:
                vals.append((c, to_poly(p) - pre))
                tag = join_tag(tag, tag_of(p))
        f = mix(vals)
        if f is not None:
            def closed(init, k, f=f, tag=tag):
                j = T.fresh_name('cf')
                b = T.subst(f, {kn: T.var(j, 'I')})
                return Num(to_poly(init) + T.mk_sum(k, j, b), tag)
            return closed, 'sum'
        # multiplicative by a loop-invariant factor
        rats = []
        for c, p in posts:
            if p is None:
                rats.append((c, T.ONE))
            else:
                q = to_poly(p) * T.inv(pre)
                rats.append((c, q))
        f = mix(rats)
        if f is not None and kn not in symbols(f) and T.poly_positive(f):
            def closed(init, k, f=f):
                return Num(to_poly(init) * T.powp(f, k), 'float')
            return closed, 'geometric'
        # last write
        vals = [(c, None if p is None else to_poly(p)) for c, p in posts]
        if all(v is not None for _, v in vals):
            f = mix(vals)
            if f is not None:
                def closed(init, k, f=f, tag=tag):
                    b = T.subst(f, {kn: k - T.ONE})
                    if init is UNDEF:
                        return Num(b, tag)
                    return Num(T.ite(T.lt0(-k), b, to_poly(init)), tag)
                return closed, 'last'
        return None
    if l.kind == 'any':
        # last write of a non-numeric value: same on every path
        vals = [p for c, p in posts]
        if any(v is None for v in vals):
            return None
        v0 = vals[0][0] if isinstance(vals[0], Wrapped) else vals[0]
        if len(vals) == 1 and value_free(v0, U):
            def closed(init, k, v0=v0):
                b = subst_value(v0, {kn: k - T.ONE})
                if init is UNDEF:
                    return b
                return merge_values(T.lt0(-k), b, init)
            return closed, 'last'
        return None
    if l.kind in ('list', 'vec'):
        return resolve_seq(node, l, posts, U, free, mix)
    if l.kind == 'dict':
        return resolve_dict(node, l, posts, U, free, mix)
    return None


class Wrapped(object):
    def __init__(self, v):
        self.v = v


def value_free(v, U):
    if id(v) in REMAP:
        return True
    if isinstance(v, Num):
        return symbols(v.p).isdisjoint(U)
    if isinstance(v, SBool):
        return symbols(v.f).isdisjoint(U)
    if isinstance(v, SStr):
        return symbols(v.k).isdisjoint(U)
    if isinstance(v, tuple):
        return all(value_free(x, U) for x in v)
    if v is None or isinstance(v, IGN):
        return True
    if isinstance(v, SList):
        k = T.var('#i', 'I')
        for g in v.seg_view():
            if isinstance(g, Item):
                if not value_free(g.v, U):
                    return False
            elif isinstance(g, Nest):
                t = SList()
                t.segs = g.body(k)
                if not symbols(g.m).isdisjoint(U) or not value_free(t, U):
                    return False
            elif not (symbols(g.n).isdisjoint(U) and
                      value_free(g.elem(k), U) and
                      (g.guard is None or
                       symbols(g.guard(k)).isdisjoint(U))):
                return False
        return True
    if isinstance(v, SVec):
        return symbols(v.n).isdisjoint(U) and \
            value_free(v.elem(T.var('#i', 'I')), U)
    if isinstance(v, SDict):
        if v.sym():
            return False
        return all(value_free(x, U) for x in dict.values(v))
    if is_obj(v):
        return all(value_free(x, U) if not is_obj(x) else True
                   for x in v.__dict__.values())
    terms = getattr(v, '_vc_terms', None)
    if terms is not None:
        return all(value_free(getattr(v, x), U) for x in terms)
    # other objects of contracts may hold terms
    return not type(v).__module__.startswith('contracts')


def delta_subst(d, iname):
    """use i == j inside monomials guarded by [i == j]"""
    r = T.ZERO
    for m, c in d.t.items():
        done = False
        for ix, (a, e) in enumerate(m):
            if a.kind == 'ind' and a.data.op == 'eq':
                s = T._solve_for(a.data, iname)
                if s is not None:
                    rest = T.Poly({m[:ix] + m[ix + 1:]: c})
                    r = r + T.from_atom(a) * T.subst(rest, {iname: s})
                    done = True
                    break
        if not done:
            r = r + T.Poly({m: c})
    return r


def resolve_seq(node, l, posts, U, free, mix):
    kn = node.kname
    kv = T.var(kn, 'I')
    i = T.var(IVAR, 'I')
    pre_n = l.pre_n
    # --- appends: post = pre ++ [item]
    if l.kind == 'list' and l.unknown_seg is not None:
        items = []
        ok = True
        for c, p in posts:
            if p is None:
                items.append((c, None))
                continue
            segs = p.segs
            if segs and segs[0] is l.unknown_seg:
                rest = segs[1:]
                if len(rest) == 0:
                    items.append((c, None))
                    continue
                if len(rest) == 1 and isinstance(rest[0], Item):
                    items.append((c, rest[0].v))
                    continue
            ok = False
        if ok:
            app = [(c, v) for c, v in items if v is not None]
            if app and all(value_free(v, U) for _, v in app):
                guard = None
                if len(app) != len(items):
                    if not all(free(c) for c, _ in items):
                        return None
                    gf = T.or_(*[c for c, _ in app])

                    def guard(j, gf=gf):
                        return T.subst(gf, {kn: j})
                if len(app) > 1 and not all(free(c) for c, _ in app):
                    return None
                if not all(mergeable(app[0][1], v) for _, v in app[1:]):
                    return None

                def elem(j, app=app):
                    v = subst_value(app[-1][1], {kn: j})
                    for c, w in app[:-1]:
                        v = merge_values(T.subst(c, {kn: j}),
                                         subst_value(w, {kn: j}), v)
                    return v

                def closed(init, k):
                    return LState(list(init.segs) + [Comp(k, elem, guard)])
                return closed, 'append'
    # --- appends of several items: post = pre ++ items
    if l.kind == 'list' and l.unknown_seg is not None:
        apps, ok = [], True
        for c, p in posts:
            if p is None or not p.segs or p.segs[0] is not l.unknown_seg:
                ok = ok and p is None
                apps.append((c, []))
            else:
                apps.append((c, p.segs[1:]))
        rests = [(c, r) for c, r in apps if r]

        def free_segs(r):
            t = SList()
            t.set_segs(r)
            return value_free(t, U)
        if ok and rests and all(free_segs(r) for _, r in rests) and (
                len(apps) == 1 or all(free(c) for c, _ in apps)):
            def guarded(c, g):
                if len(apps) == 1:
                    return g
                if isinstance(g, Item):
                    return Comp(T.ONE, lambda _: g.v, lambda _: c)
                if isinstance(g, Nest):
                    return Nest(g.m, lambda j: [guarded(c, x)
                                                for x in g.body(j)])
                return Comp(g.n, g.elem, (lambda j: c) if g.guard is None
                            else (lambda j: T.and_(c, g.guard(j))))

            def body(j, rests=rests):
                return [subst_seg(guarded(c, g), {kn: j}, {})
                        for c, r in rests for g in r]

            def closed(init, k):
                return LState(list(init.segs) + [Nest(k, body)])
            return closed, 'append'
    # --- a list of known length: additive at each of its indices
    if l.kind == 'list' and pre_n.is_const():
        fs = additive_items(l, posts, free, mix, int(pre_n.const()))
        if fs is not None:
            tag = l.tag

            def closed(init, k):
                base = cont_fn(init)
                out = []
                for j, f in enumerate(fs):
                    x = T.fresh_name('cf')
                    out.append(Item(Num(to_poly(base(T.const(j))) + T.mk_sum(
                        k, x, T.subst(f, {kn: T.var(x, 'I')})), tag)))
                return LState(out)
            return closed, 'sum[i]'
    # --- same length: additive at a generic index
    def term_at(st, idx):
        if isinstance(st, VState):
            return st.elem(idx)
        tmp = SList()
        tmp.set_segs(list(st.segs))
        return tmp.at(idx)
    try:
        pre_term = T.app(l.sym, (i,))
        vals = []
        for c, p in posts:
            if p is None:
                vals.append((c, T.ZERO))
                continue
            n2 = p.n if isinstance(p, VState) else seg_len(p.segs)
            if n2 != pre_n:
                return None
            v = term_at(p, i)
            if not is_num(v):
                return None
            vals.append((c, to_poly(v) - pre_term))
    except (Unsupported, NeedFork):
        return None
    vals = [(c, delta_subst(d, IVAR)) for c, d in vals]
    f = mix(vals)
    tag = l.tag
    if f is not None:
        def closed(init, k, f=f):
            base = cont_fn(init)

            def elem(idx):
                j = T.fresh_name('cf')
                b = T.subst(f, {kn: T.var(j, 'I'), IVAR: idx})
                return Num(to_poly(base(idx)) + T.mk_sum(k, j, b), tag)
            return mk_cont(init, pre_n, elem)
        return closed, 'sum[i]'
    # --- pointwise update of index k only
    W = set(U)
    W.discard(l.sym)
    new = []
    at = None           # the index updated by iteration k
    for c, d in vals:
        for m in d.t:
            hit = False
            for a, e in m:
                if a.kind == 'ind' and a.data.op == 'eq':
                    s = T._solve_for(a.data, IVAR)
                    if s is not None and (at is None or s == at):
                        at = s
                        hit = True
            if not hit:
                return None
    back = i            # the iteration that updates index i
    if at is None:
        at = kv
    elif at != kv:
        if kn not in at.vars or not symbols(at).isdisjoint(U):
            return None
        back = T._solve_for(T.eq0(i - at), kn, True)
        if back is None or kn in back.vars:
            return None
    for c, d in vals:
        # reads of the unknown content are allowed at index k only
        d2 = replace_app(d, l.sym, at, '#init')
        c2 = replace_app(c, l.sym, at, '#init')
        if d2 is None or c2 is None:
            return None
        if not symbols(d2).isdisjoint(U) or not symbols(c2).isdisjoint(U):
            return None
        new.append((c2, d2))
    f = T.ZERO
    if len(new) == 1:
        f = new[0][1]
    else:
        for c, d in new:
            f = f + T.ind(c) * d

    def closed(init, k, f=f):
        base = cont_fn(init)

        def elem(idx):
            # value at idx: init + [idx<k] * delta(idx)
            ks = T.subst(back, {IVAR: idx})
            b = T.subst(f, {kn: ks, IVAR: idx})
            b = T.subst(b, {'#init': to_poly(base(idx))})
            if back is not i:
                return Num(to_poly(base(idx)) + T.ind(in_range(ks, k)) * b,
                           tag)
            if k == pre_n:
                return Num(to_poly(base(idx)) + b, tag)
            return Num(to_poly(base(idx)) + T.ind(in_range(idx, k)) * b, tag)
        return mk_cont(init, pre_n, elem)
    return closed, 'pointwise'


def additive_items(l, posts, free, mix, n):
    """[what an iteration adds to item j, for each j]"""
    fs = []
    try:
        for j in range(n):
            pre = T.app(l.sym, (T.const(j),))
            vals = []
            for c, p in posts:
                if p is None:
                    vals.append((c, T.ZERO))
                    continue
                if seg_len(p.segs) != l.pre_n:
                    return None
                tmp = SList()
                tmp.set_segs(list(p.segs))
                v = tmp.at(T.const(j))
                if not is_num(v):
                    return None
                vals.append((c, to_poly(v) - pre))
            f = mix(vals)
            if f is None or not free(f):
                return None
            fs.append(f)
    except (Unsupported, NeedFork):
        return None
    return fs


def mergeable(a, b):
    """can merge_values join these without a fork"""
    if is_num(a) and is_num(b):
        return True
    text = (str, SStr, type(None))
    if isinstance(a, text) and isinstance(b, text):
        return True
    if type(a) is SList and type(b) is SList:
        x, y = a.seg_view(), b.seg_view()
        return len(x) == len(y) and all(
            isinstance(g, Item) and isinstance(k, Item) and
            mergeable(g.v, k.v) for g, k in zip(x, y))
    if is_obj(a) and type(a) is type(b):
        x, y = a.__dict__, b.__dict__
        return set(x) == set(y) and all(
            x[n] is y[n] or mergeable(x[n], y[n]) for n in x)
    boolean = (bool, SBool)
    return isinstance(a, boolean) and isinstance(b, boolean)


def seg_len(segs):
    p = T.ZERO
    for g in segs:
        p = p + (T.ONE if isinstance(g, Item) else g.n)
        if not isinstance(g, Item) and g.guard is not None:
            raise Unsupported('length of a filtered list')
    return p


def cont_fn(c):
    if isinstance(c, VState):
        return c.elem
    tmp = SList()
    tmp.set_segs(list(c.segs))
    if tmp.sym():
        return tmp.at
    xs = [g.v for g in c.segs]
    from .values import _conc_at
    return lambda i: _conc_at(xs, i)


def mk_cont(init, n, elem):
    if isinstance(init, VState):
        return VState(n, elem)
    return LState([Comp(n, elem)])


def replace_app(x, fname, idx, newvar):
    """replace app(fname, idx) by a variable; None when applied elsewhere"""
    bad = []

    def pol(p):
        r = T.ZERO
        for m, c in p.t.items():
            q = T.const(c)
            for a, e in m:
                b = at(a)
                q = q * (b if e == 1 else T.powq(b, e))
            r = r + q
        return r

    def at(a):
        if a.kind == 'app' and a.data[0] == fname:
            if a.data[1] == (idx,):
                return T.var(newvar)
            bad.append(1)
            return T.from_atom(a)
        if a.kind == 'ind':
            return T.ind(fm(a.data))
        if a.kind in ('pw',):
            return pol(a.data)
        if a.kind == 'exp':
            return T.exp(pol(a.data))
        if a.kind == 'log':
            return T.log(pol(a.data))
        if fname in symbols(T.from_atom(a)):
            bad.append(1)
        return T.from_atom(a)

    def fm(f):
        if f.op == 'le':
            return T.le0(pol(f.a[0]))
        if f.op == 'eq':
            return T.eq0(pol(f.a[0]))
        if f.op == 'not':
            return T.not_(fm(f.a[0]))
        if f.op == 'and':
            return T.and_(*[fm(y) for y in f.a])
        if f.op == 'or':
            return T.or_(*[fm(y) for y in f.a])
        if fname in symbols(f):
            bad.append(1)
        return f
    r = pol(x) if isinstance(x, T.Poly) else fm(x)
    return None if bad else r


def resolve_dict(node, l, posts, U, free, mix):
    kn = node.kname
    q = ('k', 'var', QVAR)
    pre = T.app(l.sym, (q,))
    vals = []
    hs = []
    pre_has = T.batom(l.sym + '.has', (q,))
    for c, p in posts:
        if p is None:
            vals.append((c, T.ZERO))
            hs.append((c, T.FALSE))
            continue
        if p.conc is not None:
            return None
        v = p.val(q)
        if not is_num(v):
            return None
        vals.append((c, absent_is_zero(to_poly(v), l.sym) - pre))
        h = p.has(q)
        if h == pre_has:
            hs.append((c, T.FALSE))
        elif h.op == 'or' and pre_has in h.a:
            hs.append((c, T.or_(*[x for x in h.a if x != pre_has])))
        else:
            return None
    # Branches "key in d" / "key not in d": absent entries read as 0
    vals2 = []
    for c, d in vals:
        d = key_delta(d, l.sym)
        c, d = drop_has(c, d, l.sym)
        vals2.append((c, d))
    # merge equal conditions (the in/not-in pair)
    f = hf = None
    merged = {}
    for c, d in vals2:
        if merged.setdefault(c, d) != d:
            break
    else:
        f = mix(list(merged.items()))
    if f is not None:
        hm = {}
        for (c, h) in hs:
            c, _ = drop_has(c, T.ZERO, l.sym)
            if not free(c) or not free(h):
                f = None
                break
            hm.setdefault(c, set()).add(h)
        hf = T.or_(*[T.and_(c, T.or_(*hset)) for c, hset in hm.items()])
    if f is None:
        r = without_has([(c, key_delta(d, l.sym), h) for (c, d), (c2, h) in
                         zip(vals, hs)], U, l.sym)
        if r is None:
            return None
        f, hf = r
        if not free(f) or not free(hf):
            return None

    def closed(init, k, f=f, hf=hf):
        if init.conc is not None:
            tmp = SDict()
            for a, b in init.conc.items():
                dict.__setitem__(tmp, a, b)
            tmp.to_symbolic()
            iv, ih = tmp.val, tmp.has
        else:
            iv, ih = init.val, init.has
        if not getattr(iv, 'zero', False):
            # what is not held counts as 0
            iv = lambda qk, v=iv: Num(T.ite(
                ih(qk), to_poly(v(qk)), T.ZERO), 'float')

        def val(qk):
            j = T.fresh_name('cf')
            b = T.subst(f, {kn: T.var(j, 'I'), QVAR: qk})
            return Num(to_poly(iv(qk)) + T.mk_sum(k, j, b), 'float')
        val.zero = True

        def has(qk):
            j = T.fresh_name('q')
            b = T.subst(hf, {kn: T.var(j, 'I'), QVAR: qk})
            return T.or_(ih(qk), T.not_(T.forall(j, k, T.not_(b))))
        return DState(val, has, None, None)
    return closed, 'sum[key]'


def absent_is_zero(p, sym):
    """[held(key)] * sym(key) is sym(key): what is not held reads as 0"""
    r = T.ZERO
    for m, c in p.t.items():
        keys = [a.data[1] for a, _ in m if a.kind == 'app' and
                a.data[0] == sym]
        r = r + T.Poly({tuple(
            (a, x) for a, x in m if not (
                a.kind == 'ind' and a.data.op == 'b' and
                a.data.a[0] == sym + '.has' and a.data.a[1] in keys)): c})
    return r


def key_delta(d, sym):
    """In monomials with [q == key], read sym(q) as sym(key)."""
    r = T.ZERO
    q = ('k', 'var', QVAR)
    for m, c in d.t.items():
        done = False
        for ix, (a, e) in enumerate(m):
            if a.kind == 'ind' and a.data.op == 'keq' and q in a.data.a:
                other = a.data.a[0] if a.data.a[1] == q else a.data.a[1]
                rest = T.Poly({m[:ix] + m[ix + 1:]: c})
                r = r + T.from_atom(a) * T.subst(rest, {QVAR: other})
                done = True
                break
        if not done:
            r = r + T.Poly({m: c})
    return r


def drop_has(c, d, sym):
    """Remove has-literals of the dict under summary from a condition.  Under
    not has(x), val(x) is 0 (absent entries are kept at 0)."""
    lits = list(c.a) if c.op == 'and' else [c]
    keep = []
    for f in lits:
        g = f.a[0] if f.op == 'not' else f
        if g.op == 'b' and g.a[0] == sym + '.has':
            if f.op == 'not':
                key = g.a[1]
                zero = T.app(sym, key)
                d = subst_atom_zero(d, zero)
            continue
        keep.append(f)
    return T.and_(*keep), d


def assign(x, lit, value):
    """x (Poly or Fm) with the boolean atom `lit` read as TRUE or FALSE"""
    return T.replace_atoms(x, {lit: T.TRUE if value else T.FALSE})


def has_literals(f, out):
    if f.op == 'b' and f.a[0].endswith('.has'):
        out.add(f)
    elif f.op in ('not', 'and', 'or'):
        for g in f.a:
            has_literals(g, out)
    return out


def without_has(paths, U, sym):
    """[(condition, delta, added)] of one iteration -> (delta, added), when
    these are the same whichever keys the dictionaries already hold (a key
    that is not held reads as 0)"""
    lits = set()
    for c, d, h in paths:
        has_literals(c, lits)
    lits = sorted((f for f in lits if f.a[0] in U), key=lambda f: (
        f.a[0] == sym + '.has', T.show_fm(f)))
    if len(lits) > 8:
        return None

    def go(ps, ix, pos):
        if ix == len(lits):
            mono = {}
            added = {}
            for c, d, h in ps:
                for m, x in equal_keys(d).t.items():
                    mono.setdefault((m, x), []).append(c)
                for g in (h.a if h.op == 'or' else (h,)):
                    if g.op != 'F':
                        added.setdefault(g, []).append(c)
            r = T.ZERO
            for (m, x), cs in mono.items():
                r = r + sum((T.ind(c) for c in merge_conds(cs)),
                            T.ZERO) * T.Poly({m: x})
            return equal_keys(r), T.or_(*[
                T.and_(g, T.or_(*merge_conds(cs)))
                for g, cs in added.items()])
        f = lits[ix]
        side = {}
        for v in (True, False):
            out = {}
            for c, d, h in ps:
                c2 = assign(c, f, v)
                if c2.op == 'F':
                    continue
                d2, h2 = assign(d, f, v), assign(h, f, v)
                if not v:
                    d2 = T.replace_atoms(d2, {zero_atom(f): T.ZERO})
                out[(c2, d2, h2)] = None
            side[v] = list(out)
        if set(side[True]) == set(side[False]):
            return go(side[True], ix + 1, pos + [f])
        a = go(side[True], ix + 1, pos + [f])
        b = go(side[False], ix + 1, pos)
        if a is None or b is None:
            return None
        if a[0] != b[0] or a[1] != b[1]:
            # keys that are equal are held alike
            hyp = [T.not_(T.keq(f.a[1][0], g.a[1][0])) for g in pos
                   if g.a[0] == f.a[0]]
            e = cur()
            n0 = len(e.pc)
            try:
                e.pc += [x for x in hyp if x.op != 'T']
                dif = a[0] - b[0]
                if dif.t and not e.implied(T.eq0(dif)):
                    return None
                if a[1] != b[1] and not (e.implied(T.implies(
                        a[1], b[1])) and e.implied(T.implies(b[1], a[1]))):
                    return None
            finally:
                del e.pc[n0:]
        return a
    return go(paths, 0, [])


def merge_conds(cs):
    """conjunctions that exclude each other; merges (A & b), (A & !b) to A"""
    S = {frozenset(c.a if c.op == 'and' else (c,)) - {T.TRUE}: None
         for c in cs}
    again = True
    while again:
        again = False
        for c in list(S):
            if c not in S:
                continue
            for f in c:
                o = (c - {f}) | {T.not_(f)}
                if o != c and o in S:
                    del S[c], S[o]
                    S[c - {f}] = None
                    again = True
                    break
    return [T.and_(*sorted(c, key=T.show_fm)) for c in S]


def equal_keys(p):
    """in monomials with [a == b], write a single one of a and b in the
    arguments of functions"""
    r = T.ZERO
    for m, c in p.t.items():
        rep = {}

        def find(k):
            while k in rep:
                k = rep[k]
            return k
        for a, e in m:
            if a.kind == 'ind' and a.data.op == 'keq':
                x, y = sorted(map(find, a.data.a), key=T.show_key)
                if x != y:
                    rep[y] = x
        if not rep:
            r = r + T.Poly({m: c})
            continue
        out = T.const(c)
        for a, e in m:
            if a.kind == 'app' and any(find(x) != x for x in a.data[1]
                                       if not isinstance(x, T.Poly)):
                b = T.mk_app(a.data[0], tuple(
                    x if isinstance(x, T.Poly) else find(x)
                    for x in a.data[1]), a.sort)
                out = out * (b if e == 1 else T.powq(b, e))
            else:
                out = out * T.from_atom(a, e)
        r = r + out
    return r


def zero_atom(f):
    (m, _), = T.app(f.a[0][:-4], f.a[1]).t.items()
    return m[0][0]


def subst_atom_zero(d, zp):
    (m, _), = zp.t.items()
    za = m[0][0]
    r = {}
    for m, c in d.t.items():
        if any(a is za for a, e in m):
            continue
        r[m] = c
    return T.Poly(r)


# ---------------------------------------------------------------- run time
class Loop(object):
    """One dynamic execution of a loop statement."""

    def __init__(self, site, names):
        self.fresh0 = len(cur().fresh_log)
        self.site = site
        self.names = names
        self.symbolic = False
        self.in_body = False
        self.recorded = False
        self.stage = None
        self.snap1 = None
        self.node = None
        self.n = None

    def get_node(self):
        e = cur()
        if e.pos < len(e.stack):
            nd = e.stack[e.pos]
            if nd.kind != 'loop':
                raise Unsupported('nondeterministic replay (loop)')
        else:
            nd = LoopNode(self.site, self.names)
            e.stack.append(nd)
        e.pos += 1
        self.node = nd
        self.stage = nd.stage
        nd.cur = self
        return nd

    # ---- state handling
    def begin_state(self, locs):
        """Called at the loop head (symbolic): install the state for the
        current stage.  -> tuple of values for self.names"""
        e = cur()
        nd = self.node
        for nm in self.names:
            locs.setdefault(nm, UNDEF)
        self.roots = {k: v for k, v in locs.items()
                      if not k.startswith('_vc_')}
        self.born = now()
        snap = Snap(self.roots)
        self.snap0 = snap
        for o, path in nd.refs.values():
            c = snap.obj.get(path)
            if c is None or type(c) is not type(o):
                raise Unsupported('an object of a loop is not there')
            REMAP[id(o)] = (c, o)
        # a name of its own for every execution of a loop on a path: the
        # index of the iteration in which it is left stays in the state
        kn = e.fresh('k@' + self.site)
        if nd.kname is None:
            nd.kname = kn
        self.kname = nd.kname
        self.k = T.var(self.kname, 'I')
        T.NONNEG.add(self.kname)
        nd.facts = []
        nd.outer_pos = e.pos
        self.pc0 = len(e.pc)
        if self.stage == 'exit':
            at = self.n
        else:
            at = self.k
            e.assume(T.le0(-self.k))
            if self.n is not None:
                e.assume_checked(T.lt0(self.k - self.n))
            if self.stage == 'disc':
                e.discovery += 1
            self.in_body = True
        e.active_loops.append(self)
        self.pc1 = len(e.pc)
        self.pos1 = e.pos
        if self.stage == 'disc':
            for l in nd.leaves.values():
                if l.how == 'inv':
                    self.check_inv(self.parent(l, {}), l, 'init')
        new = self.install(at)
        self.snap1 = Snap({k: new.get(k, v) for k, v in self.roots.items()})
        return tuple(new.get(nm, locs.get(nm)) for nm in self.names)

    def install(self, at):
        """Set every changed location to its state at index `at`."""
        e = cur()
        nd = self.node
        new = {}
        order = sorted(nd.leaves.values(),
                       key=lambda l: (l.how == 'inv', len(l.path)))
        for l in order:
            init = self.init_of(l)
            if l.how == 'inv':
                self.put(l, l.inv(self.parent(l, new)), new)
                continue
            if init is UNDEF:
                if self.stage == 'exit' and l.closed is not None:
                    val = l.closed(init, at)
                else:
                    val = UNDEF
                if len(l.path) == 1:
                    new[l.path[0]] = val
                continue
            if l.closed is not None:
                if l.kind in ('list', 'vec', 'dict'):
                    val = l.closed(init, at)
                else:
                    val = l.closed(init, at) if not (
                        init is UNDEF and at is self.k and
                        l.how == 'last' and l.kind == 'any') \
                        else l.closed(init, at)
            else:
                val = self.havoc(l, init)
                if self.stage != 'disc':
                    e.taint.append('loop %s: no closed form for %s' % (
                        self.site, '/'.join(map(str, l.path))))
            self.put(l, val, new)
        return new

    def parent(self, l, new):
        v = new.get(l.path[0], self.roots.get(l.path[0]))
        for step in l.path[1:-1]:
            v = get_step(v, step)
        return v

    def check_inv(self, obj, l, where):
        """l's attribute equals the stated function of its object"""
        e = cur()
        try:
            v = get_step(obj, l.path[-1])
            ok = e.prove(T.eq0(to_poly(v) - to_poly(l.inv(obj))))[0] == \
                'proved'
        except (Unsupported, NeedFork, AttributeError, KeyError):
            ok = False
        if ok:
            e.lemma('invariant-%s-%s:%s' % (l.path[-1].strip('.'), where,
                                            self.site))
        else:
            l.inv_bad = True

    def init_of(self, l):
        kind, v = self.snap0.leaf.get(l.path, ('val', UNDEF))
        return v

    def havoc(self, l, init):
        e = cur()
        if l.sym is None:
            l.sym = 'h' + self.kname[1:] + '!%s' % len(self.node.leaves) + \
                ''.join('/%s' % (p,) for p in l.path)
        # unknown: may differ between the iterations of an enclosing loop
        e.fresh_log += [l.sym, l.sym + '.has', l.sym + '.n']
        if l.kind == 'num':
            l.tag = tag_of(init) if is_num(init) else 'float'
            if init is UNDEF:
                return UNDEF
            return Num(T.var(l.sym, 'R' if l.tag != 'int' else 'I'), l.tag)
        if l.kind == 'any':
            if init is UNDEF:
                return UNDEF
            return Poison(l)
        if l.kind == 'vec':
            l.pre_n = init.n
            l.tag = 'np'
            l.unknown_seg = None
            return VState(init.n, lambda i: Num(T.app(l.sym, (i,)), 'np'))
        if l.kind == 'list':
            l.tag = 'float'
            if l.grows and l.unknown_seg is not None:
                # the same unknown content in every run of this round
                return LState([l.unknown_seg])
            l.unknown_seg = None
            try:
                n = seg_len(init.segs)
            except Unsupported:
                n = None
            if l.grows:
                l.pre_n = T.var(l.sym + '.n', 'I')
                seg = Comp(l.pre_n, lambda i: Num(T.app(l.sym, (i,)),
                                                  'float'))
                l.unknown_seg = seg
                return LState([seg])
            l.pre_n = n
            return LState([Comp(n, lambda i: Num(T.app(l.sym, (i,)),
                                                 'float'))])
        if l.kind == 'dict':
            return DState(lambda q: Num(T.app(l.sym, (q,)), 'float'),
                          lambda q: T.batom(l.sym + '.has', (q,)), None, None)
        raise Unsupported('havoc of %s' % l.kind)

    def put(self, l, val, new):
        path = l.path
        if len(path) == 1:
            nm = path[0]
            if l.kind in ('list', 'vec', 'dict'):
                cur_v = new.get(nm, self.roots.get(nm))
                if l.fresh_obj:
                    c = mk_container(l.kind)
                    restore(c, val)
                    new[nm] = c
                else:
                    restore(cur_v, val)
                return
            new[nm] = val
            return
        # walk to the parent
        v = new.get(path[0], self.roots.get(path[0]))
        if (path[0],) in self.node.fresh_paths and path[0] not in new:
            v = clone_struct(v)
            new[path[0]] = v
        for ix, step in enumerate(path[1:-1]):
            w = get_step(v, step)
            if path[:ix + 2] in self.node.fresh_paths and not getattr(
                    w, '_vc_fresh_mark', None) is self:
                w = clone_struct(w)
                try:
                    w.__dict__['_vc_fresh_mark'] = self
                except Exception:
                    pass
                set_step(v, step, w)
            v = w
        last = path[-1]
        if l.kind in ('list', 'vec', 'dict'):
            if l.fresh_obj or (path[0],) in self.node.fresh_paths:
                c = mk_container(l.kind)
                restore(c, val)
                set_step(v, last, c)
            else:
                restore(get_step(v, last), val)
            return
        set_step(v, last, val)

    def end_body(self, locs):
        """End of one arbitrary iteration."""
        e = cur()
        nd = self.node
        if self.stage == 'final':
            raise PathEnd()
        snap2 = Snap({k: locs.get(k, UNDEF) for k in self.roots})
        changes = {}
        for path in sorted(set(snap2.leaf) | set(self.snap1.leaf),
                           key=lambda p: (len(p), str(p))):
            a = self.snap1.leaf.get(path)
            b = snap2.leaf.get(path)
            self.compare(path, a, b, snap2, changes)
        cond = T.and_(*branch_conds(e, self.pos1))
        self.note_syms()
        for l in nd.leaves.values():
            if l.how == 'inv':
                o = snap2.obj.get(l.path[:-1])
                if o is None:
                    l.inv_bad = True
                else:
                    self.check_inv(o, l, 'preserved')
        nd.outcomes.append(('ok', cond, changes))
        self.recorded = True
        raise PathEnd()

    def compare(self, path, a, b, snap2, changes):
        nd = self.node
        # identity of containers/objects
        o1 = self.snap1.obj.get(path)
        o2 = snap2.obj.get(path)
        if o2 is not None and o1 is not None and o1 is not o2 and \
                id(o2) in self.snap1.byid:
            # another object that was there
            self.note(path, 'any', o2, changes)
            return
        if a is None and b is None:
            return
        if b is None:
            # disappeared (e.g. attribute of a replaced object)
            return
        if a is None:
            # new attribute: only under fresh objects / undefined locals
            if any(path[:j] in changes or path[:j] in nd.leaves and
                   nd.leaves[path[:j]].kind == 'any'
                   for j in range(1, len(path))):
                return
            if b[0] in ('val',):
                self.note(path, 'num' if is_num(b[1]) else 'any', b[1],
                          changes)
            return
        ka, va = a
        kb, vb = b
        if any(path[:j] in nd.leaves and nd.leaves[path[:j]].kind == 'any'
               for j in range(1, len(path))):
            return
        if ka == 'val' and kb == 'val':
            if va is UNDEF or vb is UNDEF:
                if va is vb:
                    return
                self.note(path, 'num' if is_num(vb) else 'any', vb, changes)
                return
            if same_value(va, vb):
                return
            if is_num(va) and is_num(vb) and not isinstance(va, bool) and \
                    not isinstance(vb, bool):
                self.note(path, 'num', vb, changes)
            elif path in nd.leaves and nd.leaves[path].kind == 'num' \
                    and is_num(vb):
                self.note(path, 'num', vb, changes)
            else:
                self.note(path, 'any', vb, changes)
            return
        if ka == 'cont' and kb == 'cont':
            if o1 is not o2 and type(o1) is type(o2):
                if len(path) == 1:
                    nd.fresh_paths.add(path)
                if same_content(va, vb):
                    return
            elif o1 is not o2:
                self.note(path, 'any', o2, changes)
                return
            elif same_content(va, vb):
                return
            kind = {'LState': 'list', 'VState': 'vec',
                    'DState': 'dict'}[type(vb).__name__]
            l = self.note(path, kind, vb, changes)
            if o1 is not o2:
                l.fresh_obj = True
            if kind == 'list' and l.sym is None:
                try:
                    l.grows = seg_len(va.segs) != seg_len(vb.segs)
                except Unsupported:
                    l.grows = True
            return
        if ka == 'obj' and kb == 'obj' and va is vb:
            if o1 is not o2:
                if len(path) == 1 or path[:1] in nd.fresh_paths:
                    if path not in nd.fresh_paths:
                        nd.fresh_paths.add(path)
                else:
                    nd.fresh_paths.add(path)
            return
        if ka == 'alias' and kb == 'alias' and va == vb:
            return
        if ka == 'opaque' and kb == 'opaque':
            try:
                if va is vb or va == vb:
                    return
            except Exception:
                pass
        self.note(path, 'any', vb if kb in ('val', 'opaque') else o2,
                  changes)

    def note(self, path, kind, post, changes):
        nd = self.node
        l = nd.leaves.get(path)
        if l is None:
            l = Leaf(path, kind)
            l.grows = False
            l.unknown_seg = None
            l.tag = 'float'
            o = self.snap1.obj.get(path[:-1])
            if o is not None and isinstance(path[-1], str):
                l.inv = cur().class_inv.get((type(o), path[-1][1:]))
            nd.leaves[path] = l
            nd.new_leaf = True
        elif l.kind != kind:
            if l.kind == 'num' and kind == 'any' or l.closed is None:
                l.kind = 'any' if {l.kind, kind} != {'num'} else 'num'
                l.closed = None
                l.sym = None
        changes[path] = post
        for o in self.refs_in(post, 0):
            x = (o, self.snap1.byid[id(o)])
            l.refs[id(o)] = nd.refs[id(o)] = x
            REMAP.setdefault(id(o), (o, o))
        return l

    def refs_in(self, v, depth):
        """the objects in v that were there at the head of the loop"""
        if id(v) in self.snap1.byid:
            yield v
        elif depth > 4:
            return
        elif isinstance(v, tuple):
            for x in v:
                yield from self.refs_in(x, depth + 1)
        elif isinstance(v, (SList, LState)):
            for g in (v.segs if isinstance(v, LState) else v.seg_view()):
                if isinstance(g, Item):
                    yield from self.refs_in(g.v, depth + 1)
        elif type(v) is SDict:
            if not v.sym():
                for x in dict.values(v):
                    yield from self.refs_in(x, depth + 1)
        elif isinstance(v, DState):
            if v.conc is not None:
                for x in v.conc.values():
                    yield from self.refs_in(x, depth + 1)
        elif is_obj(v):
            for x in v.__dict__.values():
                yield from self.refs_in(x, depth + 1)

    def note_syms(self):
        # not the index of this loop and its own unknowns
        own = {self.kname}
        for l in self.node.leaves.values():
            if l.sym is not None:
                own |= {l.sym, l.sym + '.has', l.sym + '.n'}
        self.node.body_syms.update(
            set(cur().fresh_log[self.fresh0:]) - own)

    def record_escape(self, e):
        self.note_syms()
        conds = branch_conds(e, self.pos1) if hasattr(self, 'pos1') else []
        self.node.outcomes.append(('esc', T.and_(*conds), {}))
        self.recorded = True

    def exit_facts(self):
        """No earlier iteration escaped."""
        e = cur()
        nd = self.node
        if nd.outcomes and self.n is not None and not any(
                st == 'ok' for st, _, _ in nd.outcomes):
            # every iteration leaves the loop: there is none
            e.assume_checked(T.le0(self.n))
        U = nd.unresolved_syms()
        j = T.fresh_name('q')
        for st, cond, ch in nd.outcomes:
            if st != 'esc':
                continue
            if not symbols(cond).isdisjoint(U):
                e.taint.append('exits of the loop %s' % self.site)
                continue
            f = T.forall(j, self.n, T.subst(T.not_(cond), {
                self.kname: T.var(j, 'I')}))
            e.assume(f)
            nd.facts.append(f)
        if any(o[0] == 'esc' for o in nd.outcomes):
            # left at its end: a condition that the enclosing loop cannot
            # express unless all of it is known
            if len(nd.facts) < sum(o[0] == 'esc' for o in nd.outcomes):
                nd.facts.append(T.batom(e.fresh('left@' + self.site)))


class Poison(object):
    def __init__(self, l):
        self.__dict__['l'] = l

    def _bad(self, *a):
        raise Unsupported('value of %s is not summarised' % (
            '/'.join(map(str, self.__dict__['l'].path)),))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._bad()
    __bool__ = __add__ = __radd__ = __eq__ = __ne__ = _bad
    __call__ = __getitem__ = __iter__ = __len__ = _bad
    __hash__ = object.__hash__


def branch_conds(e, pos1):
    out = []
    for n in e.stack[pos1:e.pos]:
        if n.kind == 'br' and (n.other or getattr(n, 'value', None) is not
                               None):
            if _was_real(n):
                out.append(n.fm if n.value else T.not_(n.fm))
        elif n.kind == 'loop':
            out += n.facts
    return out


def _was_real(n):
    return getattr(n, 'real', True)


def mk_container(kind):
    return {'list': SList, 'vec': lambda: SVec(T.ZERO, None),
            'dict': SDict}[kind]()


def clone_struct(v):
    import copy
    if isinstance(v, (SList, SVec, SDict)):
        return v.copy()
    r = object.__new__(type(v))
    r.__dict__.update(v.__dict__)
    return r


def get_step(v, s):
    if isinstance(s, str) and s.startswith('.'):
        return v.__dict__[s[1:]]
    if isinstance(s, tuple):
        return dict.__getitem__(v, s[1])
    if isinstance(v, SList):
        return v.seg_view()[s].v
    raise Unsupported('path step')


def set_step(v, s, x):
    if isinstance(s, str) and s.startswith('.'):
        v.__dict__[s[1:]] = x
    elif isinstance(s, tuple):
        dict.__setitem__(v, s[1], x)
    elif isinstance(v, SList):
        g = list(v.seg_view())
        g[s] = Item(x)
        v.set_segs(g)
    else:
        raise Unsupported('path step')


# ---------------------------------------------------------------- for
class ForParts(object):
    """a for loop over a sequence: one loop after the other over its parts"""

    def __init__(self, site, it, names):
        self.site, self.names = site, names
        segs = it.segs if isinstance(it, SList) and it.sym() else None
        if segs is None or len(segs) == 1:
            self.todo = [it]
        else:
            self.todo = []
            for g in segs:
                if isinstance(g, Item):
                    if not self.todo or type(self.todo[-1]) is not list:
                        self.todo.append([])
                    self.todo[-1].append(g.v)
                else:
                    l = SList()
                    l.set_segs([g])
                    self.todo.append(l)
        self.made = 0

    def part(self):
        if self.made == len(self.todo):
            return None
        k = self.made
        self.made += 1
        return ForLoop(self.site if len(self.todo) == 1 else '%s.%d' % (
            self.site, k), self.todo[k], self.names)


class ForLoop(Loop):
    def __init__(self, site, it, names):
        Loop.__init__(self, site, names)
        self.it = it
        segs = None
        if isinstance(it, SList) and it.sym():
            segs = it.segs
        elif isinstance(it, SVec) and not it.n.is_const():
            segs = as_segs(it)
        elif isinstance(it, SRange):
            n = it.sym_len()
            if isinstance(n, Num):
                segs = it.as_segs()
            else:
                self.it = [it.at(T.const(j)) for j in range(n)]
        elif isinstance(it, SView) and not it.n.is_const():
            segs = it.as_segs()
        elif isinstance(it, SDict) and it.sym():
            segs = as_segs(it.keys())
        if segs is not None:
            if len(segs) == 1 and not isinstance(segs[0], Item):
                self.symbolic = True
                self.seg = segs[0]
                self.n = self.seg.n
                self.raw = True
            else:
                # several segments: treat as one indexed sequence
                n = T.ZERO
                for g in segs:
                    if not isinstance(g, Item) and g.guard is not None:
                        raise Unsupported('loop over a mixed filtered list')
                    n = n + (T.ONE if isinstance(g, Item) else g.n)
                l = SList()
                l.set_segs(segs)
                self.symbolic = True
                self.seg = Comp(n, l.at)
                self.raw = False
                self.n = n
            if not T.poly_nonneg(self.n):
                if cur().decide(T.lt0(self.n)):
                    self.symbolic = False
                    self.it = []
        self.done = False

    def pre(self, locs):
        if not self.symbolic:
            return tuple(locs.get(n, UNDEF) for n in self.names)
        self.get_node()
        locs = dict(locs)
        r = self.begin_state(locs)
        if self.stage == 'exit':
            self.exit_facts()
            cur().active_loops.remove(self)
        return r

    def once(self):
        if not self.symbolic:
            if isinstance(self.it, SView):
                for x in iter(self.it):
                    yield x
                return
            for x in self.it:
                cur().check_time()
                yield x
            return
        if self.stage == 'exit':
            return
        e = cur()
        if self.seg.guard is not None:
            g = self.seg.guard(self.k)
            if not e.decide(g):
                # iteration filtered out: the state is unchanged
                self.filtered = True
                nd = self.node
                if self.stage == 'disc':
                    self.note_syms()
                    nd.outcomes.append(('ok', T.and_(
                        *branch_conds(e, self.pos1)), {}))
                    self.recorded = True
                raise PathEnd()
        yield frozen(self.seg.elem(self.k)) if self.raw else \
            self.seg.elem(self.k)

    def end_iter(self, locs):
        if not self.symbolic or self.stage == 'exit':
            return
        self.end_body(dict(locs))

    def escape(self):
        """break/return out of the loop body"""
        if not self.symbolic or not self.in_body:
            return
        e = cur()
        if self.stage == 'disc':
            self.record_escape(e)
            raise PathEnd()
        # final stage: this is a real exit at iteration k: every earlier
        # iteration completed normally
        nd = self.node
        self.in_body = False
        # the enclosing loop sees a condition on the index of the exit
        nd.facts = [T.and_(T.le0(-self.k), *(
            [T.lt0(self.k - self.n)] if self.n is not None else [])),
            T.batom(e.fresh('left@' + self.site), (self.k,))]
        if self in e.active_loops:
            e.active_loops.remove(self)
        U = nd.unresolved_syms()
        j = T.fresh_name('q')
        for st, cond, ch in nd.outcomes:
            if st == 'esc' and symbols(cond).isdisjoint(U):
                f = T.subst(T.not_(cond), {self.kname: T.var(j, 'I')})
                e.assume(T.forall(j, self.k, f))
            elif st == 'esc':
                e.taint.append('exits of the loop %s' % self.site)


# ---------------------------------------------------------------- while
class WhileLoop(Loop):
    def __init__(self, site, names):
        Loop.__init__(self, site, names)
        self.iters = 0
        self.mode = 'native'

    def more(self, cond):
        e = cur()
        e.check_time()
        if self.mode == 'native':
            self.iters += 1
            if self.iters > 3000:
                raise Unsupported('long concrete while loop')
            e.peeking += 1
            try:
                c = bool(cond())
            except NeedFork:
                c = None
            finally:
                e.peeking -= 1
            if c is not None:
                return c
            self.mode = 'sym'
            self.symbolic = True
            self.get_node()
            return self.stage != 'exit'
        return False

    def pre(self, locs):
        if self.mode == 'native':
            return tuple(locs.get(n, UNDEF) for n in self.names)
        return self.begin_state(dict(locs))

    def enter(self, cond):
        if self.mode == 'native':
            return
        e = cur()
        self.pos1 = e.pos
        if not cond():
            # leaves here: not an iteration
            if self.stage == 'disc':
                self.recorded = True
            raise PathEnd()
        # the loop condition is part of being an iteration, not of the path
        self.pos1 = e.pos
        self.cond_pc = e.pc[self.pc1:]
        if self.stage == 'disc':
            self.node.cond_facts = list(self.cond_pc)

    def end_iter(self, locs):
        if self.mode == 'native':
            return
        self.end_body(dict(locs))

    def post(self, locs):
        if self.mode == 'native':
            return tuple(locs.get(n, UNDEF) for n in self.names)
        e = cur()
        nn = e.fresh('iters')
        self.n = T.var(nn, 'I')
        e.assume(T.le0(-self.n))
        r = self.begin_state(dict(locs))
        e.active_loops.remove(self)
        U = self.node.unresolved_syms()
        j = T.fresh_name('q')
        f = T.and_(*[c for c in self.node.cond_facts])
        if symbols(f).isdisjoint(U):
            e.assume(T.forall(j, self.n, T.subst(
                f, {self.kname: T.var(j, 'I')})))
            # the last iteration
            g = T.subst(f, {self.kname: self.n - T.ONE})
            e.assume(T.or_(T.le0(self.n), g))
        else:
            e.taint.append('while condition at %s' % self.site)
        self.exit_facts()
        return r

    def leave(self, cond):
        if self.mode == 'native':
            return
        if cond():
            raise PathEnd()

    escape = ForLoop.escape


# ---------------------------------------------------------------- comp
def comprehension(site, kind, fn, it, cond=None):
    """[fn(x) for x in it if cond(x)] with kind list/set/dict/gen"""
    from .values import SList as L_
    if isinstance(it, SRange):
        n = it.sym_len()
        if not isinstance(n, Num):
            it = [it.at(T.const(j)) for j in range(n)]
    symbolic = (isinstance(it, (SList, SDict)) and it.sym()) or (
        isinstance(it, (SVec, SView)) and not it.n.is_const()) or \
        isinstance(it, SRange)
    if not symbolic:
        r = SList()
        for x in it:
            if cond is None or cond(x):
                r.append(fn(x))
        return r
    lp = ForLoop(site, it, ('__r',))
    r = SList()
    seen = {}
    for f in (fn, cond):
        for nm, c in zip(getattr(getattr(f, '__code__', None), 'co_freevars',
                                 ()), getattr(f, '__closure__', None) or ()):
            try:
                seen[nm] = c.cell_contents
            except ValueError:
                pass
    seen['__r'] = r
    (r2,) = lp.pre(seen)
    for x in lp.once():
        if cond is None or cond(x):
            r2.append(fn(x))
    seen['__r'] = r2
    lp.end_iter(seen)
    return r2
