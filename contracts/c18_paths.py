"""C18: paths of accounts and components, and finding them."""
from contracts import preload, ledger as L
from pyvc.harness import contract
from pyvc.rec import SRec

STR = 'auxi.modelling.business.structure'
BASIC = 'auxi.modelling.business.basic'
MODELS = 'auxi.modelling.business.models'
preload.need('C18', L.DES, STR, BASIC, MODELS)
D = 'auxi/modelling/financial/des.py:'
A = D + 'GeneralLedgerAccount.'
G = D + 'GeneralLedgerStructure.'
F = 'auxi/modelling/business/structure.py:'
M = 'auxi/modelling/business/models.py:TimeBasedModel.'


class Children(object):
    """any number of parts of a node, by the contract of set_parent_path (all
    paths of the part follow): which part was given which path"""

    def __init__(self, h, node, *lists):
        self.h, self.node, self.n = h, node, {}
        node.calls = h.list()
        for kind, attr in enumerate(lists):
            n = self.n[kind] = h.size(attr)

            class Part(SRec):
                def set_parent_path(part, value):
                    node.calls.append(SRec(kind=part.kind, ix=part.ix,
                                           value=value))
            setattr(node, attr, h.objects(
                n, lambda i, kind=kind: Part(kind=kind, ix=i)) if h.sym else
                [Part(kind=kind, ix=i) for i in range(n)])

    def given(self, label, path):
        """every part was given the path, once and nothing else"""
        h = self.h
        h.check(label + '-path', h.every(
            self.node.calls, lambda c: h.same(c.value, path)))
        for kind, n in self.n.items():
            i = h.index('some part %d' % kind, n)
            h.eq(label + '-once', h.over(self.node.calls, lambda c: h.ite(
                h.all(h.same(c.kind, kind), h.same(c.ix, i)), 1, 0)), 1)


def text(h, label, *pool):
    return h.str(label, gen=lambda r: r.choice(pool or (
        'a', 'b', 'Bank', 'x y', 'B')), nonempty=True)


def node(h, kind):
    """a node of a tree and its parts"""
    des, st = h.mod(L.DES), h.mod(STR)
    name = text(h, 'name')
    if kind == 'account':
        n = des.GeneralLedgerAccount(name)
        return n, name, Children(h, n, 'accounts')
    if kind == 'component':
        n = st.Component(name, None)
        return n, name, Children(h, n, 'components', 'activities')
    if kind == 'entity':
        n = st.Entity(name, None)
        return n, name, Children(h, n, 'components')
    if kind == 'activity':
        n = st.Activity(name)
        return n, name, Children(h, n)


KINDS = dict(account=A, component=F + 'Component.', entity=F + 'Entity.',
             activity=F + 'Activity.')


def attached(kind):
    @contract('C18', [KINDS[kind] + x for x in (
        'set_parent_path', 'name', '__init__')], name=kind + '_path')
    def f(h):
        """A part gets the path of its parent and its name, and so do all
        its own parts, when it is attached and when it is renamed."""
        n, name, parts = node(h, kind)
        h.check('name', h.same(n.name, name))
        if kind == 'account':
            h.check('top', h.same(n.path, name))
            other = text(h, 'new name of the top')
            n.name = other
            h.check('top-renamed', h.same(n.path, other))
            parts.given('top-parts', other)
            n.name = name
        del n.calls[:]
        parent = text(h, 'parent', 'm', 'm/e', 'a/b/c')
        n.set_parent_path(parent)
        path = parent + '/' + name
        h.check('path', h.same(n.path, path))
        parts.given('parts', path)
        del n.calls[:]
        new = text(h, 'new name')
        n.name = new
        h.check('renamed', h.same(n.name, new))
        path = parent + '/' + new
        h.check('renamed-path', h.same(n.path, path))
        parts.given('renamed-parts', path)


for _k in KINDS:
    attached(_k)


@contract('C18', [M + 'name', M + 'create_entity'])
def model_path(h):
    """The entities of a model get its name as the path of their parent."""
    m = h.mod(MODELS).TimeBasedModel('x')
    parts = Children(h, m, 'entities')
    name = text(h, 'name')
    m.name = name
    h.check('name', h.same(m.name, name))
    parts.given('entities', name)
    k = m.entities
    m.entities = h.list()
    other = text(h, 'entity')
    e = m.create_entity(other, None)
    h.check('created', h.all(len(m.entities) == 1,
                             h.same(e.path, name + '/' + other)))
    m.name = text(h, 'later name')
    h.check('follows', h.same(e.path, m.name + '/' + other))


@contract('C18', [A + 'create_account', F + 'Component.create_component',
                  F + 'Component.add_activity', F + 'Entity.create_component'])
def created(h):
    """A created part is the last of its parent and has its path, account
    type and ledger."""
    des, st = h.mod(L.DES), h.mod(STR)
    parent, name = text(h, 'parent', 'm', 'm/e'), text(h, 'name')
    kind = h.choice('kind', ['account', 'component', 'activity', 'entity'])
    p, _, parts = node(h, 'component' if kind == 'activity' else
                       'account' if kind == 'account' else kind)
    p.set_parent_path(parent)
    own = p.path
    attr = dict(account='accounts', activity='activities').get(
        kind, 'components')
    n = h.len(getattr(p, attr))
    if kind == 'account':
        p.account_type = des.AccountType(h.choice('type', [1, 2, 3, 4, 5]))
        c = p.create_account(name, '0010')
        h.check('type', c.account_type == p.account_type)
        h.check('number', c.number == '0010')
    elif kind == 'activity':
        seen = []

        class Structure(object):
            def validate_account_names(self, names):
                seen.append(names)
                if len(seen) > 1:
                    raise ValueError('unknown')
        p.gl = SRec(structure=Structure())
        c = st.Activity(name)
        c.get_referenced_accounts = lambda: 'names'
        p.add_activity(c)
        bad = st.Activity(text(h, 'rejected'))
        bad.get_referenced_accounts = lambda: 'other names'
        error, r = h.call(p.add_activity, bad)
        h.check('rejected', h.all(isinstance(error, ValueError),
                                  seen == ['names', 'other names']))
        seen.pop()
        h.check('validated', seen == ['names'])
    else:
        p.gl = h.token('ledger') if h.sym else p.gl
        c = p.create_component(name)
        h.check('ledger', c.gl is p.gl)
    h.check('path', h.same(c.path, own + '/' + name))
    l = getattr(p, attr)
    h.eq('one-more', h.len(l), n + 1)
    h.check('last', h.at(l, n) is c)


class Tree(object):
    """the members of a node: any number of differently named accounts"""
    _vc_terms = ()

    def __init__(self, h, node):
        self.h, self.n = h, h.size('accounts')
        self.names = h.names('account', self.n, pool=['Bank', 'a', 'b', 'ab'],
                             free='/')
        h.assume(h.forall(self.n, lambda i: h.not_(h.same(
            h.at(self.names, i), ''))))
        self.below = below = h.texts('found below')
        self.found = found = h.pred('found', arity=2)

        class Account(SRec):
            name = property(lambda a: h.at(a.tree.names, a.ix))

            def get_child_account(a, path):
                """(by its contract)"""
                return (a.ix, path)
        self.make = lambda i: Account(ix=i, tree=self)
        node.accounts = h.objects(self.n, self.make) if h.sym else \
            [self.make(i) for i in range(self.n)]


@contract('C18', [G + 'get_account', G + '__getitem__',
                  A + 'get_child_account', A + '__getitem__'])
def found(h):
    """A name finds the member of that name; name/rest finds what that
    member finds for the rest; other names find nothing."""
    des = h.mod(L.DES)
    where = h.choice('where', ['structure', 'account'])
    if where == 'structure':
        node = des.GeneralLedgerStructure('s')
        get = node.get_account
    else:
        node = des.GeneralLedgerAccount('a')
        get = node.get_child_account
    t = Tree(h, node)
    name, i = h.name_in('known', t.names, t.n)
    rest = h.str('rest', gen=lambda r: r.choice(['x', 'x/y', 'Bank/a/b']))
    r = get(name)
    h.check('by-name', r is not None)
    if r is not None:
        h.eq('this-one', r.ix, i)
    r = get(name + '/' + rest)
    h.check('by-path', r is not None)
    if r is not None:
        h.eq('through-this-one', r[0], i)
        h.check('the-rest', h.same(r[1], rest))
    other = h.foreign_name('unknown', t.names, free='/')
    h.check('unknown', get(other) is None)
    h.check('unknown-path', get(other + '/' + rest) is None)


@contract('C18', [G + 'validate_account_names'])
def validated(h):
    """Names are accepted if and only if each of them finds an account - when
    they are validated, whatever was validated before."""
    des = h.mod(L.DES)
    pool = ['Bank', 'Sales', 'Bank/Default', 'Ban', 'Bank/Sales', 'Default',
            'Sales/Ore', 'Bank/Old']
    n = h.size('names')
    names = h.names('name', n, pool=pool)
    if h.sym:
        known = h.pred('known')
        world = [h.pred('known before')]

        class S(des.GeneralLedgerStructure):
            def get_account(self, name):
                return 1 if h.force(world[0](name)) else None
        s = S('s')
    else:
        s = des.GeneralLedgerStructure('s')
        s.get_account('Bank').create_account('Old')
        ok = ['Bank', 'Sales', 'Bank/Default', 'Sales/Ore']
        known = ok.__contains__
    if h.choice('again', [0, 1]):
        k = h.size('names before')
        h.call(s.validate_account_names, h.names('name before', k, pool=pool))
    if h.sym:
        world[0] = known
    else:
        s.get_account('Bank').remove_account('Old')
        s.get_account('Sales').create_account('Ore')
    error, r = h.call(s.validate_account_names, names)
    ok = h.forall(n, lambda i: known(h.at(names, i)))
    h.check('accepted', h.iff(error is None, ok))
    h.check('error', error is None or isinstance(error, ValueError))


@contract('C18', [G + 'get_account_descendants',
                  G + '_get_account_and_descendants_'], conc=False)
def descendants(h):
    """The descendants of an account are its members, each followed by its
    descendants."""
    des = h.mod(L.DES)
    S = des.GeneralLedgerStructure
    s = S('s')
    a = des.GeneralLedgerAccount('a')
    n = h.size('accounts')
    a.accounts = h.objects(n, lambda i: SRec(ix=i))
    i = h.index('some', n)
    one = S._get_account_and_descendants_
    h.stub(L.DES, 'GeneralLedgerStructure._get_account_and_descendants_',
           lambda self, acc, result: result.append(acc))
    r = s.get_account_descendants(a)
    h.eq('number', h.len(r), n)
    h.eq('in-order', h.at(r, i).ix, i)
    first = SRec(ix=-1)
    r = h.list(first)
    one(s, a, r)
    h.eq('node-number', h.len(r), n + 2)
    h.check('kept', h.at(r, 0) is first)
    h.check('itself', h.at(r, 1) is a)
    h.eq('then-its-members', h.at(r, i + 2).ix, i)


def all_of(a):
    for c in a.accounts:
        yield c
        for x in all_of(c):
            yield x


@contract('C18', [G + 'get_account', A + 'set_parent_path', A + 'name',
                  A + 'remove_account', G + 'get_account_descendants'],
          sym=False, bounded='random trees of at most 30 accounts and 12 '
          'changes')
def trees(h):
    """Whatever has been created, renamed, removed and attached elsewhere:
    every account is found at the path it reports, and nothing else is."""
    des = h.mod(L.DES)
    s = des.GeneralLedgerStructure('s')
    rng = h.rng

    def accounts():
        return [x for t in s.accounts for x in [t] + list(all_of(t))]

    def free(parent, but=None):
        used = [a.name for a in parent.accounts if a is not but]
        return rng.choice([x for x in (
            'a', 'b', 'c', 'ab', 'Bank', 'Sales', 'Default', 'x y', 'd', 'e')
            if x not in used] or ['z%d' % len(used)])
    log = h.log['changes'] = []
    gone = []
    for k in range(rng.randrange(13)):
        a = rng.choice(accounts())
        what = rng.choice(['create', 'create', 'rename', 'remove', 'move'])
        if what == 'create':
            c = a.create_account(free(a))
            log.append((what, a.path, c.name))
        elif what == 'rename':
            if a in s.accounts:
                old, new = a.name, free(s, a)
                a.name = new
            else:
                old = a.path
                p = s.get_account(old.rsplit('/', 1)[0])
                h.check('parent-found', p is not None and a in p.accounts)
                a.name = new = free(p, a)
            gone.append(old)
            log.append((what, old, new))
        elif what == 'remove' and a.accounts:
            c = rng.choice(a.accounts)
            gone += [c.path] + [x.path for x in all_of(c)]
            log.append((what, c.path))
            n = len(a.accounts)
            a.remove_account(c.name)
            h.check('removed', len(a.accounts) == n - 1 and all(
                x is not c for x in a.accounts))
            a.remove_account('no such')
            h.check('removed-nothing', len(a.accounts) == n - 1)
        elif what == 'move' and a.accounts:
            c = rng.choice(a.accounts)
            to = rng.choice(accounts())
            if to is c or to in list(all_of(c)) or any(
                    x.name == c.name for x in to.accounts):
                continue
            gone += [c.path] + [x.path for x in all_of(c)]
            log.append((what, c.path, to.path))
            a.accounts.remove(c)
            to.accounts.append(c)
            c.set_parent_path(to.path)
    every = accounts()
    paths = [a.path for a in every]
    h.check('different', len(set(paths)) == len(paths))
    for a in every:
        h.check('found', s.get_account(a.path) is a)
        d = s.get_account_descendants(a)
        h.check('descendants', [x.path for x in d] == [
            p for p in paths if p.startswith(a.path + '/')])
        h.check('one-type', all(x.account_type == a.account_type for x in d)
                or any(c[0] == 'move' for c in log))
    other = [f(p) for p in rng.sample(paths, 3) for f in (
        lambda p: p + '/', lambda p: '/' + p, lambda p: p + ' ',
        lambda p: p.replace('/', '//'), lambda p: p.upper(),
        lambda p: p + '/' + p, lambda p: p[:-1])]
    for p in gone + other + ['no', 'no/such', 'Bank/no', 'Bank/Default/no',
                             '', '/']:
        if p not in paths:
            h.check('not-found', s.get_account(p) is None)


@contract('C18', [F + 'Component.get_component', F + 'Component.get_activity',
                  F + 'Component.__getitem__', F + 'Component.__call__',
                  F + 'Entity.__getitem__', M + '__getitem__'])
def by_name(h):
    """A name finds the part of that name."""
    st = h.mod(STR)
    kind = h.choice('kind', ['component', 'component[]', 'activity',
                             'activity()', 'entity', 'model'])
    node = h.mod(MODELS).TimeBasedModel('m') if kind == 'model' else \
        st.Entity('e', None) if kind == 'entity' else st.Component('c', None)
    n = h.size('parts')
    names = h.names('part', n, pool=['Bank', 'a', 'b', 'ab'], free='/')

    class Part(SRec):
        name = property(lambda a: h.at(names, a.ix))
    setattr(node, 'entities' if kind == 'model' else 'activities' if
            kind.startswith('act') else 'components',
            h.objects(n, lambda i: Part(ix=i)) if h.sym else
            [Part(ix=i) for i in range(n)])
    name, i = h.name_in('known', names, n)
    r = node.get_component(name) if kind == 'component' else \
        node.get_activity(name) if kind == 'activity' else \
        node(name) if kind == 'activity()' else node[name]
    h.eq('this-one', r.ix, i)


@contract('C18', [F + 'Component.remove_component',
                  F + 'Entity.remove_component', M + 'remove_entity',
                  A + 'remove_account'], sym=False,
          bounded='at most 6 parts')
def removed(h):
    """Removing a part by its name removes this part only; removing a name
    that no part has changes nothing."""
    st = h.mod(STR)
    kind = h.choice('kind', ['component', 'entity', 'model', 'account'])
    names = h.rng.sample(['Bank', 'a', 'b', 'ab', 'B', 'c'],
                         h.rng.randrange(7))
    h.log['names'] = names
    if kind == 'model':
        node = h.mod(MODELS).TimeBasedModel('m')
        for x in names:
            node.create_entity(x, None)
        get, remove = (lambda: node.entities), node.remove_entity
    elif kind == 'account':
        node = h.mod(L.DES).GeneralLedgerAccount('m')
        for x in names:
            node.create_account(x)
        get, remove = (lambda: node.accounts), node.remove_account
    else:
        node = (st.Entity if kind == 'entity' else st.Component)('m', None)
        for x in names:
            node.create_component(x)
        get, remove = (lambda: node.components), node.remove_component
    before = list(get())
    for x in h.rng.sample(names, len(names)) + ['no']:
        remove(x)
        before = [c for c in before if c.name != x]
        h.check('others-stay', len(get()) == len(before) and all(
            c is d for c, d in zip(get(), before)))
