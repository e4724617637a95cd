"""C01: stoichiometry follows the chemical formula.

The contract of count() - for any part of a formula, the dictionary of the
number of atoms of each element in it - is proved per class against the same
contract of the parts it is made of (structural induction over the formula);
the visitor methods that build the parts are proved to build parts with the
counts the notation stands for.  That the grammar (parsimonious, a library)
splits a formula into these parts is checked on generated formulas."""
from contracts import preload
from pyvc.harness import contract
from pyvc.rec import SRec

MOD = 'auxi.tools.chemistry.stoichiometry'
F = 'auxi/tools/chemistry/stoichiometry.py:'
preload.need('C01', MOD)

MASS = dict(zip(
    'H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co '
    'Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb '
    'Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re '
    'Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es '
    'Fm Md No Lr Rf Db Sg Bh Hs Mt'.split(),
    [1.00794, 4.002602, 6.941, 9.012182, 10.811, 12.0107, 14.00674, 15.9994,
     18.9984032, 20.1797, 22.98977, 24.305, 26.981538, 28.0855, 30.973762,
     32.066, 35.4527, 39.948, 39.0983, 40.078, 44.95591, 47.867, 50.9415,
     51.9961, 54.938049, 55.845, 58.9332, 58.6934, 63.546, 65.39, 69.723,
     72.61, 74.9216, 78.96, 79.904, 83.8, 85.4678, 87.62, 88.90585, 91.224,
     92.90638, 95.94, 98.0, 101.07, 102.9055, 106.42, 107.8682, 112.411,
     114.818, 118.71, 121.76, 127.6, 126.90447, 131.29, 132.90545, 137.327,
     138.9055, 140.116, 140.90765, 144.24, 145.0, 150.36, 151.964, 157.25,
     158.92534, 162.5, 164.93032, 167.26, 168.93421, 173.04, 174.967, 178.49,
     180.9479, 183.84, 186.207, 190.23, 192.217, 195.078, 196.96655, 200.59,
     204.3833, 207.2, 208.98038, 210.0, 210.0, 222.0, 223.0, 226.0, 227.0,
     232.0381, 231.03588, 238.0289, 237.0, 244.0, 243.0, 247.0, 247.0, 251.0,
     252.0, 257.0, 258.0, 259.0, 262.0, 261.0, 262.0, 266.0, 264.0, 269.0,
     268.0]))
ELEMENTS = sorted(MASS)


class Part(SRec):
    """any part of a formula: obeys the contract of count()"""

    def count(self):
        u, i = self.u, self.i
        return u.h.partial_map(u.el, u.n, lambda q: u.c(i, q),
                               lambda q: u.has(i, q))


class Universe(object):
    """the chemical elements, and parts that contain arbitrary numbers of
    arbitrary elements"""

    def __init__(self, h):
        self.h = h
        self.n = h.size('number_of_elements', lo=1, hi=6)
        self.el = h.names('element', self.n, ELEMENTS)
        self.c = h.func('count', pos=True, arity=2)
        self.has = h.pred('present', arity=2)

    def part(self, i):
        return Part(u=self, i=i)

    def amount(self, i, q):
        """atoms of element q in part i"""
        h = self.h
        return h.ite(self.has(i, q), self.c(i, q), h.const(0))

    def check(self, label, counts, total, present):
        """counts maps exactly the elements that are present to total"""
        h = self.h
        h.check(label + '-amounts', h.forall(self.n, lambda j: h.implies(
            present(h.at(self.el, j)),
            h.close(h.value(counts, h.at(self.el, j)),
                    total(h.at(self.el, j))))))
        h.check(label + '-elements', h.forall(self.n, lambda j: h.iff(
            h.has_key(counts, h.at(self.el, j)),
            present(h.at(self.el, j)))))


def spoil(h, counts, *keys):
    """the caller of count() owns the dictionary it got"""
    for k in keys:
        counts[k] = 7


@contract('C01', [F + 'Element.count'])
def element_count(h):
    mod = h.mod(MOD)
    s = h.token('symbol')
    e = mod.Element(1, 1, 1, s, h.real('mass', pos=True))
    spoil(h, e.count(), s, h.token('other'))
    c = e.count()
    h.check('one-atom', h.close(c[s], 1))
    h.check('one-element', len(c) == 1)


def sums(h, groups, u, mult):
    return (lambda q: mult * h.sum(groups, lambda i: u.amount(i, q)),
            lambda q: h.exists(groups, lambda i: u.has(i, q)))


@contract('C01', [F + 'count_with_multiplier'])
def counts_with_multiplier(h):
    mod = h.mod(MOD)
    u = Universe(h)
    m = h.size('parts', lo=0)
    k = h.int('multiplier', lo=1)
    u.check('counts', mod.count_with_multiplier(h.objects(m, u.part), k),
            *sums(h, m, u, k))


@contract('C01', [F + 'Group.count'])
def group_count(h):
    mod = h.mod(MOD)
    u = Universe(h)
    m = h.size('parts', lo=0)
    k = h.int('multiplier', lo=1)
    g = mod.Group(h.objects(m, u.part), k)
    u.check('counts', g.count(), *sums(h, m, u, k))
    q, _ = h.name_in('any_element', u.el, u.n)
    spoil(h, g.count(), q, h.foreign_name('other', u.el))
    u.check('counts-again', g.count(), *sums(h, m, u, k))
    g = mod.Group(h.objects(m, u.part))
    u.check('default-multiplier', g.count(), *sums(h, m, u, 1))


@contract('C01', [F + 'Compound.count', F + 'Compound.__init__'])
def compound_count(h):
    mod = h.mod(MOD)
    u = Universe(h)
    dotted = h.choice('dotted', [False, True])
    phase = h.choice('phase', [None, 'S1'])
    a, b = u.part(0), u.part(1)
    c = mod.Compound(a, b if dotted else [], phase)
    if h.choice('asked_before', [False, True]):
        q, _ = h.name_in('any_element', u.el, u.n)
        spoil(h, c.count(), q, h.foreign_name('other', u.el))
    if dotted:
        u.check('counts', c.count(),
                lambda q: u.amount(0, q) + u.amount(1, q),
                lambda q: h.any(u.has(0, q), u.has(1, q)))
    else:
        u.check('counts', c.count(), lambda q: u.amount(0, q),
                lambda q: u.has(0, q))


class Table(object):
    """the element table with arbitrary molar masses"""

    def __init__(self, h, mod):
        self.h, self.mod = h, mod
        if h.sym:
            self.f = h.func('molar_mass', pos=True)
            h.stub(MOD, '_element_dictionary_', self)

    def mass(self, q):
        if self.h.sym:
            return self.f(q)
        return MASS[q]

    def __getitem__(self, q):
        class E(object):
            pass
        e = E()
        e.molar_mass = self.f(q)
        e.symbol = q
        return e


@contract('C01', [F + 'Compound.molar_mass'])
def compound_molar_mass(h):
    mod = h.mod(MOD)
    u = Universe(h)
    t = Table(h, mod)
    c = mod.Compound(u.part(0), [], None)
    # count() has its own contract: compound_count
    h.stub(MOD, 'Compound.count', lambda self: u.part(0).count())
    h.eq('molar-mass', c.molar_mass(), h.sum(u.n, lambda j: u.amount(
        0, h.at(u.el, j)) * t.mass(h.at(u.el, j))))


@contract('C01', [F + 'CompoundVisitor'])
def visitor_builds_groups(h):
    mod = h.mod(MOD)
    u = Universe(h)
    v = mod.CompoundVisitor()
    k = h.int('number', lo=1)
    number = h.choice('subscript', ['no', 'yes'])
    n = k if number == 'yes' else []
    times = k if number == 'yes' else 1
    what = h.choice('notation', ['group', 'subscripted group', 'dotted group',
                                 'subscripted element', 'compound'])
    if what == 'group':
        m = h.size('parts', lo=1)
        g = v.visit_group(None, h.objects(m, u.part))
        u.check('group', g.count(), *sums(h, m, u, 1))
        return
    one = u.part(0)
    if what == 'subscripted group':
        g = v.visit_subscriptedgroup(None, ('(', one, ')', n))
    elif what == 'dotted group':
        g = v.visit_dottedgroup(None, ('.', n, one))
    elif what == 'subscripted element':
        g = v.visit_subscriptedelement(None, (one, k))
        times = k
    else:
        d = h.choice('dotted', [False, True])
        g = v.visit_compound(None, (one, u.part(1) if d else [],
                                    h.choice('phase', [[], 'S1'])))
        h.check('compound', type(g) is mod.Compound)
        u.check('compound', g.count(), lambda q: u.amount(0, q) + (
            u.amount(1, q) if d else 0), lambda q: h.any(
                u.has(0, q), u.has(1, q)) if d else u.has(0, q))
        return
    u.check(what.replace(' ', '-'), g.count(),
            lambda q: times * u.amount(0, q), lambda q: u.has(0, q))


class Formula(object):
    """the parsed formula of a string, as an arbitrary function of it"""

    def __init__(self, h, mod):
        self.h, self.mod = h, mod
        if h.sym:
            self.u = Universe(h)
            self.mm = h.func('molar_mass_of', pos=True)
            h.stub(MOD, 'parse_compound', self.parse)

    def parse(self, s):
        u, h = self.u, self.h
        f = self

        class C(object):
            def count(self):
                return h.counter(u.h.partial_map(
                    u.el, u.n, lambda q: u.c(s, q), lambda q: u.has(s, q)))

            def molar_mass(self):
                return f.mm(s)
        return C()

    def counts(self, s):
        """q -> atoms of q in the formula s (after removing white space)"""
        h = self.h
        if h.sym:
            # an element of the universe or one that occurs nowhere
            def f(q):
                s2 = h.strip(s)
                return h.ite(h.all(h.contains(self.u.el, q),
                                   self.u.has(s2, q)),
                             self.u.c(s2, q), h.const(0))
            return f
        e = expand(s.tree)
        return lambda q: float(e.get(q, 0))

    def molar_mass(self, s):
        h = self.h
        if h.sym:
            return self.mm(h.strip(s))
        return sum(MASS[e] * n for e, n in expand(s.tree).items())

    def some(self, tag):
        if self.h.sym:
            s = self.h.str(tag)
            self.h.assume(self.h.not_(self.h.same(s, '')))
            return s
        return formula(self.h, tag)

    def element(self, tag):
        if self.h.sym:
            s = self.h.str(tag)
            self.h.assume(self.h.not_(self.h.same(s, '')))
            self.h.assume(self.h.same(self.h.strip(s), s))
            return s
        e = self.h.rng.choice(ELEMENTS if self.h.rng.random() < 0.4 else
                              ['H', 'O', 'C', 'Fe', 'Si', 'Al', 'Cr', 'N'])
        self.h.log[tag] = e
        r = Text(e)
        r.tree = [(e, 1)]
        return r


class Text(str):
    tree = None


def formula(h, tag):
    """a random formula and its tree: [(element or [..subtree..], count)]"""
    r = h.rng
    common = ['H', 'O', 'C', 'Fe', 'Si', 'Al', 'Cr', 'N', 'S', 'Ca']

    def number(p=0.5):
        return 1 if r.random() < p else r.choice(
            [2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 17, 23, 100, 1])

    def group(depth):
        text, tree = '', []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6])):
            if depth > 0 and r.random() < 0.35:
                t, sub = group(depth - 1)
                n = number()
                text += '(' + t + ')' + (str(n) if n != 1 or
                                         r.random() < 0.1 else '')
                tree.append((sub, n))
            else:
                e = r.choice(common if r.random() < 0.75 else ELEMENTS)
                n = number()
                text += e + (str(n) if n != 1 or r.random() < 0.1 else '')
                tree.append((e, n))
        return text, tree
    text, tree = group(r.choice([0, 0, 1, 2, 3]))
    if r.random() < 0.3:
        t, sub = group(r.choice([0, 0, 1]))
        n = number()
        text += '.' + (str(n) if n != 1 or r.random() < 0.1 else '') + t
        tree.append((sub, n))
    if r.random() < 0.4:
        text += '[' + r.choice(['S', 'S1', 'Salpha', 'L', 'G', 'Sgr', '1',
                                'aq']) + ']'
    if r.random() < 0.1:
        text = r.choice([' ', '', '\t']) + text + r.choice([' ', '\n', ''])
    x = Text(text)
    x.tree = tree
    h.log[tag] = text
    return x


def expand(tree, k=1, out=None):
    out = {} if out is None else out
    for x, n in tree:
        if isinstance(x, str):
            out[x] = out.get(x, 0) + n * k
        else:
            expand(x, n * k, out)
    return out


@contract('C01', [F + 'parse_compound', F + 'CompoundVisitor',
                  F + '_element_dictionary_'], sym=False, samples=600,
          bounded='generated formulas (nesting depth <= 3)')
def formula_counts(h):
    mod = h.mod(MOD)
    s = formula(h, 'formula')
    e = expand(s.tree)
    q = h.rng.choice(ELEMENTS)
    h.eq('coefficient', mod.stoichiometry_coefficient(s, q), e.get(q, 0))
    h.check('set-of-elements', set(mod.elements([s.strip()])) == set(e))
    for again in range(2):
        c = mod.parse_compound(s.strip()).count()
        h.check('elements', set(c) == set(e))
        for q in e:
            h.eq('count', c[q], e[q])
    h.check('set-of-elements', set(mod.elements([s.strip()])) == set(e))
    h.eq('molar-mass', mod.molar_mass(s),
         sum(MASS[q] * n for q, n in e.items()))
    h.eq('fractions-sum-to-one', sum(mod.element_mass_fractions(
        s, sorted(e))), 1.0)


@contract('C01', [F + 'elements'], sym=False, samples=200,
          bounded='generated lists of up to 5 formulas')
def elements_of_several_compounds(h):
    mod = h.mod(MOD)
    n = h.rng.randrange(6)
    fs = [formula(h, 'formula%d' % i) for i in range(n)]
    want = set()
    for f in fs:
        want |= set(expand(f.tree))
    h.check('union', set(mod.elements([f.strip() for f in fs])) == want)


@contract('C01', [F + '_element_dictionary_'], sym=False, samples=4,
          bounded='every element of the table')
def element_table(h):
    mod = h.mod(MOD)
    for i, e in enumerate(
            'H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr '
            'Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh '
            'Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy '
            'Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr '
            'Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs '
            'Mt'.split()):
        h.eq('molar-mass', mod.molar_mass(e), MASS[e])
        h.check('atomic-number',
                mod._element_dictionary_[e].atomic_number == i + 1)
        h.check('symbol', mod._element_dictionary_[e].symbol == e)


@contract('C01', [F + 'molar_mass'])
def molar_mass_of_string(h):
    mod = h.mod(MOD)
    f = Formula(h, mod)
    s = f.some('formula')
    h.eq('molar-mass', mod.molar_mass(s), f.molar_mass(s))
    h.eq('no-compound', mod.molar_mass(None), 0.0)
    h.eq('empty-compound', mod.molar_mass(''), 0.0)
    h.eq('nothing', mod.molar_mass(), 0.0)


@contract('C01', [F + 'stoichiometry_coefficient'])
def coefficient(h):
    mod = h.mod(MOD)
    f = Formula(h, mod)
    s, e = f.some('formula'), f.element('symbol')
    h.eq('coefficient', mod.stoichiometry_coefficient(s, e), f.counts(s)(e))


@contract('C01', [F + 'stoichiometry_coefficients'])
def coefficients(h):
    mod = h.mod(MOD)
    f = Formula(h, mod)
    s = f.some('formula')
    n = h.size('n')
    es = h.names('wanted', n, ELEMENTS)
    r = mod.stoichiometry_coefficients(s, es)
    c = f.counts(s)
    h.check('one-per-element', h.len(r) == n)
    h.check('coefficients', h.forall(n, lambda i: h.close(
        h.at(r, i), c(h.at(es, i)))))


def fraction(h, f, s, e):
    if h.sym:
        return f.counts(s)(e) * f.mm(h.strip(e)) / f.molar_mass(s)
    return f.counts(s)(e) * MASS[e] / f.molar_mass(s)


@contract('C01', [F + 'element_mass_fraction'])
def mass_fraction(h):
    mod = h.mod(MOD)
    f = Formula(h, mod)
    s, e = f.some('formula'), f.element('symbol')
    h.eq('fraction', mod.element_mass_fraction(s, e), fraction(h, f, s, e))


@contract('C01', [F + 'element_mass_fractions'])
def mass_fractions(h):
    mod = h.mod(MOD)
    f = Formula(h, mod)
    s = f.some('formula')
    n = h.size('n')
    es = h.names('wanted', n, ELEMENTS)
    if h.sym:
        h.assume(h.forall(n, lambda i: h.not_(h.same(h.at(es, i), ''))))
    r = mod.element_mass_fractions(s, es)
    h.check('one-per-element', h.len(r) == n)
    h.check('fractions', h.forall(n, lambda i: h.close(
        h.at(r, i), fraction(h, f, s, h.at(es, i)))))


@contract('C01', [F + 'element_mass_fractions'], sym=True, conc=False)
def fractions_sum_to_one(h):
    """lemma: with molar_mass(formula) = sum count*molar_mass(element), as
    compound_molar_mass proves, the fractions of all elements add up to 1"""
    mod = h.mod(MOD)
    f = Formula(h, mod)
    s = f.some('formula')
    u = f.u
    h.assume(h.forall(u.n, lambda j: h.not_(h.same(h.at(u.el, j), ''))))
    h.assume(h.close(f.molar_mass(s), h.sum(u.n, lambda j: f.counts(s)(
        h.at(u.el, j)) * f.mm(h.strip(h.at(u.el, j))))))
    r = mod.element_mass_fractions(s, u.el)
    h.eq('sum', h.sum(u.n, lambda j: h.at(r, j)), 1)
