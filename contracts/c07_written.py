"""C07: objects written to a file and read back."""
import datetime
import enum
import os
import shutil
import tempfile

from contracts import preload
from pyvc.harness import contract

OBJ = 'auxi.core.objects'
THERMO = 'auxi.tools.chemistry.thermochemistry'
DES = 'auxi.modelling.financial.des'
STRUCT = 'auxi.modelling.business.structure'
MODELS = 'auxi.modelling.business.models'
BASIC = 'auxi.modelling.business.basic'
TIME = 'auxi.core.time'
PHYS = 'auxi.tools.materialphysicalproperties.'
MAT = 'auxi.modelling.process.materials.'
PKG = [MAT + x for x in ('chem', 'psd', 'slurry', 'thermo')]
preload.need('C07', OBJ, THERMO, DES, STRUCT, MODELS, BASIC, TIME,
             PHYS + 'gases', PHYS + 'idealgas', PHYS + 'polynomial', *PKG)
F = 'auxi/core/objects.py:Object.'
T = 'auxi/tools/chemistry/thermochemistry.py:'


# ---------------------------------------------------------------- deductive
class Text(str):
    """what encodes one object, and nothing else"""


class Pickle(object):
    """the contract of jsonpickle: a text that encodes an object decodes to
    an object of the same class with the same attributes"""

    def __init__(self, h):
        self.h = h

    def encode(self, value, *a, **k):
        t = Text('an encoded object')
        t.type, t.values = type(value), dict(vars(value))
        return t

    def decode(self, string, *a, **k):
        self.h.need(isinstance(string, Text), 'a text of another form')
        new = string.type.__new__(string.type)
        vars(new).update(string.values)
        return new

    dumps, loads = encode, decode


class Files(object):
    """files hold what was written to them"""

    def __init__(self, h):
        self.h, self.all = h, []

    def open(self, file, mode='r', *a, **k):
        self.h.need(mode in ('r', 'w', 'rt', 'wt'), 'another mode')
        f = [x for x in self.all if x.name is file]
        if mode[0] == 'r':
            self.h.need(f, 'a file that was not written')
            return f[0]
        for x in f:
            self.all.remove(x)
        self.all.append(File(self.h, file))
        return self.all[-1]


class File(object):
    def __init__(self, h, name):
        self.h, self.name, self.text = h, name, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    close = flush = lambda self: None

    def write(self, text):
        self.h.need(self.text is None, 'a text in pieces')
        self.text = text

    def read(self):
        return self.text


@contract('C07', [F + 'write', F + 'read'], conc=False)
def written(h):
    """What is read is what was written last to this path, an object of the
    same class with the same attributes, finished once."""
    O = h.mod(OBJ)

    class Thing(O.NamedObject):
        def __init__(self, v):
            self.v, self.text, self.finished = h.real(v), h.str(v + "'"), 0

        def _init(self):
            self.finished += 1
    x, y = Thing('a'), Thing('b')
    path, other = h.str('path'), h.str('another path')
    files = Files(h)
    h.stub(OBJ, 'jsonpickle', Pickle(h))
    O.open = files.open
    try:
        def run(f, *a):
            error, r = h.call(f, *a)
            h.need(error is None, 'an error of the stand-ins')
            return r
        run(y.write, path)
        run(y.write, other)
        run(x.write, path)
        h.check('one-file-each', len(files.all) == 2)
        first = run(O.Object.read, path)
        first.v, first.text = h.real('c'), 'changed'
        r, s = run(O.Object.read, path), run(Thing.read, other)
    finally:
        del O.open
    for label, a, b, w in (('last', x, r, 'a'), ('other', y, s, 'b')):
        h.check(label + '-class', type(b) is Thing)
        h.eq(label + '-number', b.v, h.real(w))
        h.check(label + '-text', h.same(b.text, h.str(w + "'")))
        h.check(label + '-finished', b.finished == 1)
        h.check(label + '-unchanged', a.finished == 0 and len(vars(a)) == 3
                and h.same(a.text, h.str(w + "'")))
        h.eq(label + '-keeps-number', a.v, h.real(w))


# ------------------------------------------------------------------ bounded
ATOMS = (int, float, str, bool, type(None), datetime.date, enum.Enum)


def differ(a, b, path='', pairs=None, back=None):
    """where b is not a copy of a (the same parts shared), or None"""
    pairs, back = {} if pairs is None else pairs, {} if back is None else back
    if callable(a) and hasattr(a, '__func__'):
        ok = getattr(b, '__func__', None) is a.__func__
        return None if ok else path + ': another method'
    if type(a) is not type(b):
        return '%s: %s, was %s' % (path, type(b).__name__, type(a).__name__)
    import numpy
    if isinstance(a, ATOMS + (numpy.generic,)):
        return None if a == b or a != a and b != b else '%s: %r, was %r' % (
            path, b, a)
    if not isinstance(a, tuple):
        if id(a) in pairs or id(b) in back:
            ok = pairs.get(id(a)) == id(b) and back.get(id(b)) == id(a)
            return None if ok else path + ': other parts are shared'
        pairs[id(a)], back[id(b)] = id(b), id(a)
    if isinstance(a, numpy.ndarray):
        ok = a.dtype == b.dtype and numpy.array_equal(a, b)
        return None if ok else '%s: %r, was %r' % (path, b, a)
    if isinstance(a, dict):
        if set(a) != set(b):
            return '%s: keys %s, were %s' % (path, sorted(map(str, b)),
                                             sorted(map(str, a)))
        parts = [(a[k], b[k], '[%r]' % k) for k in a]
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d items, were %d' % (path, len(b), len(a))
        parts = [(x, y, '[%d]' % i) for i, (x, y) in enumerate(zip(a, b))]
    elif type(a).__module__.startswith('cerberus'):
        return None if dict(a.schema) == dict(b.schema) else path + '.schema'
    elif type(a).__module__.startswith('auxi'):
        return differ(vars(a), vars(b), path + '.', pairs, back)
    else:
        return None
    for x, y, s in parts:
        d = differ(x, y, path + s, pairs, back)
        if d:
            return d
    return None


TEXTS = ['', 'Fe2O3', 'a b', 'x/y', '"quoted"', 'two\nlines', u'\u03b1-Fe',
         '298.15', 'None', '[1, 2]', u'\U0001f525', '\\', "it's"]


class Tree(object):
    """a random object whose parts may be shared"""

    def __init__(self, h):
        self.r, self.O = h.rng, h.mod(OBJ)
        self.time = h.mod(TIME)
        self.made = []

    def value(self, depth):
        r = self.r
        k = r.randrange(15 if depth else 8)
        if k == 0:
            return r.choice([0, 1, -7, 10 ** 12])
        if k == 1:
            return r.choice([0.0, 0.1, -1e-300, 1.5e300, 1 / 3.0,
                             r.uniform(-1e3, 1e3)])
        if k == 2:
            return r.choice([True, False, None])
        if k == 3:
            return r.choice(TEXTS)
        if k == 4:
            return datetime.datetime(2016, r.randrange(1, 13), 5, 1, 2, 3)
        if k == 5:
            return datetime.date(r.randrange(1, 4000), 2, 28)
        if k == 6:
            return r.choice(list(self.time.TimePeriod))
        if k == 7:
            import numpy
            return numpy.array([r.uniform(-9, 9) for _ in range(
                r.randrange(1, 5))])
        if k in (8, 9) and self.made:
            return r.choice(self.made)
        if k < 11:
            return [self.value(depth - 1) for _ in range(r.randrange(4))]
        if k == 11:
            return {x: self.value(depth - 1) for x in r.sample(
                TEXTS, r.randrange(4))}
        if k == 12:
            return tuple(self.value(depth - 1) for _ in range(r.randrange(3)))
        return self.object(depth - 1)

    def object(self, depth):
        r = self.r
        x = self.O.NamedObject(r.choice(TEXTS), r.choice(TEXTS + [None]))
        self.made.append(x)
        names = ['z', 'a', 'm', '_b', 'Cp', 'n1', 'k9']
        r.shuffle(names)
        for n in names[:r.randrange(1, 7)]:
            setattr(x, n, self.value(depth))
        return x


def written_and_read(h, x, folder, name='object.json'):
    O = h.mod(OBJ)
    p = os.path.join(folder, name)
    if h.rng.random() < 0.3:
        # the file holds something longer already
        with open(p, 'w') as f:
            f.write('x' * 200000)
    before = vars(x).copy()
    x.write(p)
    h.check('unchanged', before.keys() == vars(x).keys() and all(
        before[k] is vars(x)[k] for k in before))
    # what was read can be changed, and the file read again
    vars(O.Object.read(p)).clear()
    r = h.rng.choice([type(x), O.Object]).read(p)
    d = differ(x, r, type(x).__name__)
    h.check('equal', d is None, d)
    return r


def scratch(fn):
    def run(h):
        folder = tempfile.mkdtemp(prefix='c07-')
        try:
            return fn(h, folder)
        finally:
            shutil.rmtree(folder)
    run.__name__, run.__doc__ = fn.__name__, fn.__doc__
    return run


@contract('C07', [F + 'write', F + 'read'], sym=False, samples=400,
          bounded='objects of up to 6 attributes, nested 3 deep')
@scratch
def read_back(h, folder):
    """Any object reads back with the same attributes, the same parts
    shared."""
    t = Tree(h)
    for _ in range(h.rng.randrange(3)):
        t.object(1)
    x = t.object(3)
    h.log['object'] = repr(x.__dict__)[:500]
    written_and_read(h, x, folder)


def chem_material(h, folder, mod):
    p = os.path.join(folder, 'm.txt')
    r = h.rng
    head, rows = {
        'chem': ('Compound', ['Fe2O3', 'SiO2', 'CaO', 'C']),
        'psd': ('SizeClass', ['0.3', '0.1', '0.01']),
        'slurry': ('SizeClass', ['solid_density', 'H2O', '0.3', '0.1']),
        'thermo': ('Compound', ['Fe2O3[Salpha]', 'SiO2[S]', 'CaO[S]',
                                'H2O[L]'])}[mod.__name__.split('.')[-1]]
    with open(p, 'w') as f:
        f.write('%s Feed Dust\n' % head)
        for x in rows:
            f.write('%s %r %r\n' % (x, r.uniform(0.5, 2), r.uniform(0.5, 2)))
    m = mod.Material('material', p)
    return m, lambda: m.create_package(r.choice(['Feed', 'Dust']),
                                       r.uniform(1, 100))


def some_object(h, folder):
    r = h.rng
    k = h.choice('kind', ['material', 'package', 'stream', 'ledger',
                          'structure', 'model', 'entity', 'clock', 'compound',
                          'phase', 'density', 'polynomial', 'gas'])
    if k in ('material', 'package', 'stream'):
        mod = h.mod(PKG[3] if k == 'stream' else r.choice(PKG))
        m, package = chem_material(h, folder, mod)
        h.log['module'] = mod.__name__
        if k == 'material':
            return m
        if k == 'stream':
            return m.create_stream('Feed', r.uniform(1, 9), 1.0,
                                   r.uniform(25, 900))
        return package()
    if k in ('compound', 'phase'):
        T = h.mod(THERMO)
        c = T.compounds[r.choice(sorted(T.compounds))]
        h.log['compound'] = c.formula
        return c if k == 'compound' else c._phases[r.choice(
            sorted(c._phases))]
    if k == 'density':
        return h.mod(PHYS + 'idealgas').RhoT(r.uniform(2, 90), 101325.0)
    if k in ('polynomial', 'gas'):
        g = getattr(h.mod(PHYS + 'gases'), r.choice(
            ['air', 'argon', 'nitrogen', 'oxygen', 'water_vapour']))
        return g if k == 'gas' else g.mu
    start = datetime.datetime(2016, r.randrange(1, 13), 1)
    if k == 'clock':
        T = h.mod(TIME)
        return T.Clock('clock', None, start, r.choice(list(T.TimePeriod)))
    des = h.mod(DES)
    gls = des.GeneralLedgerStructure('structure')
    gls['Sales'].create_account('Ore', '0010').create_account('Fine', '0020')
    if k == 'structure':
        return gls
    m = h.mod(MODELS).TimeBasedModel('model', start_datetime=start,
                                     period_count=r.randrange(5))
    e = m.create_entity('plant', gls)
    kiln = e.create_component('kiln').create_component('feed')
    kiln.add_activity(h.mod(BASIC).BasicActivity(
        'sell', 'Bank/Default', 'Sales/Ore', amount=r.uniform(1, 9)))
    m.run()
    return {'model': m, 'entity': e, 'ledger': e.gl}[k]


@contract('C07', [F + 'write', F + 'read', T + 'Compound._init',
                  T + 'Phase._init'], sym=False, samples=150,
          bounded='one object of each of 13 kinds from the library at a time')
@scratch
def library_objects(h, folder):
    """The library's own objects read back with the same attributes."""
    written_and_read(h, some_object(h, folder), folder)


MADE = ['Co', 'FeO', 'Ca(OH)2', 'Fe(CO)', 'CuSO4.5H2O', 'S', 'Al2O3']
TWINS = [['Co', 'CO'], ['HF', 'Hf'], ['No', 'NO']]


def some_phase(r, symbol):
    T, recs = 298.15, {}
    for _ in range(r.randrange(1, 4)):
        top = round(T + r.uniform(10, 900), 2)
        recs[r.choice([str, float])(top)] = {
            'Tmin': T, 'Tmax': top, 'Terms': [
                {'Coefficient': r.uniform(-5, 50), 'Exponent': float(e)}
                for e in r.sample([-2, -1, 0, 0.5, 1, 2], r.randrange(1, 4))]}
        T = top
    d = {'Symbol': symbol, 'DHref': r.uniform(-9e5, 9e5),
         'Sref': r.uniform(0, 200), 'Cp_records': recs}
    if r.random() < 0.4:
        d['magnetic'] = {'Tc': r.uniform(300, 1300),
                         'beta0': r.uniform(0.1, 3),
                         'p': r.choice([0.28, 0.4])}
    return d


@contract('C07', [T + 'write_compound_to_auxi_file', T + 'load_data_auxi'],
          sym=False, samples=60,
          bounded='up to 4 shipped and 2 other compounds in a folder')
@scratch
def data_files(h, folder):
    """Loading a folder of data files gives the compounds written to it."""
    m = h.mod(THERMO)
    known = dict(m.compounds)
    wanted = {n: m.Compound({'Formula': n, 'Phases': {
        s: some_phase(h.rng, s) for s in h.rng.sample(
            ['S', 'L', 'G', 'Salpha'], h.rng.randrange(1, 4))}})
        for n in h.rng.choice(TWINS + [h.rng.sample(MADE, k)
                                       for k in (0, 1, 2)])}
    for n in h.rng.sample(sorted(known), h.rng.randrange(5)):
        wanted.setdefault(n, known[n])
    names = h.log['compounds'] = list(wanted)
    try:
        for n in names:
            m.write_compound_to_auxi_file(folder, wanted[n])
        m.load_data_auxi(folder)
        new = dict(m.compounds)
    finally:
        m.compounds.clear()
        m.compounds.update(known)
    h.check('compounds', sorted(new) == sorted(names))
    for n in names:
        d = differ(wanted[n], new[n], n)
        h.check('equal', d is None, d)
