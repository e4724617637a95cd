"""Second back end: the same query, printed from z3's encoding, to cvc5."""


def solve_like(pc, fm, timeout_ms=8000):
    try:
        import cvc5
    except Exception:
        return False
    from . import smt
    import z3
    captured = {}
    real = z3.Solver

    class Cap(object):
        def __init__(self):
            self.s = real()

        def set(self, *a):
            pass

        def add(self, z):
            self.s.add(z)

        def check(self):
            captured['t'] = self.s.to_smt2()
            return z3.unknown

        def model(self):
            return None
    z3.Solver = Cap
    try:
        smt.solve(pc, fm, 1, light=True)
    except Exception:
        return False
    finally:
        z3.Solver = real
    t = captured.get('t')
    if not t:
        return False
    try:
        tm = cvc5.TermManager()
        s = cvc5.Solver(tm)
        s.setOption('tlimit-per', str(timeout_ms))
        s.setLogic('ALL')
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, t, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            r = c.invoke(s, sm)
            if 'unsat' in r:
                res = 'unsat'
        return res == 'unsat'
    except Exception:
        return False
