"""What is assumed of cerberus.Validator (0.7): a state is valid if and only if
it has the required fields, no others, and each is of its type and within its
limits.  Contract validator_agrees of C21 compares this with the real one."""


class Validator(object):
    """stand-in for cerberus.Validator in symbolic runs"""

    def __init__(self, h, schema):
        self.h, self.schema, self.errors = h, schema, {}

    def validate(self, state):
        self.errors = dict(valid(self.h, self.schema, state))
        return not self.errors


def valid(h, schema, state):
    """the (field, error) pairs"""
    for k, x in schema.items():
        if k not in state:
            if x.get('required'):
                yield k, 'required field'
            continue
        v = state[k]
        kind = x.get('type')
        if kind == 'float':
            if not is_float(h, v):
                yield k, 'must be of float type'
            elif 'min' in x and h.force(h.lt(v, x['min'])):
                yield k, 'min value'
            elif 'max' in x and h.force(h.lt(x['max'], v)):
                yield k, 'max value'
        elif kind == 'dict' and not isinstance(v, dict):
            yield k, 'must be of dict type'
    for k in state:
        if k not in schema:
            yield k, 'unknown field'


def is_float(h, v):
    if h.sym:
        from pyvc.values import Num
        if isinstance(v, Num):
            return v.tag != 'int'
    return isinstance(v, float)


def install(h, core):
    """stub the Validator of the models of material properties"""
    if h.sym:
        h.stub(core, 'Validator', lambda schema: Validator(h, schema))
