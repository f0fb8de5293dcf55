"""Functions and methods that the contracts of C15 record and deliver."""
CALLS = []


def func(x, y=0):
    CALLS.append(('func', x, y))
    return ('func', x, y)


def other(x):
    CALLS.append(('other', x))
    return ['other', x]


class Thing:

    def method(self, x, y=0):
        CALLS.append(('method', x, y))
        return ('method', x, y)

    def second(self, x):
        CALLS.append(('second', x))
        return ['second', x]


ORIGINAL = dict(func=func, other=other, method=Thing.method,
                second=Thing.second)
HERE = 'contracts.distill_targets'
PATH = dict(func=f'{HERE}.func', other=f'{HERE}.other',
            method=f'{HERE}.Thing.method', second=f'{HERE}.Thing.second')


def now(name):
    return globals()[name] if name in ('func', 'other') else getattr(
        Thing, name)


def restore():
    CALLS.clear()
    for k in ('func', 'other'):
        globals()[k] = ORIGINAL[k]
    for k in ('method', 'second'):
        setattr(Thing, k, ORIGINAL[k])
