"""Small functions on which the engine's rules are tried (pyvc/selftest.py): no part of vistautils."""
from typing import Any, Dict, List


def bump(a, b):
    if a < b:
        return a + 1
    return a


def kept(xs):
    return [x for x in xs if x is not None]


def kept_or(xs, flag):
    return [x for x in xs if flag or x is not None]


def kept_loop(xs, flag):
    out = []
    for x in xs:
        if flag:
            if x is not None:
                out.append(x)
    return out


def kept_continue(xs):
    out = []
    for x in xs:
        if x is None:
            continue
        out.append(x)
    return out


def kept_twice(xs):
    out = []
    for x in xs:
        out.append(x)
        if x is None:
            out.append(x)
    return out


def flat(xss):
    return [x for xs in xss for x in xs]


def flat_some(xss):
    return [x for xs in xss for x in xs if x is not None]


def any_none(xs):
    for x in xs:
        if x is None:
            return True
    return False


def any_none_else(xs):
    for x in xs:
        if x is None:
            found = True
            break
    else:
        found = False
    return found


def no_nones(xs):
    for x in xs:
        if x is None:
            raise ValueError("None")
    return len(xs)


def swallowed(xs):
    try:
        for x in xs:
            if x is None:
                raise ValueError("None")
    except KeyError:
        return -1
    except ValueError:
        return 0
    return 1


def count(xs):
    n = 0
    for x in xs:
        n += 1
    return n


def count_wrongly(xs):
    n = 0
    for x in xs:
        n += 1 if x is not None else 2
    return n


def last(xs, start):
    best = start
    for x in xs:
        best = x
    return best


def down(n):
    steps = 0
    while n > 0:
        n -= 1
        steps += 1
    return steps


def fills(xs, other: List[Any]):
    n = 0
    for x in xs:
        n += 1
        other.append(x)
    return n


def numbered(xs):
    i = 0
    for x in xs:
        yield i
        i += 1


def numbered_wrongly(xs):
    i = 0
    for x in xs:
        yield i
        if x is not None:
            i += 1


def later(xs):
    fs = []
    for x in xs:
        fs.append(lambda: x)
    return fs


def later_bound(xs):
    fs = []
    for x in xs:
        fs.append(lambda x=x: x)
    return fs


def constant(xs, y):
    fs = []
    for x in xs:
        fs.append(lambda: y)
    return fs


def joined(a, b):
    return "%s-%s" % (a, b)


def joined_f(a, b):
    return f"{a}-{b}"


def joined_list(xs):
    return "[" + ",".join("%s" % x for x in xs) + "]"


def copied(d: Dict[Any, Any]):
    return {k: v for k, v in d.items() if v is not None}


def copied_loop(d: Dict[Any, Any]):
    out = {}
    for k, v in d.items():
        if v is not None:
            out[k] = v
    return out


def overwritten(d: Dict[Any, Any], x):
    out = dict(d)
    out[x] = 1
    return out


def by_size(xs, f):
    return sorted(xs, key=f)


def helper(x):
    return 7


def uses_helper(x):
    return helper(x) + 1


def same_set(xs):
    return len(set(xs)) == len(xs)


def swapped(a, b):
    a, b = b, a
    return a - b


def floor_half(n):
    return n // 2


def remainder(n):
    return n % 3


def chained(a, b, c):
    return a < b <= c


def both(a, b):
    return a and b


def forever(n):
    while True:
        if n >= 10:
            return n
        n += 3


def guarded(xs, i):
    try:
        return xs[i]
    except IndexError:
        return None


def part(xs, a, b):
    return xs[a:b]
