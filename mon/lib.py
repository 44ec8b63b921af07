"""The library under test and conversions between its objects and the model (public API only)."""
import random
import algebraixlib.mathobjects as mo
import algebraixlib.algebras.sets as sets
import algebraixlib.algebras.couplets as couplets
import algebraixlib.algebras.relations as relations
import algebraixlib.algebras.clans as clans
import algebraixlib.algebras.multisets as multisets
import algebraixlib.algebras.multiclans as multiclans
import algebraixlib.algebras.properties as properties
import algebraixlib.extension as extension
import algebraixlib.partition as partition
import algebraixlib.structure as structure
import algebraixlib.undef as undef
from algebraixlib.cache_status import CacheStatus
from . import model as mm
from .model import U

UNDEF = undef.Undef()


class BadObject(Exception):
    """An object whose public accessors contradict each other or contain foreign values."""


def to_model(o):
    """Model value of a math object (or U / bool / other plain value unchanged)."""
    if o is UNDEF:
        return U
    if isinstance(o, mo.Atom):
        return ('A', type(o.value), o.value)
    if isinstance(o, mo.Couplet):
        return ('C', to_model(o.left), to_model(o.right))
    if isinstance(o, mo.Set):
        out = frozenset(_elem(e) for e in o.data)
        if len(out) != len(o.data):
            raise BadObject('set holds equal elements twice: %r' % (list(o.data),))
        return ('S', out)
    if isinstance(o, mo.Multiset):
        items = list(o.data.items())
        for k, n in items:
            if type(n) is not int or n <= 0:
                raise BadObject('multiplicity %r of %r' % (n, k))
        out = frozenset((_elem(k), n) for k, n in items)
        if len({k for k, _ in out}) != len(items):
            raise BadObject('multiset holds equal elements under two keys')
        return ('M', out)
    if isinstance(o, mo.MathObject):
        raise BadObject('unknown math object %r' % type(o))
    return o


def _elem(e):
    if not isinstance(e, mo.MathObject):
        raise BadObject('element is not a math object: %r' % (e,))
    return to_model(e)


def is_val(m):
    return isinstance(m, tuple) and len(m) >= 2 and m[0] in ('A', 'C', 'S', 'M') and m is not U


def build(m, rng=None):
    """Library object for a model value, built in a random one of the equivalent ways."""
    r = rng or random
    k = m[0]
    if k == 'A':
        return mo.Atom(m[2])
    if k == 'C':
        l, rt = m[1], m[2]
        x = r.random()
        if l == rt and x < .2:
            return mo.Couplet(build(l, rng))
        if x < .5:
            return mo.Couplet(build(l, rng), build(rt, rng), direct_load=True)
        return mo.Couplet(_raw(l, rng), _raw(rt, rng) if rt[2:] != (None,) else build(rt, rng))
    if k == 'S':
        es = sorted(m[1], key=mm.show)
        r.shuffle(es)
        x = r.random()
        if x < .4:
            return mo.Set([build(e, rng) for e in es], direct_load=True)
        if x < .7 or len(es) == 1 or len(es) > 40:
            return mo.Set([_raw(e, rng) for e in es])
        return mo.Set(*[_raw(e, rng) for e in es])
    es = sorted(m[1], key=lambda t: mm.show(t[0]))
    r.shuffle(es)
    x = r.random()
    if x < .4:
        return mo.Multiset({build(e, rng): n for e, n in es}, direct_load=True)
    if x < .7 or sum(n for _, n in es) > 60:
        return mo.Multiset({build(e, rng): n for e, n in es})
    flat = [build(e, rng) for e, n in es for _ in range(n)]
    r.shuffle(flat)
    return mo.Multiset(flat, direct_load=r.random() < .5)


def _raw(m, rng):
    """The raw value of an atom (sometimes), else the built object."""
    if m[0] == 'A' and rng is not None and rng.random() < .4:
        return m[2]
    return build(m, rng)


FLAG_NAMES = ['relation', 'clan', 'multiclan', 'absolute', 'functional', 'right_functional', 'reflexive', 'symmetric',
              'transitive', 'regular', 'right_regular']


def truth(m, name):
    """Model truth of a remembered fact: True / False / U (does not apply)."""
    if name == 'relation':
        return mm.is_rel(m)
    if name == 'clan':
        return mm.is_clan(m)
    if name == 'multiclan':
        return mm.is_mclan(m)
    if name == 'absolute':
        return mm.is_abs(m)
    return mm.prop(m, name)


def check_flags(o, m, seen=None, deep=True, atoms=True):
    """Yield (object model, flag, remembered, truth) for every remembered fact of o (and its elements) that is false."""
    for name in FLAG_NAMES:
        v = getattr(o, 'cached_' + name)
        if v == CacheStatus.UNKNOWN:
            continue
        t = truth(m, name)
        if name not in ('relation', 'clan', 'multiclan', 'absolute') and mm.ambiguous(m):
            continue
        ok = (v == CacheStatus.IS and t is True) or (v == CacheStatus.IS_NOT and t is False) or (v == CacheStatus.N_A and t is U)
        if seen is not None:
            seen[name] = seen.get(name, 0) + 1
        if not ok:
            yield (m, name, {1: 'IS', 2: 'IS_NOT', 3: 'N_A'}.get(v, v), t)
    if deep:
        if m[0] == 'C':
            subs = [o.left, o.right]
        elif m[0] == 'S':
            subs = list(o.data)
        elif m[0] == 'M':
            subs = list(o.data)
        else:
            subs = []
        for s in subs[:200]:
            if atoms is False and isinstance(s, mo.Atom):
                continue
            yield from check_flags(s, to_model(s), seen, atoms=atoms)
