"""P06: options dictionaries (constrained dictionaries)."""
import copy
import importlib
import inspect
import pickle
import pkgutil
import sys
import types
import numpy as np
from vlib.core import Check, st
import sporco
from sporco.cdict import ConstrainedDict, UnknownKeyError, InvalidValueError, keycmp

CHECK = Check(
    'P06',
    rule='(a) random default trees (depth 1-3) with random histories of construction, update, path assignment, '
         'copying, pickling and invalid operations over several live objects, against a plain nested-dict model; '
         '(b) the same over every options class of the library; non-trivial = at least one valid change and '
         'another live object or an invalid operation',
    assumptions=['a dict is not assigned to an option whose default is not a dict',
                 'options with a default of None may be given a value by the options constructor (RsdlTarget)',
                 'AuxVarObj is documented to control fEvalX and gEvalY, so those two are not set separately '
                 'where it exists'])

KEYS = ['a', 'b', 'c', 'd']
BADKEYS = ['zz', 'A', 'aa', '']
LEAF = st.one_of(st.none(), st.integers(-5, 5), st.booleans(), st.floats(-2, 2), st.text('xy', max_size=2),
                 st.lists(st.integers(0, 3), max_size=2))


@st.composite
def trees(draw, depth=3):
    n = draw(st.integers(1, 4 if depth == 3 else 3))
    ks = KEYS[:n]
    d = {}
    for k in ks:
        if depth > 1 and draw(st.integers(0, 2)) == 0:
            d[k] = draw(trees(depth - 1))
        else:
            d[k] = draw(LEAF)
    return d


def paths(d, pre=()):
    """(leaf paths, subtree paths)"""
    lv, sb = [], []
    for k in d:
        if isinstance(d[k], dict):
            sb.append(pre + (k,))
            a, b = paths(d[k], pre + (k,))
            lv += a
            sb += b
        else:
            lv.append(pre + (k,))
    return lv, sb


def get(d, p):
    for k in p:
        d = d[k]
    return d


def put(d, p, v):
    get(d, p[:-1])[p[-1]] = v


@st.composite
def partial(draw, d, leaf=LEAF):
    """A dict naming some of the options of the tree d."""
    out = {}
    for k in d:
        w = draw(st.integers(0, 2))
        if w == 0:
            continue
        if isinstance(d[k], dict):
            out[k] = draw(partial(d[k], leaf))
        else:
            out[k] = draw(leaf)
    return out


def merge(m, u):
    for k in u:
        if isinstance(u[k], dict):
            merge(m[k], u[k])
        else:
            m[k] = copy.deepcopy(u[k])


OPS = ['new', 'newfrom', 'set', 'set', 'update', 'update', 'subset', 'copy', 'deepcopy', 'pickle',
       'badkey', 'badpath', 'badnew', 'scalar', 'leafpath', 'badupdate', 'badget', 'assignsub', 'subupdate']


@st.composite
def histories(draw, tree=None, leaf=LEAF, nops=10):
    d = draw(trees()) if tree is None else tree
    lv, sb = paths(d)
    ops = []
    for _ in range(draw(st.integers(2, nops))):
        op = dict(op=draw(st.sampled_from(OPS)), i=draw(st.integers(0, 7)), j=draw(st.integers(0, 7)))
        if op['op'] in ('new', 'newfrom', 'update'):
            op['d'] = draw(partial(d, leaf))
        op['p'] = draw(st.integers(0, max(0, len(lv) - 1)))
        op['s'] = draw(st.integers(0, max(0, len(sb) - 1)))
        op['v'] = draw(leaf)
        op['bad'] = draw(st.sampled_from(BADKEYS))
        op['str'] = draw(st.booleans())
        ops.append(op)
    return dict(tree=d, ops=ops)


def plain(o):
    """Plain nested dict of an options object's content through its public
    dict interface."""
    return dict((k, plain(o[k]) if isinstance(o[k], dict) else o[k]) for k in o.keys())


def eqv(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eqv(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and np.array_equal(a, b)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if type(a) is not type(b):
        return False
    try:
        if bool(a == b):
            return True
    except Exception:
        pass
    # objects without value equality (policy objects): same type and state
    return hasattr(a, '__dict__') and hasattr(b, '__dict__') and not callable(a) and \
        eqv(vars(a), vars(b))


def rejects(t, fn, exc, culprit, what):
    try:
        fn()
    except exc as e:
        t.check(str(culprit) in str(e) or repr(culprit) in repr(e.args),
                '%s: message %r does not name %r', what, str(e), culprit)
        return
    except Exception as e:
        t.check(False, '%s: raised %s instead of %s', what, type(e).__name__, exc)
    t.check(False, '%s was accepted', what)


def run_history(t, make, dflt_of, tree, ops, pickles=True):
    """Interpret a history; objs[k] = (object, model)."""
    objs = []
    changed = bad = False
    pristine = copy.deepcopy(tree)

    def new(d=None):
        m = copy.deepcopy(pristine)
        if d is not None:
            merge(m, d)
        arg = None if d is None else copy.deepcopy(d)
        o = make(arg)
        if arg is not None:
            t.check(eqv(arg, d), 'the dict given to the constructor was modified')
        objs.append([o, m])
    new()
    lv, sb = paths(tree)
    for op in ops:
        o, m = objs[op['i'] % len(objs)]
        k = op['op']
        p = lv[op['p'] % len(lv)] if lv else None
        s = sb[op['s'] % len(sb)] if sb else None
        if k in ('new', 'newfrom') and len(objs) < 6:
            if k == 'new':
                new(op['d'])
            else:
                objs.append([make(o), copy.deepcopy(m)])
        elif k == 'set' and p:
            o[p if len(p) > 1 or op['str'] else p[0]] = copy.deepcopy(op['v'])
            put(m, p, op['v'])
            changed = True
        elif k == 'update':
            u = copy.deepcopy(op['d'])
            o.update(u)
            t.check(eqv(u, op['d']), 'the dict given to update was modified')
            merge(m, op['d'])
            changed = True
        elif k == 'subset' and p and len(p) > 1:
            # through the nested object
            get(o, p[:-1])[p[-1]] = copy.deepcopy(op['v'])
            put(m, p, op['v'])
            changed = True
        elif k == 'subupdate' and s:
            sv = {q[-1]: op['v'] for q in lv if q[:-1] == s}
            o[s] = copy.deepcopy(sv)
            merge(get(m, s), sv)
            changed = True
        elif k == 'assignsub' and s and len(objs) > 1:
            o2, m2 = objs[op['j'] % len(objs)]
            o[s] = o2[s]
            put(m, s, copy.deepcopy(get(m2, s)))
        elif k == 'copy' and len(objs) < 6:
            objs.append([copy.copy(o), copy.deepcopy(m)])
        elif k == 'deepcopy' and len(objs) < 6:
            objs.append([copy.deepcopy(o), copy.deepcopy(m)])
        elif k == 'pickle' and pickles and len(objs) < 6:
            objs.append([pickle.loads(pickle.dumps(o, op['j'] % 3 + 2)), copy.deepcopy(m)])
        elif k == 'badkey':
            bad = True
            rejects(t, lambda: o.__setitem__(op['bad'], op['v']), UnknownKeyError, op['bad'], 'unknown key')
            if s:
                q = s + (op['bad'],)
                rejects(t, lambda: o.__setitem__(q, op['v']), UnknownKeyError, op['bad'], 'unknown nested key')
                rejects(t, lambda: get(o, s).__setitem__(op['bad'], op['v']), UnknownKeyError,
                        op['bad'] if s[0] in NESTED else s[-1], 'unknown key in subtree')
        elif k == 'badpath' and s:
            bad = True
            q = (op['bad'],) + s
            rejects(t, lambda: o.__setitem__(q, op['v']), UnknownKeyError, op['bad'], 'unknown path')
        elif k == 'badget':
            bad = True
            rejects(t, lambda: o[op['bad']], UnknownKeyError, op['bad'], 'get of unknown key')
            if s:
                rejects(t, lambda: o[s + (op['bad'],)], UnknownKeyError, op['bad'], 'get of unknown nested key')
        elif k == 'badnew':
            bad = True
            d = {op['bad']: op['v']}
            if s and op['str']:
                for q in s[::-1]:
                    d = {q: d}
            rejects(t, lambda: make(d), UnknownKeyError, op['bad'], 'construction with unknown key')
        elif k == 'badupdate':
            bad = True
            d = {op['bad']: op['v']}
            if s and op['str']:
                for q in s[::-1]:
                    d = {q: d}
            rejects(t, lambda: o.update(d), UnknownKeyError, op['bad'], 'update with unknown key')
        elif k == 'scalar' and s and not isinstance(op['v'], dict):
            bad = True
            rejects(t, lambda: o.__setitem__(s, op['v']), InvalidValueError, s[-1], 'scalar for subtree')
            d = op['v']
            for q in s[::-1]:
                d = {q: d}
            rejects(t, lambda: make(d), InvalidValueError, s[-1], 'construction with scalar for subtree')
            rejects(t, lambda: o.update(d), InvalidValueError, s[-1], 'update with scalar for subtree')
        elif k == 'leafpath' and p:
            bad = True
            for q in (p + ('a',), p + ('a', 'b')):
                rejects(t, lambda: o.__setitem__(q, op['v']), (UnknownKeyError, InvalidValueError), p[-1],
                        'path through a leaf')
                rejects(t, lambda: o[q], (UnknownKeyError, InvalidValueError), p[-1], 'get through a leaf')
        for n, (a, b) in enumerate(objs):
            pl = plain(a)
            if not eqv(pl, b):
                lvb, _ = paths(b)
                diff = []
                for q in lvb:
                    try:
                        if not eqv(get(pl, q), get(b, q)):
                            diff.append((q, get(pl, q), get(b, q)))
                    except Exception:
                        diff.append((q, 'missing', get(b, q)))
                t.check(False, 'after %s: object %d differs from the model at %s', k, n, diff[:3])
        t.check(eqv(dflt_of(), pristine), 'after %s: the defaults changed', k)
    # every leaf is reachable by tuple path and by chained indexing
    for a, b in objs:
        for q in lv:
            t.check(eqv(a[q], get(b, q)), 'path access %s', q)
            t.check(eqv(get(a, q), get(b, q)), 'chained access %s', q)
        t.check(isinstance(str(a), str), 'str()')
    new()
    t.check(eqv(plain(objs[-1][0]), pristine), 'a later object does not start from the defaults')
    t.nontrivial(changed and (bad or len(objs) > 2))
    t.label('pickled', any(o['op'] == 'pickle' for o in ops))


class Generic(ConstrainedDict):
    """Module-level so that it can be pickled."""
    defaults = {}


@CHECK.sub(histories(), quick=1600, shards=4)
def generic(c, t):
    """Histories over a randomly generated default tree."""
    tree = c['tree']
    Generic.defaults = copy.deepcopy(tree)
    run_history(t, Generic, lambda: Generic.defaults, tree, c['ops'])


@CHECK.sub(st.tuples(trees(), trees()).map(list), quick=500)
def compare_keys(c, t):
    """keycmp accepts exactly the trees without unknown keys or scalars in
    place of subtrees."""
    a, b = c

    def ref(a, b, pth=()):
        for k in b:
            if k not in a:
                return 'unknown', pth + (k,)
            if isinstance(a[k], dict):
                if not isinstance(b[k], dict):
                    return 'invalid', pth + (k,)
                r = ref(a[k], b[k], pth + (k,))
                if r:
                    return r
        return None
    want = ref(a, b)
    try:
        keycmp(a, b)
        got = None
    except UnknownKeyError as e:
        got = 'unknown', e.args[0]
    except InvalidValueError as e:
        got = 'invalid', e.args[0]
    t.nontrivial(want is not None)
    t.eq(None if got is None else (got[0], tuple(got[1])), want, 'keycmp')


def option_classes():
    out = {}
    for mi in pkgutil.walk_packages(sporco.__path__, 'sporco.'):
        if '.cupy' in mi.name or '.cuda' in mi.name or '.fista' in mi.name:
            continue
        try:
            mod = importlib.import_module(mi.name)
        except ImportError:
            continue
        for nm, cls in sorted(vars(mod).items()):
            if inspect.isclass(cls) and cls.__module__.startswith('sporco.') and \
                    isinstance(cls.__dict__.get('Options'), type):
                o = cls.Options
                if issubclass(o, ConstrainedDict):
                    out[cls.__module__ + '.' + cls.__qualname__] = o
    return out


CLASSES = option_classes()
NAMES = sorted(CLASSES)
# real trees of the classes as they are before any object is constructed
ALLDEF = dict((n, copy.deepcopy(CLASSES[n].defaults)) for n in NAMES)
METHODS = {}
for _n in NAMES:
    try:
        _p = inspect.signature(CLASSES[_n].__init__).parameters
    except (TypeError, ValueError):
        _p = {}
    if 'xmethod' in _p:
        METHODS[_n] = [('admm', 'ism'), ('admm', 'cg'), ('admm', 'cns'), ('admm', 'pgm'),
                       ('pgm', 'pgm'), ('pgm', 'cns'), (None, None)]
    elif 'method' in _p:
        METHODS[_n] = [('admm',), ('pgm',)]

# solver options nested in dictionary learning options: the constructor sets its own values
NESTED = ('CBPDN', 'CCMOD', 'BPDN', 'CMOD')
RLEAF = st.one_of(st.integers(0, 5), st.booleans(), st.floats(0, 2), st.text('xy', max_size=2))


def prune(d, drop=('fEvalX', 'gEvalY', 'AuxVarObj')):
    return dict((k, prune(v, ()) if isinstance(v, dict) else v) for k, v in d.items() if k not in drop)


def maker(name, meth):
    cls = CLASSES[name]
    if meth is None:
        return cls
    kw = dict(zip(('xmethod', 'dmethod'), meth))
    return lambda d=None: cls(d, **kw)


@st.composite
def realcases(draw):
    n = draw(st.sampled_from(NAMES))
    m = draw(st.sampled_from(METHODS[n])) if n in METHODS else None
    nops = draw(st.integers(2, 8))
    ops = [dict(op=draw(st.sampled_from(OPS)), i=draw(st.integers(0, 5)), j=draw(st.integers(0, 5)),
                p=draw(st.integers(0, 60)), s=draw(st.integers(0, 10)), v=draw(RLEAF),
                bad=draw(st.sampled_from(BADKEYS + ['Rho', 'maxmainiter', 'l1weight'])),
                str=draw(st.booleans()), sel=draw(st.lists(st.integers(0, 60), max_size=4)))
           for _ in range(nops)]
    others = draw(st.lists(st.sampled_from(NAMES), max_size=3))
    return dict(cls=n, meth=None if m is None else list(m), ops=ops, others=others)


class Linked(object):
    """View of an options object without the linked AuxVarObj trio."""


@CHECK.sub(realcases(), quick=1600, shards=4)
def solver_options(c, t):
    """Histories over the options classes of the library; no class's
    defaults change, whatever objects are constructed."""
    name = c['cls']
    make = maker(name, c['meth'])
    o = make()
    t.label(name.split('.')[-1])
    tree = plain(o)
    dflt = ALLDEF[name]
    # the object holds a value for every documented (default) option
    lv, sb = paths(dflt)
    for q in lv:
        t.check(q[0] in tree, 'option %s missing', q)
        try:
            v = get(tree, q)
        except (KeyError, TypeError):
            t.check(False, 'option %s missing', q)
        t.check(get(dflt, q) is None or q[0] in NESTED or eqv(v, get(dflt, q)), 'option %s is %r, default %r', q, v, get(dflt, q))
    # history, on the options that are independent of each other
    linked = 'AuxVarObj' in tree or any('AuxVarObj' in tree.get(s, {}) for s in ('CBPDN', 'CCMOD', 'BPDN', 'CMOD'))
    skip = ('AuxVarObj', 'fEvalX', 'gEvalY') if linked else ()
    lv, sb = paths(tree)
    lvok = [q for q in lv if q[-1] not in skip]
    # default tree as seen by the object's own class (method dependent parts included)
    ops = []
    for op in c['ops']:
        op = dict(op)
        op['p'] = lv.index(lvok[op['p'] % len(lvok)])
        if op['op'] in ('new', 'newfrom', 'update'):
            d = {}
            for q in op['sel']:
                q = lvok[q % len(lvok)]
                e = d
                for k in q[:-1]:
                    e = e.setdefault(k, {})
                e[q[-1]] = op['v']
            op['d'] = d
        if op['op'] == 'subupdate' and sb:
            op['op'] = 'set'
        if isinstance(op['v'], dict):
            op['v'] = 1
        ops.append(op)
    run_history(t, make, lambda: tree, tree, ops)
    for n in c['others']:
        CLASSES[n]()
        if n in METHODS:
            for m in METHODS[n][:3]:
                maker(n, m)()
    for n in NAMES:
        t.check(eqv(CLASSES[n].defaults, ALLDEF[n]), 'defaults of %s changed', n)
    t.check(eqv(plain(make()), tree), 'a later object differs from the first')


IMPORTER = r'''
import builtins, copy, sys, json, warnings, importlib
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1])
orig = builtins.__build_class__
snap = []
def build(func, name, *bases, **kw):
    cls = orig(func, name, *bases, **kw)
    try:
        d = cls.__dict__.get('defaults')
    except Exception:
        d = None
    if isinstance(d, dict):
        snap.append((cls, cls.__module__ + '.' + cls.__qualname__, copy.deepcopy(d)))
    return cls
builtins.__build_class__ = build
def show(d):
    return {k: show(v) if isinstance(v, dict) else
            (repr(v) if isinstance(v, (int, float, str, type(None), bool, tuple, list)) else type(v).__name__)
            for k, v in d.items()}
for m in sys.argv[2:]:
    importlib.import_module(m)
out = {}
bad = []
for cls, nm, d in snap:
    out[nm] = show(cls.__dict__['defaults'])
    if show(d) != out[nm]:
        bad.append(nm)
print(json.dumps(dict(defaults=out, changed=bad)))
'''
MODULES = sorted(set(CLASSES[n].__module__ for n in NAMES))
BASELINE = {}


def import_defaults(mods):
    import subprocess
    import json
    from vlib.core import REPO
    r = subprocess.run([sys.executable, '-c', IMPORTER, REPO] + mods, capture_output=True, text=True,
                       timeout=300)
    if r.returncode:
        raise RuntimeError(r.stderr[-500:])
    return json.loads(r.stdout.strip().splitlines()[-1])


@CHECK.sub(st.permutations(MODULES).flatmap(
    lambda p: st.integers(1, len(p)).map(lambda n: list(p[:n]))), quick=16, thorough=100, shards=4)
def import_order(c, t):
    """The defaults of a class are not altered by defining or importing
    other classes, in any import order."""
    r = import_defaults(c)
    t.check(not r['changed'], 'defaults changed after class definition: %s', r['changed'])
    if not BASELINE:
        BASELINE.update(import_defaults(MODULES)['defaults'])
    t.nontrivial(len(c) > 1)
    for n, d in r['defaults'].items():
        t.check(n in BASELINE and BASELINE[n] == d, 'defaults of %s depend on what else is imported', n)


def shown(d):
    return {k: shown(v) if isinstance(v, dict) else
            (repr(v) if isinstance(v, (int, float, str, type(None), bool, tuple, list)) else type(v).__name__)
            for k, v in d.items()}


@st.composite
def nooptcase(draw):
    from vlib import solvers as sv, tvm, dupd, densem, dlm
    which = draw(st.sampled_from(['conv', 'conv', 'conv', 'tvd', 'dup', 'dense', 'learn', 'learn']))
    if which == 'conv':
        c = draw(sv.case([k for k in sv.ALL if k not in sv.WRAP], maxN=(8, 4, 3)))
    elif which == 'tvd':
        c = draw(tvm.case())
    elif which == 'dup':
        c = draw(dupd.case())
    elif which == 'dense':
        c = draw(densem.case())
    else:
        c = draw(dlm.case())
    return dict(which=which, c=c)


@CHECK.sub(st.fixed_dictionaries({'w': nooptcase(), 'n': st.integers(1, 3)}), quick=600, shards=6, budget=10)
def omitted(case, t):
    """A solver constructed without an options object behaves as one given an
    options object constructed without arguments."""
    import io
    import contextlib
    from vlib import solvers as sv, tvm, dupd, densem, dlm
    from vlib.statm import grab
    w, c = case['w'], case['w']['c']
    M = {'conv': sv, 'tvd': tvm, 'dup': dupd, 'dense': densem, 'learn': dlm}[w['which']].Model
    m = M(c)
    out = []
    try:
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            for o in ('none', 'default'):
                if w['which'] == 'learn':
                    if m.par and c['seed'] % 6:
                        m.c['nproc'] = 0
                    b = m.make(None, opt=o)
                else:
                    b = m.make(o)
                b.opt['Verbose'] = False
                if w['which'] == 'learn' and m.kind in dlm.ONLINE:
                    R = [m.feed(b, m.S, m.W) for _ in range(case['n'])]
                else:
                    b.opt['MaxMainIter'] = case['n']
                    R = b.solve()
                R = [np.array(x, copy=True) for x in (R if isinstance(R, (tuple, list)) else [R])]
                its = b.getitstat()
                out.append((b, R, its))
    except ValueError as e:
        if 'xmethod' in str(e):
            raise
        t.skip('default options not applicable: %s' % e)
    (b0, R0, i0), (b1, R1, i1) = out
    what = type(b0).__name__
    t.eq(type(b0), type(b1), what + ': type of the solver')
    t.eq(shown(dict(b0.opt)), shown(dict(b1.opt)), what + ': options in force')
    for x, y in zip(R0, R1):
        t.same(x, y, what + ': result')
    t.eq(i0._fields, i1._fields, what + ': fields')
    for f in i0._fields:
        if f != 'Time':
            a = [repr(v) for v in getattr(i0, f)], [repr(v) for v in getattr(i1, f)]
            t.eq(a[0], a[1], '%s: statistic %s' % (what, f))
    t.label(m.kind)
    t.nontrivial(any(np.any(x) for x in R0))
