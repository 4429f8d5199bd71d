"""Objects named by module and object name."""
import itertools
import os
import sys

from mc.core import Mismatch, check
from mc.pdpcheck import base, shard

BODY = '''
class Base(object):
    def __init__(self, *args, **kw):
        self.where, self.args, self.kw = WHERE, args, kw


class Derived(Base):
    class Inner(Base):
        class Most(Base):
            pass


class Failing(Base):
    def __init__(self, *args, **kw):
        raise LookupError('made')


def function(*args, **kw):
    return (WHERE, args, kw)


def nothing():
    return None


number = 5
text = 'mod'
none = None
'''
OBJECTS = {'Base': {}, 'Derived': {'Inner': {'Most': {}}}, 'Failing': {},
           'function': {}, 'nothing': {}, 'number': {}, 'text': {}, 'none': {}}
BROKEN = {'syntax': 'class A(:\n', 'importing': 'import mc_no_such_module\n',
          'raising': 'raise KeyError("x")\n', 'deleting': 'del no_such_name\n'}


class World(object):
    """Modules in directories, two of them on the search path."""

    def __init__(self, ctx):
        self.top = os.path.join(ctx.scratch, 'c23')
        self.dirs = {}
        n = 'mcn'
        for d, mods in (
                ('on', [n + 'a', n + 'p.', n + 'p.mod', n + 'p.sub.',
                        n + 'p.sub.deep', n + 'p.sub.mod', n + 'shadow']),
                ('off', [n + 'b', n + 'q.', n + 'q.mod', n + 'a', n + 'shadow'] +
                 [n + k for k in BROKEN]),
                ('off2', [n + 'c', n + 'b'])):
            self.dirs[d] = os.path.join(self.top, d)
            for m in mods:
                parts = m.rstrip('.').split('.')
                path = os.path.join(self.dirs[d], *parts[:-1])
                if m.endswith('.'):
                    path = os.path.join(path, parts[-1])
                    f = os.path.join(path, '__init__.py')
                else:
                    f = os.path.join(path, parts[-1] + '.py')
                os.makedirs(path, exist_ok=True)
                with open(f, 'w') as o:
                    o.write(BROKEN.get(m[len(n):]) or 'WHERE = %r\n%s' % (
                        d + ':' + m.rstrip('.'), BODY))
        self.prefix = n
        self.modules = {}
        self.path = list(sys.path)
        self.reset()

    def reset(self):
        for m in list(sys.modules):
            if m.startswith(self.prefix):
                del sys.modules[m]
        sys.path[:] = self.path + [self.dirs['on']]
        self.loaded = {}

    def close(self):
        self.reset()
        sys.path[:] = self.path


NAMES = ['mcna', 'mcnp', 'mcnp.mod', 'mcnp.sub', 'mcnp.sub.deep', 'mcnp.sub.mod',
         'mcnshadow']
# directory a module is found in, given those searched in order
WHERE = {'on': set(NAMES), 'off': {'mcnb', 'mcnq', 'mcnq.mod', 'mcna',
                                   'mcnshadow'}, 'off2': {'mcnc', 'mcnb'}}


def search(loaded, mod, dirs):
    """Directory the module comes from; None if there is none."""
    top = mod.split('.')[0]
    if top in loaded:
        d = loaded[top]
        return d if mod in WHERE[d] else None
    for d in dirs:
        if top in WHERE[d]:
            return d if mod in WHERE[d] else None
    return None


def resolve(name, obj, loaded, dirs):
    """('ok', dir, module, object path) or 'error'; modules loaded meanwhile."""
    if obj is None:
        if ':' in name:
            mod, o = name.rsplit(':', 1)
            path = o.split('.')
        elif '.' in name:
            mod, o = name.rsplit('.', 1)
            path = [o]
        else:
            return 'error'
    else:
        mod, path = name, [obj]
    d = search(loaded, mod, dirs)
    if d is None:
        return 'error'
    tree = OBJECTS
    for i, p in enumerate(path):
        if p not in tree:
            return 'error'
        tree = tree[p]
    return ('ok', d, mod, path)


def the_object(world, want):
    o = sys.modules[want[2]]
    check(o.WHERE == '%s:%s' % (want[1], want[2]), 'module', want, o.WHERE)
    for p in want[3]:
        o = getattr(o, p)
    return o


def note(world, name, obj, dirs):
    """Top level modules that got loaded."""
    for top in ('mcna', 'mcnp', 'mcnb', 'mcnq', 'mcnc', 'mcnshadow'):
        if top in sys.modules and top not in world.loaded:
            world.loaded[top] = sys.modules[top].WHERE.split(':')[0]


PATHS = [['Base'], ['Derived'], ['Derived', 'Inner'],
         ['Derived', 'Inner', 'Most'], ['function'], ['number'], ['none'],
         ['text'], ['missing'], ['base'], ['Base '], ['Derived', 'missing'],
         ['Inner'], ['Derived', 'Inner', 'Base'], ['WHER'], ['']]


def spellings():
    """(name, object name) of every kind."""
    for m in NAMES + ['mcnb', 'mcnnone', 'mcnp.none', 'mcna.mod', 'mcnp.sub.none',
                      'mcnp.mod.sub']:
        for p in PATHS:
            yield m + ':' + '.'.join(p), None
            if len(p) == 1:
                yield m + '.' + p[0], None
                yield m, p[0]
    for s in ('mcna', 'Base', 'mcna.', '.mcna', ':Base', 'mcna:', '', '.', ':',
              'mcna Base', 'mcna/Base', 'mcna::Base', 'mcna..Base'):
        yield s, None


def tried(fn, *args, **kw):
    try:
        return ('ok', fn(*args, **kw))
    except Exception as e:
        return ('error', e)


def names(ctx, job):
    from ndg.xacml.utils.factory import importModuleObject, callModuleObject
    world = World(ctx)
    try:
        for name, obj in spellings():
            ctx.case('%r %r' % (name, obj), named, ctx, world, name, obj,
                     importModuleObject, callModuleObject)
    finally:
        world.close()


def named(ctx, world, name, obj, imp, call):
    for warm in (False, True):
        if not warm:
            world.reset()
        want = resolve(name, obj, {}, ['on'])
        got = tried(imp, name, obj)
        if want == 'error':
            check(got[0] == 'error', 'object for (%r, %r)' % (name, obj), 'error',
                  repr(got[1]))
            ctx.outcome('error')
        else:
            check(got[0] == 'ok', 'refused: %r' % (got[1],), want, 'error')
            check(got[1] is the_object(world, want), 'object for (%r, %r)' % (
                name, obj), want, repr(got[1]))
            typed(ctx, world, name, obj, imp, call, got[1])
            ctx.outcome('found')
        ctx.step()
    ctx.state()


def typed(ctx, world, name, obj, imp, call, o):
    """Base classes demanded."""
    m = sys.modules['mcna'] if 'mcna' in sys.modules else None
    own = [x for x in (getattr(m, 'Base', None), getattr(m, 'Derived', None),
                       sys.modules.get('mcnp') and sys.modules['mcnp'].Base)
           if x] + [object, dict, type]
    if isinstance(o, type):
        own += list(o.__mro__)
    for b in own:
        ok = isinstance(o, type) and issubclass(o, b)
        got = tried(imp, name, obj, b)
        if ok:
            check(got == ('ok', o), 'object of type %r' % b, repr(o),
                  repr(got[1]))
        else:
            check(got[0] == 'error' and isinstance(got[1], TypeError),
                  '%r as %r' % (o, b), 'TypeError', repr(got[1]))
            got = tried(call, name, obj, None, b)
            check(got[0] == 'error' and isinstance(got[1], TypeError),
                  '%r called as %r' % (o, b), 'TypeError', repr(got[1]))
        ctx.step()


# -- calling ---------------------------------------------------------------------
ARGS = [None, (), [], ('a',), ['a', 0], (None,), ((),), ({},)]
PROPS = [None, {}, {'a': 1}, {'x': None, 'y': {}}]


def calls(ctx, job):
    from ndg.xacml.utils.factory import callModuleObject
    world = World(ctx)
    try:
        for mod, path, a, p in itertools.product(
                ('mcna', 'mcnp.sub.deep'), PATHS[:6] + [['Failing'], ['nothing']],
                ARGS, PROPS):
            ctx.case('%s %s %r %r' % (mod, path, a, p), called, ctx, world, mod,
                     path, a, p, callModuleObject)
    finally:
        world.close()


def called(ctx, world, mod, path, a, p, call):
    world.reset()
    before = repr((a, p))
    for _ in range(2):
        got = tried(call, mod + ':' + '.'.join(path), objectArgs=a,
                    objectProperties=p)
        where = 'on:' + mod
        args, kw = tuple(a or ()), dict(p or {})
        if path == ['number'] or path == ['nothing'] and (args or kw):
            check(got[0] == 'error', 'call of something not callable so',
                  'error', got[1])
        elif path == ['Failing']:
            check(got[0] == 'error' and isinstance(got[1], LookupError),
                  'exception of the call', 'LookupError', got[1])
        elif path == ['nothing']:
            check(got == ('ok', None), 'result', None, got[1])
        else:
            check(got[0] == 'ok', 'refused: %r' % (got[1],))
            o = got[1]
            if path == ['function']:
                check(o == (where, args, kw), 'call of a function', (where, args,
                                                                     kw), o)
            else:
                cls = sys.modules[mod]
                for x in path:
                    cls = getattr(cls, x)
                check(type(o) is cls and (o.where, o.args, o.kw) == (
                    where, args, kw), 'object made', (where, args, kw),
                      (type(o).__name__, o.where, o.args, o.kw))
        check(repr((a, p)) == before, 'arguments changed', before, repr((a, p)))
        ctx.step()
    ctx.outcome(got[0])
    ctx.state()


# -- directories -----------------------------------------------------------------
def operations(world):
    d = dict(world.dirs, none=None, empty='', missing=os.path.join(
        world.top, 'nowhere'))
    for mod in ('mcna', 'mcnb', 'mcnq.mod', 'mcnc', 'mcnshadow', 'mcnsyntax',
                'mcnimporting', 'mcnraising', 'mcndeleting', 'mcnnone'):
        for k in ('none', 'off', 'off2', 'missing', 'empty'):
            yield mod, 'function', k, d[k]
    yield 'mcnb', 'missing', 'off', d['off']
    yield 'mcnb', 'Failing', 'off', d['off']
    yield 'mcnb', 'Failing', 'off2', d['off2']


def directories(ctx, job):
    from ndg.xacml.utils.factory import callModuleObject
    world = World(ctx)
    try:
        ops = list(operations(world))
        n = 3 if ctx.thorough else 2
        for i, h in enumerate(shard((h for k in range(1, n + 1) for h in
                                     itertools.product(ops, repeat=k)), job)):
            ctx.case(' '.join('%s.%s@%s' % o[:3] for o in h), history, ctx, world,
                     h, callModuleObject, False)
        for o in ops:
            ctx.case('empty path %s.%s@%s' % o[:3], history, ctx, world, [o],
                     callModuleObject, True)
    finally:
        world.close()


def history(ctx, world, h, call, empty):
    world.reset()
    home = sys.path
    try:
        for mod, obj, k, path in h:
            if empty:
                sys.path[:] = []
            before = list(sys.path)
            got = tried(call, mod + '.' + obj, moduleFilePath=path,
                        objectArgs=['x'])
            check(list(sys.path) == before, 'module search path', before,
                  list(sys.path))
            dirs = ['on'] if not empty else []
            if path:
                dirs.append(k)
            if k == 'missing':
                check(got[0] == 'error' and isinstance(got[1], OSError),
                      'missing directory', 'OSError', repr(got[1]))
                ctx.outcome('missing')
                continue
            want = resolve(mod, obj, world.loaded, dirs) if obj != 'missing' \
                else 'error'
            if want == 'error' or obj == 'Failing':
                check(got[0] == 'error', 'result of %s.%s' % (mod, obj), 'error',
                      repr(got[1]))
            else:
                w = ('%s:%s' % (want[1], mod), ('x',), {})
                check(got == ('ok', w), 'result of %s.%s' % (mod, obj), w,
                      repr(got[1]))
            note(world, mod, obj, dirs)
            ctx.outcome(got[0])
            ctx.step()
    finally:
        sys.path = home
    ctx.state()


def run(ctx):
    globals()[base(ctx.job)](ctx, ctx.job)
