"""The XML library in use is the one chosen, and which one it is makes no
difference.

Run as a program (`c26.py CHOICE PART SHARD TIER OUT`) this is one interpreter
with one choice made, that writes what it sees; the jobs compare them."""
import io
import itertools
import json
import os
import subprocess
import sys

if __name__ == '__main__':
    # this file is a module of the package mc
    sys.path[0] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from mc import build
from mc.core import Mismatch, check
from mc.pdpcheck import base, shard

VENV = {'with': '/opt/venv/bin/python', 'without': '/opt/venv-nolxml/bin/python'}
CHOICES = {'None': None, 'True': True, 'False': False}
# (interpreter with or without lxml, choice) -> library that must be used
EXPECT = {('with', 'None'): 'lxml', ('with', 'True'): 'lxml',
          ('with', 'False'): 'xml', ('without', 'None'): 'xml',
          ('without', 'False'): 'xml', ('without', 'True'): None}


def package_modules():
    """Every module of the package, tests left out."""
    root = os.path.join(os.environ['MC_REPO'], 'ndg')
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in sorted(dirs) if x not in ('test', '__pycache__')]
        rel = os.path.relpath(d, os.path.dirname(root)).split(os.sep)
        if rel == ['ndg']:
            continue
        for f in sorted(files):
            if f == '__init__.py':
                out.append('.'.join(rel))
            elif f.endswith('.py'):
                out.append('.'.join(rel + [f[:-3]]))
    return sorted(out)


def start(have, choice, part, arg, tier, out):
    env = dict(os.environ)
    return subprocess.Popen(
        [VENV[have], os.path.abspath(__file__), choice, part, arg, tier, out],
        env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
        stderr=subprocess.PIPE)


def finish(p, out):
    err = p.communicate()[1].decode('utf-8', 'replace')
    if p.returncode != 0:
        raise Mismatch('a program that uses the package failed', 0, err[-600:])
    with open(out) as f:
        return json.load(f)


# -- which library is used ------------------------------------------------------------
def choice_job(ctx, job):
    """Each module of the package imported first, then all the others."""
    mods = package_modules()
    for have, choice in sorted(EXPECT):
        some = mods if ctx.thorough or (have, choice) in (
            ('with', 'None'), ('with', 'False')) else mods[::6]
        for m in shard(some, job):
            ctx.case('%s lxml, %s, %s first' % (have, choice, m), chosen, ctx,
                     have, choice, m)


def chosen(ctx, have, choice, first):
    out = os.path.join(ctx.scratch, 'chosen.json')
    got = finish(start(have, choice, 'import', first, ctx.tier, out), out)
    want = EXPECT[have, choice]
    if want is None:
        check(got['error'] in ('ImportError', 'ModuleNotFoundError'),
              'importing %s although lxml is not there' % first, 'ImportError',
              got)
        ctx.outcome('refused')
    else:
        check(got['error'] is None, 'importing ' + first, None, got['error'])
        check(got['config'] is (want == 'lxml'), 'Config.use_lxml', want == 'lxml',
              got['config'])
        for m, lib in got['libs'].items():
            check(lib == want, 'library that %s uses' % m, want, lib)
        check(len(got['libs']) > 2, 'modules that use a library', '>2', got)
        if want == 'xml':
            check(not got['loaded'], 'lxml was imported', False, True)
        check(got['element'] == want, 'library of the elements written', want,
              got['element'])
        ctx.outcome(want)
    ctx.step()
    ctx.state()


def import_part(choice, first, tier):
    import importlib
    import ndg.xacml
    ndg.xacml.Config.use_lxml = CHOICES[choice]
    out = dict(error=None)
    try:
        importlib.import_module(first)
        used = ndg.xacml.Config.use_lxml
        for m in package_modules():
            importlib.import_module(m)
        if used is None:
            used = ndg.xacml.Config.use_lxml
    except Exception as e:
        # modules that don't need a library can be imported all the same
        out['error'] = type(e).__name__
        return out
    out['config'] = ndg.xacml.Config.use_lxml
    out['loaded'] = any(m == 'lxml' or m.startswith('lxml.') for m in sys.modules)
    out['libs'] = dict((n, m.ElementTree.__name__.split('.')[0])
                       for n, m in sorted(sys.modules.items())
                       if n.startswith('ndg.xacml') and hasattr(m, 'ElementTree'))
    r = build.o_request(next(request_docs()))
    e = build.lib().RequestElementTree.toXML(r)
    out['element'] = 'lxml' if type(e).__module__.startswith('lxml') else 'xml'
    return out


# -- histories of choices in one process -------------------------------------------------
OPS = ('unset', 'lxml', 'standard', 'import', 'hide', 'show', 'break',
       'empty')


def history_job(ctx, job):
    for n in range(1, (6 if ctx.thorough else 5)):
        for h in shard(itertools.product(OPS, repeat=n), job):
            if h[-1] != 'import':
                continue
            ctx.case(' '.join(h), history, ctx, h)


def history(ctx, h):
    import ndg.xacml as X
    real = dict((k, v) for k, v in sys.modules.items()
                if k == 'lxml' or k.startswith('lxml.'))
    there = importable()
    old = X.Config.use_lxml
    conf, vis = None, there
    X.Config.use_lxml = None
    try:
        for op in h:
            if op == 'unset':
                X.Config.use_lxml = conf = None
            elif op in ('lxml', 'standard'):
                X.Config.use_lxml = conf = op == 'lxml'
            elif op == 'hide':
                sys.modules['lxml'] = None
                vis = False
            elif op == 'break':
                # the package is there, but its module can't be imported
                sys.modules['lxml'] = type(sys)('lxml')
                sys.modules['lxml'].__path__ = []
                sys.modules['lxml.etree'] = None
                vis = False
            elif op == 'empty':
                # a module of that name without the one that is needed
                sys.modules.pop('lxml.etree', None)
                sys.modules['lxml'] = type(sys)('lxml')
                vis = False
            elif op == 'show':
                for k in ('lxml', 'lxml.etree'):
                    sys.modules.pop(k, None)
                sys.modules.update(real)
                vis = there
            else:
                if conf is None:
                    conf = vis
                want = 'error' if conf and not vis else \
                    'lxml.etree' if conf else 'xml.etree.ElementTree'
                try:
                    got = X.importElementTree().__name__
                except ImportError:
                    got = 'error'
                check(got == want, 'imported', want, got)
                check(X.Config.use_lxml is conf, 'choice afterwards', conf,
                      X.Config.use_lxml)
                ctx.step()
        ctx.state()
        ctx.outcome(want)
    finally:
        X.Config.use_lxml = old
        for k in ('lxml', 'lxml.etree'):
            sys.modules.pop(k, None)
        sys.modules.update(real)


def importable():
    try:
        from lxml import etree
    except ImportError:
        return False
    return True


# -- the same results ---------------------------------------------------------------------
PARTS = ('policies', 'requests', 'inserted', 'selected', 'written', 'decided')
CONFIGS = [c for c in sorted(EXPECT) if EXPECT[c]]


def agree_job(ctx, job):
    n = int(job.split('/')[1])
    i = int(job.split(':')[1].split('/')[0])
    for part in PARTS:
        outs = []
        for have, choice in CONFIGS:
            if (have, choice) in (('with', 'True'), ('without', 'False')) and (
                    not ctx.thorough and i):
                continue
            out = os.path.join(ctx.scratch, '%s-%s-%s.json' % (part, have, choice))
            outs.append(((have, choice), out,
                         start(have, choice, part, '%d/%d' % (i, n), ctx.tier, out)))
        res = []
        for c, out, p in outs:
            try:
                res.append((c, finish(p, out)))
            except Mismatch as e:
                ctx.case('%s %s' % (part, c), fail, e)
            else:
                os.remove(out)
        for c, r in res[1:]:
            ctx.case('%s: same cases' % part, same_keys, sorted(res[0][1]),
                     sorted(r))
        for k in sorted(res[0][1] if res else ()):
            ctx.case('%s %s' % (part, k), same, ctx, k, res)


def fail(e):
    raise e


def same_keys(a, b):
    check(a == b, 'cases', len(a), len(b))


def same(ctx, k, res):
    for c, r in res:
        if isinstance(r.get(k), dict):
            check(r[k]['malformed'] == 'refused', 'malformed document')
    if any(isinstance(r.get(k), dict) for c, r in res):
        ctx.step()
        ctx.state()
        ctx.outcome('malformed')
        return
    want = None
    for c, r in res:
        if want is None:
            want = r[k]
        check(r[k] == want, 'with lxml %s and the choice %s, against lxml %s and '
              'the choice %s' % (('present', 'absent')[c[0] == 'without'], c[1],
                                 ('present', 'absent')[res[0][0][0] == 'without'],
                                 res[0][0][1]), want, r[k])
        ctx.step()
    ctx.state()
    ctx.outcome('refused' if want == 'refused' else 'read')


def sharded_(it, arg):
    i, n = map(int, arg.split('/'))
    return itertools.islice(it, i, None, n)


def load_policy(data):
    L = build.lib()
    from mc.c25 import described
    try:
        pdp = L.PDP.fromPolicySource(io.BytesIO(data), L.ReaderFactory,
                                     L.LocalPolicyFinder())
    except Exception:
        return 'refused', None
    return repr((build.a_policy(pdp.policy), described(pdp.policy))), pdp


def load_request(data):
    L = build.lib()
    from mc.c25 import request
    try:
        r = L.RequestElementTree.fromXML(L.ET.fromstring(data))
    except Exception:
        return 'refused', None
    return repr(request(r)[:4]), r


def mutated(doc, muts):
    d = doc.copy()
    where = [d.at(p) for p, _ in muts]
    try:
        for x, (_, fn) in reversed(list(zip(where, muts))):
            fn(x)
    except (IndexError, AttributeError):
        return None
    d = d.copy()
    if any(len(dict(x.attrs)) < len(x.attrs) for _, x in d.walk()):
        return None
    return d


def policies_part(arg, tier):
    from mc import c09
    k = 0
    for name, doc in c09.bases():
        for mname, path, fn in sharded_(c09.mutations(doc), arg):
            k += 1
            d = mutated(doc, [(path, fn)])
            if d is None:
                continue
            for j in range(15 if tier == 'thorough' else 1):
                st = build.STYLES[(k + j) % 15]
                try:
                    data = build.to_bytes(d, st)
                except UnicodeEncodeError:
                    continue
                yield '%s %s %s' % (name, mname, st.name), load_policy(data)[0]


def requests_part(arg, tier):
    from mc import c13
    k = 0
    for name, doc, muts in sharded_(c13.todo(tier == 'thorough'), arg):
        k += 1
        if tier != 'thorough' and len(muts) > 1 and k % 3:
            continue
        d = mutated(doc, muts)
        if d is None:
            continue
        st = build.STYLES[k % 15]
        yield '%s %s' % (name, st.name), load_request(
            build.to_bytes(d, st, build.CONTEXT_NS))[0]


def request_docs():
    from mc.c13 import docs
    for _, r in docs():
        yield r


PIECES = [b'<!--c-->', b'<!---->', b'<?p?>', b'<?p d?>', b'<![CDATA[]]>',
          b'<![CDATA[c]]>', b'<![CDATA[ ]]>', b' ', b'\n', b'\r', b'\t',
          b'&#32;', b'&#160;', b'\xc2\xa0', b'z', b'&amp;', b'&lt;', b'&e;',
          b'&n;', b'&u;', b'<z/>', b'<x:z xmlns:x="urn:z"/>', b'<z>z</z>',
          b'<!--a--><!--b-->', b'z<!--c-->z', b'&#0;', b'&', b'<', b'>', b'"',
          b']]>', b'\xff', b'\xef\xbb\xbf', b'\x00', b'<!DOCTYPE z>', b'</z>',
          b'<?xml version="1.0"?>', b' z="z"', b' xmlns="urn:z"',
          b' xml:space="preserve"', b' xml:lang="en"', b' x:z="z"', b'z:']
DTD = (b'<!DOCTYPE d [<!ENTITY e "z"><!ENTITY n "<z/>"><!ENTITY a "&#38;">'
       b'<!ATTLIST AttributeValue DataType CDATA "q">]>\n')


def inserted_part(arg, tier):
    """Pieces of text put at every place of a document."""
    from mc import c09
    docs = [('policy', build.to_bytes(d), load_policy)
            for n, d in c09.bases() if n in ('policy', 'bare')]
    docs += [('request', build.to_bytes(build.request_node(r), build.PLAIN,
                                        build.CONTEXT_NS), load_request)
             for r in list(request_docs())[:2]]
    n = 0
    for d, (kind, data, load) in enumerate(docs):
        places = [i for i in range(len(data) + 1)
                  if i == 0 or data[i - 1:i] in b'<>"/ ' or
                  data[i:i + 1] in b'<>"/ ' or i % 9 == 0]
        for dtd in (b'', DTD):
            for i, p in sharded_(itertools.product(places, PIECES), arg):
                n += 1
                if tier != 'thorough' and n % 6:
                    continue
                x = dtd + data[:i] + p + data[i:]
                got = load(x)[0]
                if not well_formed(x):
                    # the libraries themselves differ a little here
                    got = 'refused' if got == 'refused' else 'read malformed'
                    got = {'malformed': got}
                yield '%s %d %d %r at %d' % (kind, d, len(dtd), p, i), got


def well_formed(data):
    try:
        build.lib().ET.fromstring(data)
    except Exception:
        return False
    return True


def selected_part(arg, tier):
    from mc import c14
    one, two = c14.allpaths(True)
    ps = one + (two if tier == 'thorough' else two[::23])
    for i, (name, t) in enumerate(sharded_(c14.trees(tier == 'thorough'), arg)):
        st = c14.STY[i % 6]
        ns = spec_ns(st)
        r, root = c14.parsed(c14.request_of(t), st)
        out = []
        for p in ps:
            if c14.texts_of(root, p) is not None:
                out.append(sorted(r.attributeSelector.selectText(
                    c14.write(p, i % 3, ns))))
        yield '%s %s' % (name, st.name), out


def spec_ns(st):
    from mc import c14
    return c14.NS if st.ns else ''


def names(e):
    return [e.tag, sorted(e.attrib.items()), e.text or '',
            [names(c) for c in e if isinstance(c.tag, str)]]


def written_part(arg, tier):
    from mc import c13, c21
    from ndg.xacml.utils.etree import prettyPrint
    L = build.lib()
    for i, r in sharded_(enumerate(c13.requests()), arg):
        if i % 10:
            # one without action or environment can't be written
            r = c21.writable(r)
        if tier != 'thorough' and i % 5:
            continue
        for kind, o in (('by hand', build.o_request(r)),
                        ('read', build.x_request(r))):
            key = '%d %s %s' % (i, kind, repr(r)[:60])
            try:
                e = L.RequestElementTree.toXML(o)
            except Exception:
                yield key, 'refused'
                continue
            b = L.ET.tostring(e)
            yield key, [names(L.ET.fromstring(b)), load_request(b)[0]]
            b = prettyPrint(e)
            yield key + ' pretty', names(L.ET.fromstring(b))
    from mc.c25 import results
    for j, (name, mk) in sharded_(enumerate(results()), arg):
        for n in (0, 1, 2):
            o = L.Response()
            o.results.extend(mk() for _ in range(n))
            try:
                b = L.ET.tostring(L.ResponseElementTree.toXML(o))
            except Exception:
                yield '%s x %d' % (name, n), 'refused'
            else:
                yield '%s x %d' % (name, n), names(L.ET.fromstring(b))


def decided_part(arg, tier):
    from mc.c25 import policies, decide_requests
    reqs = list(decide_requests())
    for i, p in sharded_(enumerate(policies()), arg):
        st = build.STYLES[i % 15]
        try:
            pdp = build.x_pdp(p, st)
        except Exception:
            yield '%d %s' % (i, repr(p)[:60]), 'refused'
            continue
        out = []
        for k, r in enumerate(reqs):
            o = build.x_request(r, build.STYLES[(i + k) % 15])
            o.attributeSelector = build.lib().EtreeXPathSelector(o.elem)
            out.append(build.decision_of(pdp.evaluate(o)))
        yield '%d %s' % (i, repr(p)[:60]), ''.join(out)


def run(ctx):
    globals()[base(ctx.job) + '_job'](ctx, ctx.job)


def main():
    choice, part, arg, tier, out = sys.argv[1:]
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    if part == 'import':
        res = import_part(choice, arg, tier)
    else:
        import ndg.xacml
        ndg.xacml.Config.use_lxml = CHOICES[choice]
        res = dict(globals()[part + '_part'](arg, tier))
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
