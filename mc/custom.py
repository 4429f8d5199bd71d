"""Custom functions registered with the library under test, mirrored in the
reference model (spec.CUSTOM)."""
from mc import build, spec

NS = 'urn:mc:function:'


def register(name, impl, model):
    """impl(*library objects) -> anything; model(*model values) -> value."""
    L = build.lib()
    fid = NS + name

    class Fn(L.AbstractFunction):
        FUNCTION_NS = fid

        def evaluate(self, *inputs):
            return impl(*inputs)
    L.functionMap.load_custom_function(fid, lambda identifier: Fn)
    spec.CUSTOM[fid] = model
    return fid


def fail(*args):
    raise spec.Fail('injected')


def raiser(exc):
    def impl(*args):
        raise exc()
    return impl


class Odd(Exception):
    pass


def exceptions():
    from ndg.xacml.core.context import exceptions as e
    from ndg.xacml.core.functions import (UnsupportedFunctionError,
                                          UnsupportedStdFunctionError)
    from ndg.xacml.parsers import XMLParseError
    from ndg.xacml import XacmlError
    return [
        ('ValueError', lambda: ValueError('x')),
        ('TypeError', lambda: TypeError('x')),
        ('KeyError', lambda: KeyError('x')),
        ('IndexError', lambda: IndexError('x')),
        ('AttributeError', lambda: AttributeError('x')),
        ('ZeroDivisionError', lambda: ZeroDivisionError('x')),
        ('AssertionError', lambda: AssertionError('x')),
        ('RuntimeError', lambda: RuntimeError('x')),
        ('RecursionError', lambda: RecursionError('x')),
        ('NotImplementedError', lambda: NotImplementedError('x')),
        ('OSError', lambda: OSError(5, 'x')),
        ('TimeoutError', lambda: TimeoutError('x')),
        ('MemoryError', lambda: MemoryError()),
        ('SyntaxError', lambda: SyntaxError('x')),
        ('StopIteration', lambda: StopIteration()),
        ('EOFError', lambda: EOFError('x')),
        ('NameError', lambda: NameError('x')),
        ('OverflowError', lambda: OverflowError('x')),
        ('UserWarning', lambda: UserWarning('x')),
        ('UnicodeError', lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'x')),
        ('ImportError', lambda: ImportError('x')),
        ('LookupError', lambda: LookupError()),
        ('Exception', lambda: Exception()),
        ('Odd', lambda: Odd('x', 2)),
        ('XacmlContextError', lambda: e.XacmlContextError('x')),
        ('XacmlContextTypeError', lambda: e.XacmlContextTypeError('x')),
        ('MissingAttributeError', lambda: e.MissingAttributeError('x')),
        ('XacmlContextErrorBare', lambda: e.XacmlContextError()),
        ('UnsupportedFunctionError', lambda: UnsupportedFunctionError('x')),
        ('UnsupportedStdFunctionError',
         lambda: UnsupportedStdFunctionError('x')),
        ('XMLParseError', lambda: XMLParseError('x')),
        ('XacmlError', lambda: XacmlError('x')),
    ]
