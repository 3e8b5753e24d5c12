"""Development aid: writes analysis/libnames.json, the member names of the libraries the package may use."""
import json, sys, importlib, pkgutil
mods = ['numpy', 'numpy.linalg', 'numpy.random', 'numpy.polynomial', 'numpy.polynomial.polynomial', 'casadi', 'matplotlib', 'matplotlib.pyplot', 'matplotlib.ticker', 'matplotlib.lines', 'matplotlib.patches', 'matplotlib.cm',
        'scipy', 'scipy.linalg', 'scipy.optimize', 'scipy.special', 'scipy.interpolate', 'scipy.io', 'scipy.integrate'] + sorted(m for m in sys.stdlib_module_names if not m.startswith('_') and m not in ('antigravity', 'this', 'idlelib', 'turtledemo', 'tkinter', 'turtle', 'lib2to3', 'msilib', 'nt', 'winreg', 'winsound', 'msvcrt', 'ntpath'))
mods += ['os.path', 'collections.abc', 'importlib.util', 'concurrent.futures', 'xml.etree.ElementTree', 'logging.handlers']
out = {}
for m in mods:
    try:
        x = importlib.import_module(m)
    except Exception as e:
        continue
    names = set(n for n in dir(x))
    if hasattr(x, '__path__'):
        names |= {i.name for i in pkgutil.iter_modules(x.__path__)}
    out[m] = sorted(names)
import casadi, numpy, builtins
classes = {'casadi.' + c: getattr(casadi, c) for c in ('SX', 'MX', 'DM', 'Function', 'Sparsity', 'Opti', 'IM', 'GenericMatrixCommon') if hasattr(casadi, c)}
classes.update({'numpy.' + c: getattr(numpy, c) for c in ('ndarray', 'float64', 'int64', 'matrix', 'dtype', 'bool_')})
classes.update({'builtins.' + c: getattr(builtins, c) for c in ('str', 'int', 'float', 'list', 'dict', 'set', 'tuple', 'bool', 'bytes', 'complex', 'object', 'BaseException', 'frozenset', 'range', 'slice', 'type', 'property', 'super', 'OSError', 'ImportError', 'StopIteration', 'SyntaxError', 'KeyError', 'AttributeError')})
import io, enum, types, dataclasses, inspect, re, pathlib, datetime, collections, logging, threading, time as _t, argparse
classes.update({'io.TextIOWrapper': io.TextIOWrapper, 'io.BufferedWriter': io.BufferedWriter, 'io.StringIO': io.StringIO, 'enum.Enum': enum.Enum, 'enum.EnumMeta': enum.EnumMeta, 'types.FunctionType': types.FunctionType,
                'types.ModuleType': types.ModuleType, 'types.FrameType': types.FrameType, 'types.CodeType': types.CodeType, 'dataclasses.Field': dataclasses.Field, 'inspect.Signature': inspect.Signature, 'inspect.Parameter': inspect.Parameter,
                're.Match': re.Match, 're.Pattern': re.Pattern, 'pathlib.Path': pathlib.Path, 'datetime.datetime': datetime.datetime, 'datetime.timedelta': datetime.timedelta, 'collections.deque': collections.deque,
                'collections.Counter': collections.Counter, 'collections.OrderedDict': collections.OrderedDict, 'collections.defaultdict': collections.defaultdict, 'logging.Logger': logging.Logger, 'threading.Thread': threading.Thread, 'types.GeneratorType': types.GeneratorType, 'types.TracebackType': types.TracebackType, 'argparse.ArgumentParser': argparse.ArgumentParser})
import matplotlib.axes, matplotlib.figure, matplotlib.lines, matplotlib.legend, matplotlib.axis, matplotlib.text
for c in (matplotlib.axes.Axes, matplotlib.figure.Figure, matplotlib.lines.Line2D, matplotlib.legend.Legend, matplotlib.axis.Axis, matplotlib.text.Text):
    classes['matplotlib.' + c.__name__] = c
classes.update({'numpy.poly1d': numpy.poly1d, 'numpy.polynomial.Polynomial': numpy.polynomial.Polynomial, 'numpy.random.Generator': numpy.random.Generator,
                'numpy.flatiter': numpy.flatiter, 'numpy.nditer': numpy.nditer, 'numpy.iinfo': numpy.iinfo, 'numpy.finfo': numpy.finfo, 'numpy.complex128': numpy.complex128})
members = {k: sorted(dir(v)) for k, v in classes.items()}
# constructors that are attributes of Enum members
members['enum.member'] = ['name', 'value']
json.dump(dict(modules=out, classes=members, builtins=sorted(dir(builtins))), open('/verif/analysis/libnames.json', 'w'), separators=(',', ':'))
