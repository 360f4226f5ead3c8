"""configparser: the library itself, with numbers and names as symbolic parts of the text.
Assumed: reading the text of a number gives that number (repr of a float is exact), and
interpolation undoes the doubling of % in a name and nothing else."""
import configparser, io
from core import *
from vals import *
import strs
class Text(str):
    "any text (of one line, without blanks at its ends): doubled is how many times its % were doubled"
    def __new__(cls, name, base=None, doubled=0):
        base = base or TextOf(name)
        t = str.__new__(cls, strs.hole('text%d' % doubled, base))
        t.base, t.doubled = base, doubled
        return t
    def replace(s, a, b, *n):
        if (a, b) == ('%', '%%') and not n: return Text('', s.base, s.doubled + 1)
        raise Unsupported('replace in any text')
    def __mod__(s, a): raise Unsupported('formatting of any text')
    def odd(s, *a, **k): raise Unsupported('a part of any text')
    split = rsplit = startswith = endswith = find = index = strip = lower = upper = join = partition = rpartition = encode = __getitem__ = odd
class TextOf:
    vc_static = True
    def __init__(s, name):
        s.name = name; s.pc = run().const('percent_' + name, B)         # contains a %
def files(): return run().notes.setdefault('cfgfiles', {})
class Interpolation(configparser.BasicInterpolation):
    def before_set(s, parser, section, option, value):
        if strs.has(value):
            m = strs.HOLE.fullmatch(value)
            if m is None: raise Unsupported('configuration value with symbolic parts')
            spec, v = strs.get(m)
            if isinstance(v, TextOf) and spec == 'text0' and run().fork(v.pc): raise ValueError('invalid interpolation syntax')
            return value
        return configparser.BasicInterpolation.before_set(s, parser, section, option, value)
    def before_get(s, parser, section, option, value, defaults):
        if strs.has(value):
            m = strs.HOLE.fullmatch(value)
            if m is None: raise Unsupported('configuration value with symbolic parts')
            spec, v = strs.get(m)
            if isinstance(v, TextOf):
                k = int(spec[4:])
                if k: return Text('', v, k - 1)
                if run().fork(v.pc): raise configparser.InterpolationSyntaxError(option, section, 'bad interpolation')
                return Text('', v)
            return value
        return configparser.BasicInterpolation.before_get(s, parser, section, option, value, defaults)
class ConfigParser(configparser.ConfigParser):
    vc_static = True
    def __init__(s, *a, **k):
        if a or set(k) - {'inline_comment_prefixes'}: raise Unsupported('options of a parser')
        configparser.ConfigParser.__init__(s, interpolation=Interpolation())
    def read(s, fn, encoding=None):
        f = files()
        if fn not in f: return []
        s.read_string(f[fn])
        return [fn]
    def written(s, fn):
        b = io.StringIO(); s.write(b); files()[fn] = b.getvalue()
    def conv(s, how, section, option, raw=False, vars=None, fallback=configparser._UNSET, **k):
        try: v = s.get(section, option, raw=raw, vars=vars, **k)
        except (configparser.NoSectionError, configparser.NoOptionError):
            if fallback is configparser._UNSET: raise
            return fallback
        return how(v)
    def getint(s, *a, **k): return s.conv(strs.to_int, *a, **k)
    def getfloat(s, *a, **k): return s.conv(strs.to_float, *a, **k)
    def getboolean(s, *a, **k): return s.conv(s._bool, *a, **k)
    def _bool(s, v):
        if strs.has(v): raise Unsupported('a number as a boolean')
        return s._convert_to_boolean(v)
class Module:
    vc_static = True
    ConfigParser = ConfigParser; RawConfigParser = configparser.RawConfigParser
    NoOptionError, NoSectionError, Error = configparser.NoOptionError, configparser.NoSectionError, configparser.Error
MODULE = Module()
