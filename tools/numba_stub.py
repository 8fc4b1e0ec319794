"""A pure-Python stand-in for numba (which is not installed here): jitted functions run as ordinary Python."""
import contextlib
import sys
import types as _t


def _identity_decorator(*args, **kwargs):
  if len(args) == 1 and callable(args[0]) and not kwargs and not isinstance(args[0], (tuple, type)):
    return args[0]
  return lambda f: f


def _ignore_decorator(*args, **kwargs):
  return lambda f: f


class _Meta(type):
  def __getitem__(cls, item):
    return cls


class TypedList(list, metaclass=_Meta):
  @classmethod
  def empty_list(cls, *a, **k):
    return cls()


class TypedDict(dict, metaclass=_Meta):
  @classmethod
  def empty(cls, *a, **k):
    return cls()


class _Anything:
  def __init__(self, *a, **k):
    pass

  def __call__(self, *a, **k):
    return self

  def __getitem__(self, i):
    return self

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    return self


def _module(name, **attrs):
  m = _t.ModuleType(name)
  m.__dict__.update(attrs)
  sys.modules[name] = m
  return m


class _TypeofImpl:
  @staticmethod
  def register(cls):
    return lambda f: f


class _T:
  pass


extending = _module('numba.extending', register_jitable=_identity_decorator, overload=_ignore_decorator,
                    typeof_impl=_TypeofImpl, intrinsic=_identity_decorator, overload_method=_ignore_decorator)
typed = _module('numba.typed', List=TypedList, Dict=TypedDict)
types = _module('numba.types', **{n: type(n, (), {}) for n in
                                  ('IntEnumMember', 'EnumMember', 'TypeRef', 'Type', 'NumberClass', 'Literal')})
types.__getattr__ = lambda n: _Anything()
core = _module('numba.core', extending=extending, utils=_Anything(), errors=_t.SimpleNamespace(TypingError=TypeError))


@contextlib.contextmanager
def objmode(**kwargs):
  yield


numba = _module('numba', njit=_identity_decorator, jit=_identity_decorator, extending=extending, typed=typed, types=types,
                core=core, typeof=lambda x: _Anything(), optional=lambda x: _Anything(), objmode=objmode,
                int64=_Anything(), float64=_Anything(), config=_Anything(), prange=range)
numba.__path__ = []
