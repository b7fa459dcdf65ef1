"""Module-level state of the code under test: saved before the first path, restored before each."""
import enum
import sys
import types

_CONTAINERS = (dict, list, set)


class State:
    def __init__(self, prefixes):
        self.prefixes = tuple(prefixes)
        self.modules = []
        self.classes = []
        self.containers = []
        self.caches = []
        seen = set()
        for name, mod in list(sys.modules.items()):
            if not (name in self.prefixes or name.startswith(tuple(p + '.' for p in self.prefixes))):
                continue
            self.modules.append((mod, dict(mod.__dict__)))
            for k, v in mod.__dict__.items():
                if k.startswith('__'):
                    continue
                self._container(v, seen)
                if isinstance(v, type) and v.__module__.startswith(self.prefixes) \
                        and not issubclass(v, enum.Enum) and id(v) not in seen:
                    seen.add(id(v))
                    attrs = dict(vars(v))
                    self.classes.append((v, attrs))
                    for ak, av in attrs.items():
                        if not ak.startswith('__') and ak != '_abc_impl':
                            self._container(av, seen)
                clear = getattr(v, 'cache_clear', None)
                if callable(clear) and isinstance(v, types.FunctionType | object) \
                        and hasattr(v, 'cache_info'):
                    self.caches.append(clear)

    def _container(self, v, seen):
        if not issubclass(type(v), _CONTAINERS) or id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, dict):
            self.containers.append((v, list(v.items())))
            for x in list(v.values()):
                self._container(x, seen)
        elif isinstance(v, list):
            self.containers.append((v, list(v)))
            for x in v:
                self._container(x, seen)
        else:
            self.containers.append((v, set(v)))

    def restore(self):
        for mod, saved in self.modules:
            d = mod.__dict__
            for k, v in saved.items():
                if d.get(k, self) is not v:
                    d[k] = v
            if len(d) != len(saved):
                for k in [k for k in d if k not in saved]:
                    del d[k]
        for cls, saved in self.classes:
            now = vars(cls)
            for k, v in saved.items():
                if now.get(k, self) is not v and k not in ('__dict__', '__weakref__', '__doc__'):
                    setattr(cls, k, v)
            if len(now) != len(saved):
                for k in [k for k in now if k not in saved]:
                    if not k.startswith('__'):
                        try:
                            delattr(cls, k)
                        except AttributeError:
                            pass
        for obj, saved in self.containers:
            if isinstance(obj, dict):
                obj.clear()
                obj.update(saved)
            elif isinstance(obj, list):
                obj[:] = saved
            else:
                obj.clear()
                obj.update(saved)
        for clear in self.caches:
            clear()


class Patches:
    """Replaces an object wherever the code under test may look it up."""
    def __init__(self, prefixes):
        self.prefixes = tuple(prefixes)
        self.undo = []

    def everywhere(self, orig, repl, extra=()):
        """In every module global of the code under test, plus the (module, name) pairs given."""
        for name, mod in list(sys.modules.items()):
            if name in self.prefixes or name.startswith(tuple(p + '.' for p in self.prefixes)):
                for k, v in list(mod.__dict__.items()):
                    if v is orig:
                        self._set(mod, k, repl)
        for mod, name in extra:
            self._set(mod, name, repl)

    def _set(self, obj, name, value):
        self.undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def restore(self):
        while self.undo:
            obj, name, value = self.undo.pop()
            setattr(obj, name, value)
