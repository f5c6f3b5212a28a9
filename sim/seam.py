"""Fault injecting storage behind the ``storage`` seam of nodes."""
from sim import env


def gate(site, detail='', read=False):
    ctx = env._State.ctx
    if ctx is not None:
        ctx.gate(site, detail, read)


class Proxy(object):
    """Wraps the real storage: every call may fail before it has an effect.

    ``site`` names the storage in logs.
    """

    def __init__(self, target, site='st'):
        d = object.__getattribute__(self, '__dict__')
        d['_t'] = target
        d['_site'] = site

    def __getitem__(self, key):
        gate(self._site + '.get', key, True)
        return self._t[key]

    def __setitem__(self, key, value):
        gate(self._site + '.set', key)
        self._t[key] = value

    def __delitem__(self, key):
        gate(self._site + '.del', key)
        del self._t[key]

    def __contains__(self, key):
        gate(self._site + '.has', key, True)
        return key in self._t

    def __len__(self):
        gate(self._site + '.len', '', True)
        return len(self._t)

    def __iter__(self):
        gate(self._site + '.iter', '', True)
        for key in self._t:
            yield key
            gate(self._site + '.next', key, True)

    def __reversed__(self):
        gate(self._site + '.iter', '', True)
        return reversed(self._t)

    def __eq__(self, other):
        return self._t == other

    def __ne__(self, other):
        return self._t != other

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        method = getattr(self._t, name)
        if not callable(method):
            return method
        site = '%s.%s' % (self._site, name)
        read = name in ('get', 'keys', 'values', 'items', 'iterkeys',
                        'itervalues', 'iteritems', 'has_key', 'index',
                        'firstkey', 'lastkey', 'next_key', 'prev_key')

        def call(*args, **kw):
            gate(site, args[0] if args else '', read)
            return method(*args, **kw)
        return call


def simclass(base, name, module, site='st', **ns):
    """Subclass of a shipped node class whose storage may fail.

    The storage itself stays the shipped one.
    """
    box = []

    def storage(self):
        return Proxy(super(box[0], self).storage, site)

    ns['storage'] = property(storage)
    ns['__module__'] = module
    ns['__qualname__'] = name
    cls = type(base)(name, (base,), ns)
    box.append(cls)
    return cls
