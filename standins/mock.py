"""A minimal stand-in for mock.Mock (used by the repository's tests only)"""


class _Call(tuple):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: _Call((name, a, k))

    def __call__(self, *a, **k):
        return _Call(('', a, k))


call = _Call()


class Mock(object):
    def __init__(self, return_value=None, side_effect=None, **kw):
        self.__dict__.update(kw)
        self.__dict__['_m'] = dict(rv=return_value, se=side_effect)
        self.method_calls = []
        self.called = False
        self.call_count = 0
        self.call_args = None
        self.call_args_list = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        child = _Child(self, name)
        self.__dict__[name] = child
        return child

    def __call__(self, *a, **k):
        self.called = True
        self.call_count += 1
        self.call_args = _Call(('', a, k))
        self.call_args_list.append(self.call_args)
        se = self._m['se']
        if se is not None:
            return se(*a, **k)
        return self._m['rv']


class _Child(Mock):
    def __init__(self, parent, name):
        Mock.__init__(self)
        self.__dict__['_parent'] = (parent, name)

    def __call__(self, *a, **k):
        parent, name = self._parent
        parent.method_calls.append((name, a, k))
        return Mock.__call__(self, *a, **k)


MagicMock = Mock
