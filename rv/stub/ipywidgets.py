"""Stand-in for ipywidgets (not installed here): the values, limits, options
and observers that its documentation describes, without a front end.
Observers are called when the state of the control is consistent again."""


class TraitError(ValueError):
    pass


class Control:
    NAMES = ('options', 'index', 'min', 'max', 'value')

    def __init__(self, **kwargs):
        self._handlers, self._state = [], {}
        self.__dict__.update((k, v) for k, v in kwargs.items()
            if k not in ('options', 'value', 'min', 'max', 'index'))
        self._given = kwargs
        self._start(kwargs)

    def _start(self, k):
        self._state['value'] = k.get('value')

    def observe(self, handler, names=None, type='change'):
        names = (names,) if isinstance(names, str) else names
        if (handler, names) not in self._handlers:
            self._handlers.append((handler, names))

    def unobserve(self, handler, names=None, type='change'):
        names = (names,) if isinstance(names, str) else names
        self._handlers.remove((handler, names))

    def _change(self, **new):
        old = {n: self._state.get(n) for n in new}
        self._state.update(new)
        for n in sorted((n for n in new if new[n] != old[n]), key=self.NAMES.index):
            for handler, names in list(self._handlers):
                if names is None or n in names:
                    handler(Bunch(name=n, old=old[n], new=new[n], owner=self,
                        type='change'))

    @property
    def value(self):
        return self._state['value']

    @value.setter
    def value(self, v):
        self._change(value=self._valid(v))

    def _valid(self, v):
        return v


class Bunch(dict):
    __getattr__ = dict.__getitem__


class Text(Control):
    def __init__(self, value=None, **kwargs):
        super().__init__(**(kwargs if value is None else dict(kwargs, value=value)))

    def _start(self, k):
        self._state['value'] = self._valid(k.get('value', ''))

    def _valid(self, v):
        if not isinstance(v, str):
            raise TraitError(f'text expected, got {v!r}')
        return v


class Checkbox(Control):
    def _start(self, k):
        self._state['value'] = self._valid(k.get('value', False))

    def _valid(self, v):
        if v not in (True, False):
            raise TraitError(f'logical value expected, got {v!r}')
        return bool(v)


class Button(Control):
    def _start(self, k):
        self._clicked = []

    def on_click(self, callback, remove=False):
        (self._clicked.remove if remove else self._clicked.append)(callback)

    def click(self):
        for f in list(self._clicked):
            f(self)


class _Selection(Control):
    @property
    def options(self):
        return self._state['options']


class Dropdown(_Selection):
    def _start(self, k):
        o = self._state['options'] = tuple(k.get('options', ()))
        v = k['value'] if 'value' in k else (o[0] if o else None)
        self._state['value'] = self._valid(v)

    def _valid(self, v):
        if v is not None and v not in self._state['options']:
            raise TraitError(f'Invalid selection: value {v!r} not found')
        return v

    @_Selection.options.setter
    def options(self, new):
        new = tuple(new)
        self._change(options=new, value=new[0] if new else None)

    @property
    def index(self):
        o, v = self._state['options'], self._state['value']
        return o.index(v) if v in o else None

    @index.setter
    def index(self, i):
        self.value = None if i is None else self._state['options'][i]


class SelectMultiple(_Selection):
    def _start(self, k):
        self._state['options'] = tuple(k.get('options', ()))
        self._state['value'] = self._valid(k.get('value', ()))

    def _valid(self, v):
        v = tuple(v)
        if any(x not in self._state['options'] for x in v):
            raise TraitError(f'Invalid selection: value {v!r} not found')
        return v

    @_Selection.options.setter
    def options(self, new):
        self._change(options=tuple(new), value=())

    @property
    def index(self):
        return tuple(self._state['options'].index(v) for v in self._state['value'])


class _Bounded(Control):
    kind = int
    bounds = (0, 100)

    def _start(self, k):
        lo, hi = k.get('min', self.bounds[0]), k.get('max', self.bounds[1])
        if lo > hi:
            raise TraitError('setting min > max')
        self._state.update(min=lo, max=hi)
        self._state['value'] = self._valid(k.get('value', lo))

    def _number(self, v):
        if isinstance(v, str) or v != v or self.kind(v) != v:
            raise TraitError(f'{self.kind.__name__} expected, got {v!r}')
        return min(max(self.kind(v), self._state['min']), self._state['max'])

    def _valid(self, v):
        return self._number(v)

    @property
    def min(self):
        return self._state['min']

    @min.setter
    def min(self, v):
        if v > self._state['max']:
            raise TraitError('setting min > max')
        self._bound('min', v)

    @property
    def max(self):
        return self._state['max']

    @max.setter
    def max(self, v):
        if v < self._state['min']:
            raise TraitError('setting max < min')
        self._bound('max', v)

    def _bound(self, name, v):
        lo, hi = (v, self._state['max']) if name == 'min' else (self._state['min'], v)
        x = self._state['value']
        x = tuple(min(max(y, lo), hi) for y in x) if isinstance(x, tuple) else \
            min(max(x, lo), hi)
        self._change(**{name: v, 'value': x})


class BoundedIntText(_Bounded):
    pass


class BoundedFloatText(_Bounded):
    kind, bounds = float, (0.0, 100.0)


class IntSlider(_Bounded):
    pass


class FloatSlider(_Bounded):
    kind, bounds = float, (0.0, 10.0)


class IntRangeSlider(_Bounded):
    def _valid(self, v):
        lo, hi = v
        if lo > hi:
            raise TraitError('setting lower > upper')
        return self._number(lo), self._number(hi)


class _Box(Control):
    def __init__(self, children=(), **kwargs):
        super().__init__(**kwargs)
        self.children = tuple(children)


class HBox(_Box):
    pass


class VBox(_Box):
    pass


class Label(Text):
    pass
