"""Stand-ins for matplotlib and mayavi which record what they are asked to draw (C30).

They know the primitives whose meaning the harness can read back as points, segments and faces;
anything else raises Unknown, which leaves the case undecided."""
import types

class Log(object):
    def __init__(self): self.calls = []; self.figures = []; self.datasets = []

class World(object):
    """One set of fake modules; `unknown` is the exception for what the stand-ins do not know."""
    def __init__(self, unknown):
        self.unknown = unknown
        self.log = Log()
        self.modules = {}
        self.mpl(); self.myv()

    def mod(self, name, **d):
        m = FakeModule(name, self.unknown)
        m.__dict__.update(d)
        self.modules[name] = m
        if '.' in name:
            p, c = name.rsplit('.', 1)
            if p not in self.modules: self.mod(p)
            setattr(self.modules[p], c, m)
        m.__path__ = []
        return m

    def mpl(self):
        W = self
        class Axes(object):
            def __init__(self, **kw): self.kw = kw
            def _rec(self, kind, a, k):
                tok = '%s %d' % (kind, len(W.log.calls))
                W.log.calls.append((kind, self, a, k))
                return tok
            def __getattr__(self, n):
                if n in ('scatter', 'plot', 'plot3D', 'scatter3D', 'plot_wireframe', 'plot_surface') or n.startswith('set_'):
                    kind = {'plot3D': 'plot', 'scatter3D': 'scatter'}.get(n, n)
                    return lambda *a, **k: self._rec(kind, a, k)
                if n.startswith('__'): raise AttributeError(n)
                raise W.unknown('matplotlib axes: %s' % n)
        class Figure(object):
            def __init__(self): self.axes = []
            def add_subplot(self, *a, **k):
                ax = Axes(**k); self.axes.append(ax); return ax
            def gca(self, **k): return self.axes[-1] if self.axes else self.add_subplot(**k)
            def __getattr__(self, n):
                if n.startswith('__'): raise AttributeError(n)
                raise W.unknown('matplotlib figure: %s' % n)
        def figure(*a, **k):
            W.log.figures.append(Figure()); return W.log.figures[-1]
        def gcf(): return W.log.figures[-1] if W.log.figures else figure()
        def gca(**k): return gcf().gca(**k)
        nop = lambda name: lambda *a, **k: ('did', name)
        self.mod('matplotlib')
        self.mod('matplotlib.pyplot', figure=figure, gcf=gcf, gca=gca, clf=nop('clf'), close=nop('close'), savefig=nop('savefig'), show=nop('show'), colorbar=nop('colorbar'), cm=None)
        self.mod('matplotlib.cm', jet='jet', viridis='viridis')
        self.mod('matplotlib.colors', cnames={'red': '#FF0000', 'blue': '#0000FF'})
        self.mod('mpl_toolkits'); self.mod('mpl_toolkits.mplot3d', Axes3D=Axes)

    def myv(self):
        W = self
        class Source(object):
            dataset = None
            m_data = None
            def set(self, trait_change_notify=True, **kw): self.__dict__.update(kw)
            trait_set = set
        class PointData(object): scalars = None
        class Arr(object):
            """The array a dataset keeps: it can be given a name."""
            def __init__(self, v): self.v = v; self.name = None
        class PD(object):
            def __init__(self): self.__dict__['scalars'] = None
            def __setattr__(self, n, v): self.__dict__[n] = Arr(v) if n == 'scalars' else v
        class PolyData(object):
            def __init__(self): self.points = self.lines = self.polys = None; self.point_data = PD(); self.copied = {}
            def set(self, **kw):
                self.__dict__.update(kw)
            trait_set = set
        class Pipe(object):
            def __init__(self, *a, **k): pass
            def __call__(self, *a, **k):
                f = type(self).__dict__['_source_function']
                return f(*a, **k)
        nop = lambda name: lambda *a, **k: ('did', name)
        names = 'figure gcf clf close savefig show title xlabel ylabel zlabel colorbar points3d quiver3d'.split()
        def add_dataset(ds, name='', **k):
            W.log.datasets.append((ds, name, k)); return ('engine source', len(W.log.datasets))
        for n in ('mayavi', 'mayavi.tools'): self.mod(n)
        self.mod('mayavi.mlab', **{n: nop(n) for n in names})
        self.mod('mayavi.tools.helper_functions', List=lambda *a, **k: None, Array=None, Callable=lambda f: f, Plot3d=Pipe, Mesh=Pipe, document_pipeline=lambda p: p)
        self.mod('mayavi.tools.sources', MlabSource=Source, convert_to_arrays=lambda t: list(t))
        self.mod('mayavi.tools.tools', add_dataset=add_dataset)
        self.mod('tvtk'); self.mod('tvtk.api', tvtk=types.SimpleNamespace(PolyData=PolyData))

class FakeModule(types.ModuleType):
    def __init__(self, name, unknown):
        types.ModuleType.__init__(self, name); self.__dict__['_unknown'] = unknown
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise self.__dict__['_unknown']('%s.%s' % (self.__name__, n))

ROOTS = ('matplotlib', 'mpl_toolkits', 'mayavi', 'tvtk')
