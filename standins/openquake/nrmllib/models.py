"""Stand-in for openquake.nrmllib.models"""


class _Model(object):
    _fields = ()

    def __init__(self, *args, **kw):
        if len(args) > len(self._fields):
            raise TypeError('%s: too many arguments' % self.__class__.__name__)
        for f in self._fields:
            setattr(self, f, None)
        for f, a in zip(self._fields, args):
            setattr(self, f, a)
        for k, v in kw.items():
            if k not in self._fields:
                raise TypeError('%s: unexpected keyword argument %r' %
                                (self.__class__.__name__, k))
            setattr(self, k, v)

    def __repr__(self):
        return '<%s %s>' % (self.__class__.__name__, self.__dict__)


class SourceModel(object):
    def __init__(self, name=None, sources=None):
        self.name = name
        self.sources = sources

    def __iter__(self):
        return iter(self.sources)


class SeismicSource(_Model):
    @property
    def attrib(self):
        return dict(id=str(self.id), name=str(self.name),
                    tectonicRegion=str(self.trt))


class PointSource(SeismicSource):
    _fields = ('id', 'name', 'trt', 'geometry', 'mag_scale_rel',
               'rupt_aspect_ratio', 'mfd', 'nodal_plane_dist',
               'hypo_depth_dist')


class AreaSource(PointSource):
    pass


class SimpleFaultSource(SeismicSource):
    _fields = ('id', 'name', 'trt', 'geometry', 'mag_scale_rel',
               'rupt_aspect_ratio', 'mfd', 'rake')


class ComplexFaultSource(SimpleFaultSource):
    pass


class CharacteristicSource(SeismicSource):
    _fields = ('id', 'name', 'trt', 'mfd', 'rake', 'surface')


class PointGeometry(_Model):
    _fields = ('wkt', 'upper_seismo_depth', 'lower_seismo_depth')


class AreaGeometry(PointGeometry):
    pass


class SimpleFaultGeometry(_Model):
    _fields = ('wkt', 'dip', 'upper_seismo_depth', 'lower_seismo_depth')


class ComplexFaultGeometry(_Model):
    _fields = ('top_edge_wkt', 'bottom_edge_wkt', 'int_edges')

    def __init__(self, *args, **kw):
        super(ComplexFaultGeometry, self).__init__(*args, **kw)
        if self.int_edges is None:
            self.int_edges = []


class PlanarSurface(_Model):
    _fields = ('strike', 'dip', 'top_left', 'top_right', 'bottom_left',
               'bottom_right')


class Point(_Model):
    _fields = ('longitude', 'latitude', 'depth')


class SimpleFaultRuptureModel(_Model):
    _fields = ('id', 'magnitude', 'rake', 'hypocenter', 'geometry')


class ComplexFaultRuptureModel(SimpleFaultRuptureModel):
    pass


class IncrementalMFD(_Model):
    _fields = ('min_mag', 'bin_width', 'occur_rates')


class TGRMFD(_Model):
    _fields = ('a_val', 'b_val', 'min_mag', 'max_mag')


class NodalPlane(_Model):
    _fields = ('probability', 'strike', 'dip', 'rake')


class HypocentralDepth(_Model):
    _fields = ('probability', 'depth')
