class BaseSeismicSource(object):
    def __init__(self, source_id, name, tectonic_region_type):
        self.source_id = source_id
        self.name = name
        self.tectonic_region_type = tectonic_region_type

    def get_annual_occurrence_rates(self, min_rate=0):
        return [(mag, rate)
                for mag, rate in self.mfd.get_annual_occurrence_rates()
                if min_rate is None or rate > min_rate]

    def get_min_max_mag(self):
        return self.mfd.get_min_max_mag()

    def __repr__(self):
        return '<%s %s>' % (self.__class__.__name__, self.source_id)


class ParametricSeismicSource(BaseSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd,
                 rupture_mesh_spacing, magnitude_scaling_relationship,
                 rupture_aspect_ratio, temporal_occurrence_model):
        super(ParametricSeismicSource, self).__init__(
            source_id, name, tectonic_region_type)
        if rupture_mesh_spacing is not None and not rupture_mesh_spacing > 0:
            raise ValueError('rupture mesh spacing must be positive')
        if rupture_aspect_ratio is not None and not rupture_aspect_ratio > 0:
            raise ValueError('rupture aspect ratio must be positive')
        self.mfd = mfd
        self.rupture_mesh_spacing = rupture_mesh_spacing
        self.magnitude_scaling_relationship = magnitude_scaling_relationship
        self.rupture_aspect_ratio = rupture_aspect_ratio
        self.temporal_occurrence_model = temporal_occurrence_model
