from openquake.hazardlib.source.base import ParametricSeismicSource
from openquake.hazardlib.geo.surface import ComplexFaultSurface


class ComplexFaultSource(ParametricSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type,
                 mfd, rupture_mesh_spacing,
                 magnitude_scaling_relationship, rupture_aspect_ratio,
                 temporal_occurrence_model,
                 # complex fault specific parameters
                 edges, rake):
        super(ComplexFaultSource, self).__init__(
            source_id, name, tectonic_region_type, mfd, rupture_mesh_spacing,
            magnitude_scaling_relationship, rupture_aspect_ratio,
            temporal_occurrence_model)
        if not -180 <= rake <= 180:
            raise ValueError('rake %g is out of range' % rake)
        ComplexFaultSurface.check_fault_data(edges, rupture_mesh_spacing)
        self.edges = edges
        self.rake = rake

    def count_ruptures(self):
        return sum(len(self.edges) + int(mag)
                   for mag, rate in self.get_annual_occurrence_rates())
