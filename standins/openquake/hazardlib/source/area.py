from openquake.hazardlib.source.point import PointSource


class AreaSource(PointSource):
    def __init__(self, source_id, name, tectonic_region_type,
                 mfd, rupture_mesh_spacing,
                 magnitude_scaling_relationship, rupture_aspect_ratio,
                 temporal_occurrence_model,
                 # point-specific parameters (excluding location)
                 upper_seismogenic_depth, lower_seismogenic_depth,
                 nodal_plane_distribution, hypocenter_distribution,
                 # area-specific parameters
                 polygon, area_discretization):
        super(AreaSource, self).__init__(
            source_id, name, tectonic_region_type, mfd, rupture_mesh_spacing,
            magnitude_scaling_relationship, rupture_aspect_ratio,
            temporal_occurrence_model, upper_seismogenic_depth,
            lower_seismogenic_depth, None, nodal_plane_distribution,
            hypocenter_distribution)
        self.polygon = polygon
        self.area_discretization = area_discretization

    def count_ruptures(self):
        return (len(self.polygon.discretize(self.area_discretization)) *
                super(AreaSource, self).count_ruptures())
