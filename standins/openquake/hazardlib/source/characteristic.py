from openquake.hazardlib.source.base import ParametricSeismicSource


class CharacteristicFaultSource(ParametricSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type,
                 mfd, temporal_occurrence_model, surface, rake):
        super(CharacteristicFaultSource, self).__init__(
            source_id, name, tectonic_region_type, mfd, None, None, None,
            temporal_occurrence_model)
        if not -180 <= rake <= 180:
            raise ValueError('rake %g is out of range' % rake)
        self.surface = surface
        self.rake = rake

    def count_ruptures(self):
        return len(self.get_annual_occurrence_rates())
