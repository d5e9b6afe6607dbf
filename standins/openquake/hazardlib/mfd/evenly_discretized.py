from openquake.hazardlib.mfd.base import BaseMFD


class EvenlyDiscretizedMFD(BaseMFD):
    MODIFICATIONS = set()

    def __init__(self, min_mag, bin_width, occurrence_rates):
        self.min_mag = min_mag
        self.bin_width = bin_width
        self.occurrence_rates = occurrence_rates
        self.check_constraints()

    def check_constraints(self):
        if not self.bin_width > 0:
            raise ValueError('bin width must be positive')
        if not self.occurrence_rates:
            raise ValueError('at least one bin must be specified')
        if not all(value >= 0 for value in self.occurrence_rates):
            raise ValueError('all occurrence rates must not be negative')
        if not self.min_mag >= 0:
            raise ValueError('minimum magnitude must be non-negative')

    def get_annual_occurrence_rates(self):
        return [(self.min_mag + i * self.bin_width, occurrence_rate)
                for i, occurrence_rate in enumerate(self.occurrence_rates)]

    def get_min_max_mag(self):
        return self.min_mag, self.min_mag + self.bin_width * (
            len(self.occurrence_rates) - 1)
