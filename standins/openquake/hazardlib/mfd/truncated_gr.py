import math
from openquake.hazardlib.mfd.base import BaseMFD


class TruncatedGRMFD(BaseMFD):
    MODIFICATIONS = set(('increment_max_mag', 'set_max_mag', 'increment_b',
                         'set_ab'))

    def __init__(self, min_mag, max_mag, bin_width, a_val, b_val):
        self.min_mag = min_mag
        self.max_mag = max_mag
        self.bin_width = bin_width
        self.a_val = a_val
        self.b_val = b_val
        self.check_constraints()

    def check_constraints(self):
        if not self.bin_width > 0:
            raise ValueError('bin width must be positive')
        if not self.min_mag >= 0:
            raise ValueError('minimum magnitude must be non-negative')
        if not self.max_mag >= self.min_mag + self.bin_width:
            raise ValueError('maximum magnitude must be higher than minimum '
                             'magnitude by bin width at least')
        if not self.b_val > 0.0:
            raise ValueError('b value must be non-negative')

    def _get_rate(self, mag):
        mag_lo = mag - self.bin_width / 2.0
        mag_hi = mag + self.bin_width / 2.0
        return (10 ** (self.a_val - self.b_val * mag_lo)
                - 10 ** (self.a_val - self.b_val * mag_hi))

    def _get_min_mag_and_num_bins(self):
        min_mag = round(self.min_mag / self.bin_width) * self.bin_width
        max_mag = round(self.max_mag / self.bin_width) * self.bin_width
        if min_mag != max_mag:
            num_bins = int(round((max_mag - min_mag) / self.bin_width))
        else:
            num_bins = 1
        return min_mag + self.bin_width / 2.0, num_bins

    def get_annual_occurrence_rates(self):
        mag, num_bins = self._get_min_mag_and_num_bins()
        rates = []
        for i in range(num_bins):
            rates.append((mag, self._get_rate(mag)))
            mag += self.bin_width
        return rates

    def get_min_max_mag(self):
        min_mag, num_bins = self._get_min_mag_and_num_bins()
        return min_mag, min_mag + self.bin_width * (num_bins - 1)

    def _get_total_moment_rate(self):
        ai = 9.05 + self.a_val + math.log10(self.b_val)
        bi = 1.5 - self.b_val
        if bi == 0.0:
            return 10 ** ai * (self.max_mag - self.min_mag)
        return (10 ** ai) / bi * (10 ** (bi * self.max_mag)
                                  - 10 ** (bi * self.min_mag))

    def _set_a(self, tmr):
        if self.b_val == 1.5:
            self.a_val = (math.log10(tmr / (self.max_mag - self.min_mag))
                          - 9.05 - math.log10(self.b_val))
        else:
            bi = 1.5 - self.b_val
            self.a_val = (math.log10(tmr * bi / (
                10 ** (bi * self.max_mag) - 10 ** (bi * self.min_mag)))
                - 9.05 - math.log10(self.b_val))

    def modify_increment_max_mag(self, value):
        tmr = self._get_total_moment_rate()
        self.max_mag += value
        self.check_constraints()
        self._set_a(tmr)

    def modify_set_max_mag(self, value):
        self.max_mag = value

    def modify_increment_b(self, value):
        tmr = self._get_total_moment_rate()
        self.b_val += value
        self.check_constraints()
        self._set_a(tmr)

    def modify_set_ab(self, a_val, b_val):
        self.b_val = b_val
        self.a_val = a_val
