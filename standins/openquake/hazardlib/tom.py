import math


class PoissonTOM(object):
    def __init__(self, time_span):
        if time_span <= 0:
            raise ValueError('time_span must be positive')
        self.time_span = time_span

    def get_probability_one_or_more_occurrences(self, occurrence_rate):
        return 1 - math.exp(- occurrence_rate * self.time_span)

    def __eq__(self, other):
        return isinstance(other, PoissonTOM) and \
            self.time_span == other.time_span

    def __ne__(self, other):
        return not self == other
