"""Stand-in for openquake.risklib.scientific"""
import math
import copy


def _strictly_increasing(xs):
    return all(a < b for a, b in zip(xs, xs[1:]))


class VulnerabilityFunction(object):
    def __init__(self, imt, imls, mean_loss_ratios, covs=None,
                 distribution='LN'):
        imls = list(imls)
        lrs = list(mean_loss_ratios)
        assert not distribution or distribution in ('LN', 'BT'), distribution
        assert _strictly_increasing(imls) and all(x >= 0 for x in imls), imls
        assert len(imls) == len(lrs)
        assert all(x >= 0.0 for x in lrs), lrs
        covs = [0.] * len(imls) if covs is None else list(covs)
        assert len(covs) == len(imls)
        assert all(x >= 0.0 for x in covs), covs
        for lr, cov in zip(lrs, covs):
            if lr == 0.0 and cov > 0.0:
                raise ValueError(
                    "It is not valid to define a loss ratio = 0.0 with a "
                    "corresponding coeff. of varation > 0.0")
        self.imt = imt
        self.imls = imls
        self.mean_loss_ratios = lrs
        self.covs = covs
        self.distribution_name = distribution


class FragilityFunctionContinuous(object):
    def __init__(self, mean, stddev):
        self.mean = mean
        self.stddev = stddev

    def __call__(self, iml):
        variance = self.stddev ** 2.0
        sigma = math.sqrt(math.log((variance / self.mean ** 2.0) + 1.0))
        mu = self.mean ** 2.0 / math.sqrt(variance + self.mean ** 2.0)
        return 0.5 * (1 + math.erf(math.log(iml / mu) / sigma / math.sqrt(2)))


class FragilityFunctionDiscrete(object):
    def __init__(self, imls, poes, no_damage_limit=None):
        self.imls = imls
        self.poes = poes
        self.no_damage_limit = no_damage_limit

    def __call__(self, iml):
        if self.no_damage_limit is not None and iml < self.no_damage_limit:
            return 0.
        if iml <= self.imls[0]:
            return self.poes[0]
        for i in range(1, len(self.imls)):
            if iml <= self.imls[i]:
                x0, x1 = self.imls[i - 1:i + 1]
                y0, y1 = self.poes[i - 1:i + 1]
                return y0 + (y1 - y0) * (iml - x0) / (x1 - x0)
        return self.poes[-1]

    def __eq__(self, other):
        return (self.poes == other.poes and self.imls == other.imls and
                self.no_damage_limit == other.no_damage_limit)

    def __ne__(self, other):
        return not self == other
