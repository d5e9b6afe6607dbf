class BaseMSR(object):
    pass


class WC1994(BaseMSR):
    pass


class PeerMSR(BaseMSR):
    pass


class PointMSR(BaseMSR):
    pass


class CEUS2011(BaseMSR):
    pass


def get_available_magnitude_scalerel():
    return dict((c.__name__, c) for c in (CEUS2011, PeerMSR, PointMSR, WC1994))
