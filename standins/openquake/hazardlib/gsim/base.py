class GroundShakingIntensityModel(object):
    pass


class GMPE(GroundShakingIntensityModel):
    pass


class IPE(GroundShakingIntensityModel):
    pass
