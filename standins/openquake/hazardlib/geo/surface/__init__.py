class BaseSurface(object):
    pass


class PlanarSurface(BaseSurface):
    def __init__(self, mesh_spacing, strike, dip,
                 top_left, top_right, bottom_right, bottom_left):
        if not mesh_spacing > 0:
            raise ValueError('mesh spacing must be positive')
        if not (top_left.depth == top_right.depth and
                bottom_left.depth == bottom_right.depth):
            raise ValueError("top and bottom edges must be parallel "
                             "to the earth surface")
        if not 0 <= strike <= 360 or not 0 < dip <= 90:
            raise ValueError('strike or dip is out of range')
        self.mesh_spacing = mesh_spacing
        self.strike = strike
        self.dip = dip
        corners = top_left, top_right, bottom_left, bottom_right
        self.corner_lons = [p.longitude for p in corners]
        self.corner_lats = [p.latitude for p in corners]
        self.corner_depths = [p.depth for p in corners]

    def get_strike(self):
        return self.strike

    def get_dip(self):
        return self.dip


class SimpleFaultSurface(BaseSurface):
    def __init__(self, mesh):
        self.mesh = mesh

    @classmethod
    def check_fault_data(cls, fault_trace, upper_seismogenic_depth,
                         lower_seismogenic_depth, dip, mesh_spacing):
        if not len(fault_trace) >= 2:
            raise ValueError("the fault trace must have at least two points")
        if not 0.0 < dip <= 90.0:
            raise ValueError("dip must be between 0.0 and 90.0")
        if not lower_seismogenic_depth > upper_seismogenic_depth:
            raise ValueError("lower seismogenic depth must be greater than "
                             "upper seismogenic depth")
        if not upper_seismogenic_depth >= 0.0:
            raise ValueError("upper seismo depth must be non-negative")
        if not mesh_spacing > 0.0:
            raise ValueError("mesh spacing must be positive")

    @classmethod
    def from_fault_data(cls, fault_trace, upper_seismogenic_depth,
                        lower_seismogenic_depth, dip, mesh_spacing):
        cls.check_fault_data(fault_trace, upper_seismogenic_depth,
                             lower_seismogenic_depth, dip, mesh_spacing)
        return cls(dict(
            trace=[(p.longitude, p.latitude, p.depth)
                   for p in fault_trace.points],
            upper=upper_seismogenic_depth, lower=lower_seismogenic_depth,
            dip=dip, spacing=mesh_spacing))


class ComplexFaultSurface(BaseSurface):
    def __init__(self, mesh):
        self.mesh = mesh

    @classmethod
    def check_fault_data(cls, edges, mesh_spacing):
        if not len(edges) >= 2:
            raise ValueError("at least two edges are required")
        if not all(len(edge) >= 2 for edge in edges):
            raise ValueError("at least two points must be defined "
                             "in each edge")
        if not mesh_spacing > 0.0:
            raise ValueError("mesh spacing must be positive")

    @classmethod
    def from_fault_data(cls, edges, mesh_spacing):
        cls.check_fault_data(edges, mesh_spacing)
        return cls(dict(
            edges=[[(p.longitude, p.latitude, p.depth) for p in e.points]
                   for e in edges], spacing=mesh_spacing))


class MultiSurface(BaseSurface):
    def __init__(self, surfaces):
        self.surfaces = surfaces
