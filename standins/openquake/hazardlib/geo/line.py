class Line(object):
    def __init__(self, points):
        if len(points) < 1:
            raise ValueError('One point needed to create a line!')
        clean = [points[0]]
        for p in points[1:]:
            if p != clean[-1]:
                clean.append(p)
        self.points = clean

    def __len__(self):
        return len(self.points)

    def __getitem__(self, i):
        return self.points[i]

    def __eq__(self, other):
        return self.points == other.points

    def __ne__(self, other):
        return not self == other
