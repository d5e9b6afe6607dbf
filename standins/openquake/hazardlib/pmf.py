class PMF(object):
    def __init__(self, data):
        if not data:
            raise ValueError('PMF data is empty!')
        if any(prob <= 0 for prob, _ in data):
            raise ValueError('a probability in %s is not positive' % data)
        if abs(sum(float(prob) for prob, _ in data) - 1) > 1e-12 and \
                sum(prob for prob, _ in data) != 1:
            raise ValueError('values do not sum up to 1.0: %s' % data)
        self.data = data
