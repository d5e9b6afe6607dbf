class BaseMFD(object):
    MODIFICATIONS = set()

    def modify(self, modification, parameters):
        if modification not in self.MODIFICATIONS:
            raise ValueError('Modification %s is not supported by %s' %
                             (modification, type(self).__name__))
        getattr(self, 'modify_%s' % modification)(**parameters)
        self.check_constraints()
