import zlib


class Chemical:
    def __init__(self, ID, T=298.15, P=101325):
        if not isinstance(ID, str):
            raise ValueError('unknown substance %r' % (ID,))
        self.ID = self.name = ID
        self.MW = 2. + zlib.crc32(ID.encode()) % 40000 / 100.
        self.calculate(T, P)

    def calculate(self, T=None, P=None):
        if T is not None:
            self.T = T
        if P is not None:
            self.P = P
        self.H = 3.5 * self.MW * (self.T - 298.15) + 1e-3 * self.P
        self.Cp = 1000. + self.MW * 2. + .01 * self.T
        self.rho = self.MW * 20. / (1 + 1e-4 * self.T)
        self.calls = getattr(self, 'calls', 0) + 1


def install():
    """property data without physics in place of the thermo library's (fast, any name, distinguishable values)"""
    import thermo
    import thermo.chemical
    thermo.chemical.Chemical = thermo.Chemical = Chemical
