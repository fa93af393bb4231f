"""Stand-in for the compiled module: systems whose "spectrum" is a hash of their settings."""
import hashlib, types
import numpy as np
from scipy import sparse


def num(key, i=0):
    return int.from_bytes(hashlib.blake2b(("%s|%d" % (key, i)).encode(), digest_size=6).digest(), "big") / 2.0**48


class _State:
    def __init__(self, species, n, l, j, m):
        self.q = (species, n, l, j, m)

    def getN(self):
        return self.q[1]

    def getL(self):
        return self.q[2]

    def getJ(self):
        return self.q[3]

    def getM(self):
        return self.q[4]

    def getSpecies(self):
        return self.q[0]


class StateOne(_State):
    def getEnergy(self):
        return -1000.0 / (self.q[1] - 0.1 * self.q[2] - 0.01 * self.q[3]) ** 2


class StateTwo(_State):
    def getEnergy(self):
        return sum(StateOne(*x).getEnergy() for x in zip(*self.q))


class MatrixElementCache:
    def __init__(self, path=""):
        self.path, self.method = path, None

    def setMethod(self, m):
        self.method = m


class System:
    def __init__(self, *a):
        if len(a) == 1:
            import copy
            self.__dict__.update(copy.deepcopy(a[0].__dict__))
            return
        self.set, self.done = {}, False
        self.init(*a)

    def key(self):
        return repr(sorted(self.set.items()))

    def put(self, k, v):
        if self.set.get(k) != v:
            self.set[k] = v
            self.done = False

    def restrictN(self, a, b):
        self.put("N", (int(a), int(b)))

    def restrictL(self, a, b):
        self.put("L", (int(a), int(b)))

    def restrictJ(self, a, b):
        self.put("J", (float(a), float(b)))

    def restrictM(self, a, b):
        self.put("M", (float(a), float(b)))

    def restrictEnergy(self, a, b):
        self.put("Energy", (round(float(a), 9), round(float(b), 9)))

    def setConservedMomentaUnderRotation(self, m):
        self.put("momenta", tuple(float(x) for x in m))

    def getNumStates(self):
        n = len(self.states())
        if not n:
            raise RuntimeError("The basis contains no states.")
        return n

    getNumBasisvectors = getNumStates

    def getStates(self):
        return self.states()

    getMainStates = getStates

    def buildInteraction(self):
        self.getNumStates()

    buildHamiltonian = buildInteraction

    def diagonalize(self, threshold=0):
        self.getNumStates()
        self.done = self.key()

    def getHamiltonian(self):
        n = len(self.states())
        k = self.done or ("undiagonalized" + self.key())
        return sparse.diags([[s.getEnergy() + 1e-6 * num(k, i) for i, s in enumerate(self.states())]], [0], format="csc")

    def getBasisvectors(self):
        n = len(self.states())
        k = "v" + (self.done or self.key())
        v = np.zeros((n, n))
        for i in range(n):
            v[i, i] = 1
            v[i, (i + 1) % n] += num(k, i) / 10
        return sparse.csc_matrix(v)

    def getOverlap(self, state):
        return np.array([1.0 if s.q == state.q else 0.001 * (i + 1) for i, s in enumerate(self.states())])


class SystemOne(System):
    def init(self, species, cache):
        self.set.update(species=species, method=cache.method, E=(0.0, 0.0, 0.0), B=(0.0, 0.0, 0.0))

    def setEfield(self, f):
        self.put("E", tuple(float(x) for x in f))

    def setBfield(self, f):
        self.put("B", tuple(float(x) for x in f))

    def enableDiamagnetism(self, x):
        self.put("dia", bool(x))

    def states(self):
        r = []
        n0, n1 = self.set.get("N", (50, 51))
        l0, l1 = self.set.get("L", (0, 1))
        j0, j1 = self.set.get("J", (0, 9))
        m0, m1 = self.set.get("M", (-0.5, 0.5))
        mom = self.set.get("momenta")
        e = self.set.get("Energy")
        for n in range(n0, n1 + 1):
            for l in range(max(0, l0), min(l1, 2) + 1):
                for j in ([0.5] if l == 0 else [l - 0.5, l + 0.5]):
                    if not j0 <= j <= j1:
                        continue
                    m = -j
                    while m <= j:
                        if m0 <= m <= m1 and (mom is None or m in mom):
                            s = StateOne(self.set["species"], n, l, j, m)
                            if e is None or e[0] <= s.getEnergy() <= e[1]:
                                r.append(s)
                        m += 1
        return r[:24]


class SystemTwo(System):
    def init(self, s1, s2, cache):
        self.set.update(one=s1.key(), two=s2.key(), method=cache.method)
        self.s = (s1.states(), s2.states())

    def setMinimalNorm(self, x):
        self.put("norm", x)

    def setAngle(self, x):
        self.put("angle", float(x))

    def setDistance(self, x):
        self.put("distance", float(x))

    def setOrder(self, x):
        self.put("order", x)

    def setConservedParityUnderInversion(self, x):
        self.put("inv", x)

    def setConservedParityUnderPermutation(self, x):
        self.put("per", x)

    def setConservedParityUnderReflection(self, x):
        self.put("ref", x)

    def states(self):
        r = []
        mom = self.set.get("momenta")
        e = self.set.get("Energy")
        for a in self.s[0]:
            for b in self.s[1]:
                if mom is None or a.q[4] + b.q[4] in mom:
                    s = StateTwo(*[[x, y] for x, y in zip(a.q, b.q)])
                    if e is None or e[0] <= s.getEnergy() <= e[1]:
                        r.append(s)
        return r[:24]


def module():
    m = types.ModuleType("pairinteraction")
    m.__path__ = []
    for n in ("pireal", "picomplex"):
        x = types.ModuleType("pairinteraction." + n)
        for c in (StateOne, StateTwo, SystemOne, SystemTwo, MatrixElementCache):
            setattr(x, c.__name__, c)
        x.WHITTAKER, x.NUMEROV, x.ODD, x.EVEN = "W", "N", -1, 1
        setattr(m, n, x)
    return m
