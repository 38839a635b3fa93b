"""Reference computation of optical depths, line spread and continuum, written from the definitions."""
import cmath, math

C_LIGHT = 299792458.0
KMS = 1e-3 * C_LIGHT
AMP = 1e-6 * 1.6021766208e-19 ** 2 / (4.0 * 8.854187817e-12 * 9.10938356e-31 * C_LIGHT ** 2)   # 1e-20 ... per Angstrom and cm-2
N = 40


def _weideman():
    M, M2 = 2 * N, 4 * N
    L = math.sqrt(N / math.sqrt(2.0))
    th = [math.pi * k / M for k in range(-M + 1, M)]
    f = [0.0] + [math.exp(-(L * math.tan(t / 2)) ** 2) * (L * L + (L * math.tan(t / 2)) ** 2) for t in th]
    # real part of the Fourier transform of the shifted samples
    g = f[M:] + f[:M]
    a = [sum(g[j] * math.cos(2 * math.pi * j * k / M2) for j in range(M2)) / M2 for k in range(N + 1)]
    return L, a[1:]


_L, _A = _weideman()


def faddeeva(z):
    Z = (_L + 1j * z) / (_L - 1j * z)
    p = 0
    for a in reversed(_A):
        p = p * Z + a
    return 2 * p / (_L - 1j * z) ** 2 + (1 / math.sqrt(math.pi)) / (_L - 1j * z)


class Line:
    """optical depth of a line with parameters q of a flavour"""

    def __init__(self, fl, q):
        lam = q[0]
        if fl == "azafran":
            al = q[7] * 1e-6
            lam = 1e8 / (1e8 / lam + q[6] * al * (al + 2.0))
        self.z = (1.0 + q[2]) * (1.0 + q[3] / KMS)
        self.c = lam * self.z
        self.b = q[4] * self.c / KMS
        self.a = AMP * q[1] * 10.0 ** q[5] * lam * self.c
        self.d = 1e-10 / (4 * math.pi * C_LIGHT) * q[6] * lam * self.c if fl in ("oregano", "mascada") else None
        # relative accuracy of the approximation used by the program, at the centre
        self.acc = {None: 0.0, "oregano": 0.015, "mascada": 0.002}[fl if self.d is not None else None]

    def __call__(self, x):
        y = (x - self.c) / self.b
        if self.d is None:
            return self.a / (math.sqrt(math.pi) * self.b) * math.exp(-y * y) if abs(y) < 4.0 else 0.0
        return self.a / (math.sqrt(math.pi) * self.b) * faddeeva(complex(y, self.d / self.b)).real

    def peak(self):
        return self(self.c)

    def edge(self, x):
        """the profile is cut off here"""
        return self.d is None and abs(abs(x - self.c) - 4.0 * self.b) < 1e-5 * self.b

    def width(self):
        """equivalent width in mA in the rest frame"""
        f = lambda x: -math.expm1(-self(self.c + x))
        if self.d is None:
            n, w = 600, 4.0 * self.b * (1 - 1e-12)
            h = w / n
            s = f(0.0) + f(w) + sum((4 if k % 2 else 2) * f(k * h) for k in range(1, n))
            return 2e3 * s * h / 3.0 / self.z
        # far wings
        n, w = 500, 0.02 * self.b
        h = 24.0 / n
        s = 0.5 * f(0.0) + sum(math.cosh(k * h) * f(w * math.sinh(k * h)) for k in range(1, n))
        return 2e3 * s * h * w / self.z


def spread(x, tau, r, printed):
    """bounds of the convolved absorption at the points x (evenly spaced); beyond the ends the absorption is anything between the last two samples; printed: atm at x, or tau for super-sampling"""
    n = len(x)
    cen = 0.5 * (x[0] + x[-1])
    h = 0.5 * cen / (r * 1000.0)
    d = (x[-1] - x[0]) / (n - 1)
    s = math.ceil(d / h)
    if s == 1:
        a = list(printed)
    else:
        if tau is None:
            return None
        a = []
        for i in range(n - 1):
            for k in range(s):
                a.append(math.exp(-tau(x[i] + (x[i + 1] - x[i]) * k / s)))
        a.append(math.exp(-tau(x[-1])))
    w = d / s
    m = int(4.0 * (h / w)) + 1
    b = h / math.sqrt(math.log(2.0))
    P = [0.5 * math.erf(k * w / b) for k in range(m)]
    G = [math.exp(-(k * w / b) ** 2) / (b * math.sqrt(math.pi)) for k in range(m)]
    out = []
    for i in range(n):
        c = i * s
        t = lo = hi = 0.0
        for j in range(m - 1):
            for sign in (1, -1):
                k, l = c + sign * j, c + sign * (j + 1)
                if l < 0 or l >= len(a):
                    e = (a[0], a[1]) if l < 0 else (a[-1], a[-2])
                    lo += min(e) * (P[j + 1] - P[j])
                    hi += max(e) * (P[j + 1] - P[j])
                    continue
                y0, y1 = a[k], a[l]
                B = (y1 - y0) / w
                # integral of g(u) (y0 + B (u - j w)) over [j w, (j+1) w]
                t += (y0 - B * j * w) * (P[j + 1] - P[j]) + B * 0.5 * b * b * (G[j] - G[j + 1])
        out.append((t + lo, t + hi))
    return out


def legendre(t, m):
    l = [1.0, t]
    for j in range(1, m):
        l.append(((2 * j + 1) * t * l[j] - j * l[j - 1]) / (j + 1))
    return l[:m]


def continuum(x, f, u, ok, cat, m):
    """least-squares continuum at x, or None if it is badly determined"""
    if m == 0:
        return [1.0] * len(x)
    w = x[-1] - x[0]
    l = [legendre(2.0 * (t - x[0]) / w - 1.0, m) for t in x]
    A = [[0.0] * (m + 1) for _ in range(m)]
    for i in range(len(x)):
        if ok[i]:
            p = cat[i] / u[i] ** 2
            for j in range(m):
                for k in range(m):
                    A[j][k] += cat[i] * p * l[i][j] * l[i][k]
                A[j][m] += f[i] * p * l[i][j]
    big = max(A[j][j] for j in range(m))
    for j in range(m):
        q = max(range(j, m), key=lambda k: abs(A[k][j]))
        A[j], A[q] = A[q], A[j]
        if abs(A[j][j]) < 1e-5 * big:
            return None
        for k in range(m):
            if k != j:
                t = A[k][j] / A[j][j]
                for e in range(j, m + 1):
                    A[k][e] -= t * A[j][e]
    c = [A[j][m] / A[j][j] for j in range(m)]
    return [sum(c[j] * r[j] for j in range(m)) for r in l]
