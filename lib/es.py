"""Reference of the evolution strategy, driven by the recorded individuals and costs of a real run.

It shares nothing with the code under test: mutation vectors are recovered from the recorded individuals, the
principal axes from an eigenvalue decomposition of its own."""
import math


def sum(xs):
    """plain summation (that of Python compensates rounding errors)"""
    t = 0.0
    for x in xs:
        t += x
    return t


EPS = 2.0 ** -52
MAXCOND = 0.01 / EPS


def jacobi(A):
    """eigenvalues (ascending) and eigenvectors (columns) of a symmetric matrix (list of rows)"""
    n = len(A)
    A = [list(r) for r in A]
    V = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for sweep in range(60):
        off = sum(A[i][j] ** 2 for i in range(n) for j in range(i))
        if off <= 1e-300:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if A[p][q] == 0.0:
                    continue
                if abs(A[p][q]) < 1e-18 * math.sqrt(abs(A[p][p] * A[q][q])):
                    A[p][q] = A[q][p] = 0.0
                    continue
                th = (A[q][q] - A[p][p]) / (2.0 * A[p][q])
                t = (1.0 if th >= 0 else -1.0) / (abs(th) + math.sqrt(th * th + 1.0)) if abs(th) < 1e150 else 0.5 / th
                c = 1.0 / math.sqrt(t * t + 1.0)
                s = t * c
                for k in range(n):
                    a, b = A[k][p], A[k][q]
                    A[k][p], A[k][q] = c * a - s * b, s * a + c * b
                for k in range(n):
                    a, b = A[p][k], A[q][k]
                    A[p][k], A[q][k] = c * a - s * b, s * a + c * b
                for k in range(n):
                    a, b = V[k][p], V[k][q]
                    V[k][p], V[k][q] = c * a - s * b, s * a + c * b
    o = sorted(range(n), key=lambda i: A[i][i])
    return [A[i][i] for i in o], [[V[k][i] for i in o] for k in range(n)]


class Strategy:
    """State of the search after each generation; `err` estimates its relative error, None once it cannot be known."""

    def __init__(self, n, mu, lam, step, accuracy, lo, up):
        self.n, self.mu, self.lam, self.acc = n, mu, lam, accuracy
        self.x = [0.5 * (a + b) for a, b in zip(lo, up)]
        self.d = [0.5 * (b - a) for a, b in zip(lo, up)]
        self.s = step
        self.w = w = [math.log((mu + 0.5) / (i + 1)) for i in range(mu)]
        wv = sum(w) ** 2 / sum(x * x for x in w)
        self.cs = (2.0 + wv) / (5.0 + n + wv)
        self.cc = (4.0 + wv / n) / (4.0 + n + 2.0 * wv / n)
        self.acov = 2.0 / ((n + 1.3) ** 2 + wv)
        self.ccov = min(1.0 - self.acov, 2.0 * (wv - 2.0 + 1.0 / wv) / ((n + 2.0) ** 2 + wv))
        self.damp = self.cs + 1.0 + 2.0 * max(0.0, math.sqrt((wv - 1.0) / (n + 1.0)) - 1.0)
        self.ws = sum(w)
        self.cw = self.ws / math.sqrt(sum(x * x for x in w))
        self.en = (n - 0.25 + 1.0 / (21 * n)) / math.sqrt(n)
        self.C = [[self.d[i] ** 2 if i == j else 0.0 for j in range(n)] for i in range(n)]
        self.B = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
        self.pc, self.ps = [0.0] * n, [0.0] * n
        self.err = 1e-13
        self.g = 0

    def generation(self, xs, ys):
        """-> 'underflow', 'maybe' (nothing is known), 'optimized', 'close' (to the goal, either may be), 'continue'"""
        n, mu = self.n, self.mu
        self.g += 1
        if any(y != y for y in ys):
            return "maybe"
        o = sorted(range(self.lam), key=lambda k: ys[k])
        same = sum(1 for y in ys if y == ys[o[0]])
        if same == self.lam:
            return "underflow"
        if same > mu:
            return "maybe"
        if any(ys[o[k]] == ys[o[k + 1]] and xs[o[k]] != xs[o[k + 1]] for k in range(mu)):
            return "maybe"
        p, w, ws, s = o[:mu], self.w, self.ws, self.s
        if s <= 0 or s != s:
            return "maybe"
        scale = max(abs(self.x[i]) * EPS / (s * math.sqrt(self.C[i][i])) if self.C[i][i] > 0 else 1.0 for i in range(n))
        self.err += scale * 20
        if self.err > 1e-4:
            return "maybe"
        u = [[(xs[k][i] - self.x[i]) / s for i in range(n)] for k in p]
        uw = [sum(w[a] * u[a][i] for a in range(mu)) / ws for i in range(n)]
        # B D^-1 B^T u
        t = [sum(self.B[i][j] * uw[i] for i in range(n)) / self.d[j] for j in range(n)]
        vw = [sum(self.B[i][j] * t[j] for j in range(n)) for i in range(n)]
        m = []
        for i in range(n):
            a = 0.0
            for k in range(mu):
                a += w[k] * xs[p[k]][i]
            q = [xs[k][i] for k in p]
            m.append(min(max(a / ws, min(q)), max(q)))
        self.x = m
        csu, ccu = math.sqrt(self.cs * (2.0 - self.cs)), math.sqrt(self.cc * (2.0 - self.cc))
        if self.acov > 0 or self.ccov > 0:
            self.pc = [(1.0 - self.cc) * self.pc[i] + ccu * self.cw * uw[i] for i in range(n)]
            C = self.C
            for i in range(n):
                for j in range(i, n):
                    z = sum(w[k] * u[k][i] * u[k][j] for k in range(mu)) / ws
                    c = C[i][j] + self.acov * (self.pc[i] * self.pc[j] - C[i][j])
                    c += self.ccov * (z - C[i][j])
                    C[i][j] = C[j][i] = c
            d, self.B = jacobi(C)
            if not all(x == x and x < 1e300 for x in d) or d[0] <= d[n - 1] / MAXCOND * 1.01 or d[n - 1] <= 0:
                return "maybe"
            # the error of the smallest eigenvalues grows with the spread of scales
            self.err = max(self.err, EPS * d[n - 1] / d[0] * 10)
            self.d = [math.sqrt(x) for x in d]
        self.ps = [(1.0 - self.cs) * self.ps[i] + csu * self.cw * vw[i] for i in range(n)]
        self.s = s * math.exp(self.cs / self.damp * (math.sqrt(sum(x * x for x in self.ps)) / self.en - 1.0))
        r = max(self.s ** 2 * self.C[i][i] / ((self.acc * self.x[i]) ** 2 + 1.0 / MAXCOND) for i in range(n))
        tol = 1e-7 + 100 * self.err
        return "optimized" if r < 1 - tol else "continue" if r > 1 + tol else "close"


def parabola(s, pairs, zx):
    """rescaled step of the parabola search; pairs: iterator of (zp, zq). -> list per axis needs n calls"""
    a = b = 0.0
    c = s
    while True:
        zp, zq = next(pairs)
        h = abs((zp + zq) - (zx + zx))
        g = c / math.sqrt(h) if h > 0 else math.inf
        if abs(0.5 * (zp + zq) - zx) < 0.5:
            a, c = c, c * 1.618
        else:
            b, c = c, c * 0.618
        if not ((a == 0.0 or b == 0.0) and 2.2250738585072014e-308 <= c <= 1.7976931348623157e308):
            return g
