"""Reference values of the documented formulas in extended precision, log-space."""
import numpy as np

LD = np.longdouble
KB_REF, H_REF = 8.617333262145e-5, 4.135667696e-3


def const(mod, name, ref):
    v = getattr(mod, name, None)
    try:
        return LD(v) if abs(float(v) - ref) <= 1e-9 * ref else LD(ref)
    except Exception:
        return LD(ref)


def user_strength(nu, g):
    return 4 * np.cos(10 * nu[:, 0] + g)


class Ref:
    def __init__(self, inst, kb=None, h=None):
        import occuprob.utils as u
        import occuprob.partitionfunctions as p
        self.kb = const(u, 'KB', KB_REF)
        self.h = const(p, 'H', H_REF)
        self.i = inst
        T = inst['T'].astype(LD)
        with np.errstate(all='ignore'):
            self.beta = np.where(T > 0, 1 / (self.kb * np.where(T > 0, T, 1)), np.inf).astype(LD)
        self.T = T

    def erel(self):
        E = self.i['E']
        E = E.astype(LD)
        return E - E.min()

    def logI(self):
        I = self.i['I'].astype(LD)
        return np.log(np.where(I > 0, I, LD(1))).sum(axis=1)

    def x(self, beta):
        return LD(0.5) * self.h * self.i['nu'].astype(LD) * beta       # (N, D)

    # per column quantities, T > 0
    def logw(self, kind, beta):
        i = self.i
        if kind == 'e':
            return np.log(i['g'].astype(LD)) - beta * self.erel()
        if kind == 'c':
            return -np.log(i['nu'].astype(LD)).sum(axis=1)
        if kind == 'q':
            x = self.x(beta)
            return -(x + np.log(-np.expm1(-2 * x))).sum(axis=1)
        if kind == 'u':
            return self.q_user() / (1 + 1 / (beta * LD('0.01')))
        return LD(0.5) * self.logI() - np.log(i['sg'].astype(LD))

    def q_user(self):
        return user_strength(self.i['nu'].astype(LD), self.i['g'].astype(LD))

    def qbudget(self, beta):
        x = self.x(beta)
        return np.abs(x + np.log(-np.expm1(-2 * x))).sum(axis=1).max()

    def w(self, kind, beta):
        i = self.i
        n = len(i['E'])
        if kind == 'e':
            return -beta * self.erel()
        if kind == 'c':
            return np.full(n, -LD(i['nu'].shape[1]))
        if kind == 'q':
            x = self.x(beta)
            return -(x / np.tanh(x)).sum(axis=1)
        if kind == 'u':
            u = beta * LD('0.01')
            return self.q_user() * u / (1 + u) ** 2
        return np.full(n, LD(-1.5))

    def v(self, kind, beta):
        i = self.i
        n = len(i['E'])
        if kind == 'e':
            return np.zeros(n, LD)
        if kind == 'c':
            return np.full(n, LD(i['nu'].shape[1]))
        if kind == 'q':
            x = self.x(beta)
            return (4 * x * x * np.exp(-2 * x) / np.expm1(-2 * x) ** 2).sum(axis=1)
        if kind == 'u':
            u = beta * LD('0.01')
            return -2 * self.q_user() * u * u / (1 + u) ** 3
        return np.full(n, LD(1.5))

    def prob_col(self, kinds, j, zpe=True):
        """P at column j; at 0 K the limit (zpe=False: zero-point energy left out)."""
        b = self.beta[j]
        if np.isfinite(b):
            L = sum(self.logw(k, b) for k in kinds)
        else:
            i = self.i
            L = np.zeros(len(i['E']), LD)
            low = np.zeros(len(i['E']), LD)
            for k in kinds:
                if k == 'e':
                    L = L + np.log(i['g'].astype(LD))
                    low = low + self.erel()
                elif k == 'q':
                    if zpe:
                        low = low + LD(0.5) * self.h * i['nu'].astype(LD).sum(axis=1)
                elif k == 'u':
                    L = L + self.q_user()
                else:
                    L = L + self.logw(k, LD(1))
            L = np.where(low == low.min(), L, -np.inf)
        L = L - L.max()
        p = np.exp(L)
        return p / p.sum()

    def prob(self, kinds, zpe=True):
        return np.stack([self.prob_col(kinds, j, zpe) for j in range(len(self.T))], axis=1)

    def heat(self, kinds):
        """(values, absolute rounding scale)"""
        out, scale = [], []
        i = self.i
        for j, b in enumerate(self.beta):
            if not np.isfinite(b):
                out.append(LD(i['nu'].shape[1] * kinds.count('c') + 1.5 * kinds.count('r')))
                scale.append(out[-1] ** 2)
                continue
            P = self.prob_col(kinds, j)
            W = sum(self.w(k, b) for k in kinds)
            V = sum(self.v(k, b) for k in kinds)
            m = (P * W).sum()
            out.append((P * V).sum() + (P * (W - m) ** 2).sum())
            scale.append((P * W * W).sum() + m * m + (P * V).sum())
        return np.array(out, LD), np.array(scale, LD)

    def ok_columns(self, kinds):
        """Temperatures at which the documented weights are representable."""
        keep = []
        for j, b in enumerate(self.beta):
            if not np.isfinite(b):
                keep.append(True)
                continue
            good = True
            if 'q' in kinds and self.qbudget(b) > 11000:
                good = False
            elif 'e' in kinds and len(kinds) > 1:
                big = b * self.erel() > 690
                if big.any() and self.prob_col(kinds, j)[big].max() > LD('1e-200'):
                    good = False
            keep.append(good)
        return np.array(keep)

    def representable(self, kinds):
        """Temperature-independent part: classical weights in the type of the frequencies."""
        if 'c' in kinds:
            lim = 600 if self.i['nu'].dtype != LD else 9000
            if np.abs(self.logw('c', LD(1))).max() * kinds.count('c') > lim:
                return False
        return True
