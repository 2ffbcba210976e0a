"""Numeric evaluation of the closed-form layered-earth solution (the same
specification functions as checks/kspec.py, written for concrete numbers)."""
import numpy as np

ABS = [11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26, 31, 32, 33, 34, 35, 36, 41, 42, 43, 44, 45, 46, 51, 52, 53, 54, 55, 56, 61, 62, 63, 64, 65, 66]
AB_CALC = [11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26, 31, 32, 33, 34, 35]
PLUS = (13, 23, 33, 14, 24, 34, 15, 25, 35)


class Mode:
    """one polarisation: e, Gamma per layer; amplitudes at the receiver layer"""

    def __init__(self, depth, e, G, s, r, zs, pm):
        self.d, self.e, self.G, self.s, self.r, self.zs, self.pm = depth, e, G, s, r, zs, pm
        self.N = len(e)

    def h(self, l):
        return self.d[l+1]-self.d[l]

    def R(self, sg, l):
        end = self.N-1 if sg > 0 else 0
        if l == end:
            return 0*self.G[0]
        m = l+sg
        a, b = self.e[m]*self.G[l], self.e[l]*self.G[m]
        q = (a-b)/(a+b)
        if m == end:
            return q
        x = self.R(sg, m)*np.exp(-2*self.G[m]*self.h(m))
        return (q+x)/(1+q*x)

    def enter(self, up, l):
        if l == (0 if up else self.N-1):
            return 1
        return 1+self.R(-1 if up else 1, l)*np.exp(-2*self.G[l]*self.h(l))

    def amp(self, up):
        s, r, z, N, pm = self.s, self.r, self.zs, self.N, self.pm
        E = lambda x: np.exp(-self.G[s]*x)
        last, first = s == N-1, s == 0
        Rp, Rm = self.R(1, s), self.R(-1, s)
        zero = 0*self.G[0]
        dp = None if last else self.d[s+1]-z
        dm = None if first else z-self.d[s]
        inner = not (last or first)
        den = 1-Rp*Rm*E(2*self.h(s)) if inner else 1
        if s == r:
            if up:
                if last:
                    return zero
                return Rp*E(dp) if first else Rp*(E(dp)+pm*Rm*E(self.h(s)+dm))/den
            if first:
                return zero
            return Rm*E(dm) if last else Rm*(E(dm)+pm*Rp*E(self.h(s)+dp))/den
        if up != (r < s):
            return zero
        if up:
            A = pm*((1+Rm)*E(dm) if last else (E(dm)+pm*Rp*E(self.h(s)+dp))*(1+Rm)/den)
            path = range(s-1, r-1, -1)
        else:
            A = (1+Rp)*E(dp) if first else (E(dp)+pm*Rm*E(self.h(s)+dm))*(1+Rp)/den
            path = range(s+1, r+1)
        for l in path:
            A = A/self.enter(up, l)
            if l != r:
                A = A*(1+self.R(-1 if up else 1, l))*np.exp(-self.G[l]*self.h(l))
        return A


def green(zs, zr, s, r, depth, eH, eV, zH, zV, lam, ab, xd, msrc, mrec):
    """P^TM, P^TE of one frequency; lam any shape"""
    N = len(eH)
    if mrec and msrc:
        eH, eV, zH, zV = -zH, -zV, -eH, -eV
    elif mrec:
        s, r, zs, zr = r, s, zr, zs
    lam = np.asarray(lam, dtype=float)
    out = []
    for tag, e, v, o in (('TM', eH, eV, zH), ('TE', zH, zV, eH)):
        G = [np.sqrt(e[l]/v[l]*lam**2 + o[l]*e[l] + 0j) for l in range(N)]
        pm = 1 if (ab in PLUS) == (tag == 'TM') else -1
        M = Mode(depth, e, G, s, r, zs, pm)
        E = lambda x: np.exp(-G[r]*x)
        Wu = E(depth[r+1]-zr) if r < N-1 else 0*G[0]
        Wd = E(zr-depth[r]) if r > 0 else 0*G[0]
        if s == r:
            sg = -1 if ab in (13, 23, 31, 32, 14, 24, 15, 25) else 1
            g = M.amp(True)*Wu + sg*M.amp(False)*Wd if N > 1 else 0*G[0]
            if not xd:
                d = E(abs(zs-zr))
                if tag == 'TM' and ab in (11, 12, 13, 14, 15, 21, 22, 23, 24, 25):
                    d = -d
                if ab in (13, 14, 15, 23, 24, 25, 31, 32):
                    d = d*np.sign(zr-zs)
                g = g+d
        else:
            pmw = -1 if tag == 'TM' and ab in (11, 12, 13, 21, 22, 23, 14, 24, 15, 25) else 1
            if r < s:
                t = M.R(-1, r)*E(M.h(r))*Wd if r > 0 else 0
                g = M.amp(True)*(Wu + pmw*t)
            else:
                t = M.R(1, r)*E(M.h(r))*Wu if r < N-1 else 0
                g = M.amp(False)*(pmw*Wd + t)
        Gs, Gr = G[s], G[r]
        if tag == 'TM':
            if ab in (16, 26):
                f = 0
            elif ab in (11, 12, 21, 22):
                f = Gr/eH[r]
            elif ab in (14, 15, 24, 25):
                f = eH[s]/eH[r]*Gr/Gs
            elif ab in (13, 23):
                f = -eH[s]/(eH[r]*eV[s])*Gr/Gs
            elif ab in (31, 32):
                f = 1/eV[r]
            elif ab in (34, 35):
                f = eH[s]/eV[r]/Gs
            else:
                f = eH[s]/(eV[s]*eV[r])/Gs
        else:
            if ab in (13, 23, 31, 32, 33, 34, 35):
                f = 0
            elif ab in (11, 12, 21, 22):
                f = zH[s]/Gs
            elif ab in (14, 15, 24, 25):
                f = 1
            else:
                f = zH[s]/zV[s]/Gs
        out.append(g*f)
    return out


def wavenumber(zs, zr, s, r, depth, eH, eV, zH, zV, lam, ab, xd, msrc, mrec):
    tm, te = green(zs, zr, s, r, depth, eH, eV, zH, zV, lam, ab, xd, msrc, mrec)
    sg = -1 if mrec else 1
    tot = (tm+te)/(4*np.pi)
    if ab == 33:
        return sg*tot*lam**3, None, None
    if ab in (13, 23, 31, 32, 35, 16):
        return None, sg*tot*lam**2, None
    if ab in (34, 26):
        return None, -sg*tot*lam**2, None
    q = -sg if ab in (14, 22) else sg
    b = q*tot*lam/2
    if ab in (12, 21, 14, 25):
        return None, -q*tot, b
    s0 = {11: 1, 22: 1, 15: 1, 24: -1}[ab]*sg
    return s0*(tm-te)*lam/(8*np.pi), -q*tot, b


def factor(ab, phi, mrec_esrc=False):
    """angle factor of an internally computed component at azimuth phi"""
    if ab in (33,):
        return np.ones_like(phi)
    if mrec_esrc:
        phi = phi+np.pi
    f = {11: np.cos(2*phi), 22: np.cos(2*phi), 15: np.cos(2*phi), 24: np.cos(2*phi), 12: np.sin(2*phi), 21: np.sin(2*phi), 14: np.sin(2*phi), 25: np.sin(2*phi),
         13: np.cos(phi), 31: np.cos(phi), 26: np.cos(phi), 35: np.cos(phi), 23: np.sin(phi), 32: np.sin(phi), 16: np.sin(phi), 34: np.sin(phi)}
    return f[ab]
