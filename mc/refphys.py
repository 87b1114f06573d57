"""Independent (plain Python, scalar) transcription of the documented global-model physics.

Every quantity is returned together with a scale (the size of its largest contribution), so that comparisons can be made
relative to the terms which were summed."""
import math

E, KB, EPS0, ME, AMU = 1.602176634e-19, 1.380649e-23, 8.8541878128e-12, 9.1093837015e-31, 1.66053906660e-27
SCCM = 4.485e17
NAN = float('nan')


def _log(x):
    return math.log(x) if x > 0 else (-math.inf if x == 0 else NAN)


def _pow(x, p):
    if x < 0 and p != int(p):
        return NAN
    return x ** p


class Phys(object):
    """names: heavy species; info[name] = dict(charge, mass [amu], sigma [A], stick, ret {name: coef});
    reactions: list of dicts(lhs, rhs, a [SI], b, c, loss, elastic); all in the order of the model."""

    def __init__(self, names, info, reactions, par, neutral=False, wall_model=1):
        self.names, self.info, self.rs, self.par, self.neutral, self.wall_model = names, info, reactions, par, neutral, wall_model
        self.N, self.R = len(names), len(reactions)
        self.mass = [info[n]['mass'] * AMU for n in names]
        self.q = [info[n]['charge'] for n in names]
        self.V = math.pi * par['r'] ** 2 * par['z']
        self.A = 2 * math.pi * par['r'] * (par['r'] + par['z'])
        self.L = 1. / math.sqrt((math.pi / par['z']) ** 2 + (2.405 / par['r']) ** 2)
        self.flow = [par['feeds'].get(n, 0.) * SCCM / self.V for n in names]

    def net(self, r, name):
        return r['rhs'].count(name) - r['lhs'].count(name)

    def state(self, y):
        """Everything that depends on the state only: {quantity: (value, scale)}"""
        N, q, par = self.N, self.q, self.par
        out = {}
        n = [float(x) for x in y[:N]]
        rho = float(y[N])
        ntot = math.fsum(n)
        nabs = math.fsum(abs(x) for x in n)
        out['density_vector'] = (n, [0.] * N)
        out['electron_energy_density'] = (rho, 0.)
        out['total_density'] = (ntot, nabs)
        p = KB * par['Tg'] * ntot
        out['total_pressure'] = (p, KB * par['Tg'] * nabs)
        mtorr = 0.133322
        Ti = 0.5 * E / KB
        if p > mtorr:
            Ti = (Ti - par['Tg']) * mtorr / p + par['Tg']
        out['ion_temperature'] = (Ti, 0.)
        Tg_ev = par['Tg'] * KB / E
        if self.neutral:
            ne, Te, debye = 0., NAN, NAN
        else:
            ne = math.fsum(a * b for a, b in zip(n, q))
            Te = max(rho / ne / 1.5, Tg_ev) if ne != 0 else NAN
            debye = math.sqrt(EPS0 * Te / E / ne) if ne > 0 else NAN
            out['debye_length'] = (debye, 0.)
        out['electron_density'] = (ne, nabs)
        out['electron_temperature'] = (Te, 0.)
        # reactions
        k, rates = [], []
        for r in self.rs:
            if 'e' in r['lhs']:
                kk = r['a'] * _pow(Te, r['b']) * math.exp(-r['c'] / Te)
            else:
                kk = r['a'] * (par['Tg'] / 300.) ** r['b'] * math.exp(-r['c'] / par['Tg'])
            k.append(kk)
            rate = kk
            for x in r['lhs']:
                rate *= ne if x == 'e' else ntot if x == 'M' else n[self.names.index(x)]
            rates.append(rate)
        out['reaction_rate_coefficients'] = (k, [0.] * self.R)
        out['reaction_rates'] = (rates, [0.] * self.R)
        vol = [math.fsum(self.net(r, x) * w for r, w in zip(self.rs, rates)) for x in self.names]
        vols = [math.fsum(abs(self.net(r, x) * w) for r, w in zip(self.rs, rates)) for x in self.names]
        out['volumetric_source_rates'] = (vol, vols)
        # flows
        neu = [i for i in range(N) if q[i] == 0]
        nneu = math.fsum(n[i] for i in neu)
        tot_flow = math.fsum(self.flow)
        flow, flows = [], []
        for i in range(N):
            f, s = self.flow[i], abs(self.flow[i])
            if i in neu:
                reg = n[i] / 1e-3 * (p - par['p']) / par['p']
                outf = tot_flow * n[i] / nneu if nneu else NAN
                f -= reg + outf
                s += abs(n[i]) / 1e-3 * (abs(p) + par['p']) / par['p'] + abs(outf)
            flow.append(f)
            flows.append(s)
        out['flow_source_rates'] = (flow, flows)
        # transport
        v = [math.sqrt(8 * KB * (par['Tg'] if q[i] == 0 else Ti) / (math.pi * self.mass[i])) for i in range(N)]
        out['mean_speeds'] = (v, [0.] * N)
        sig = [[0.] * N for _ in range(N)]
        for i in range(N):
            for j in range(N):
                if i == j:
                    continue
                if q[i] == 0 or q[j] == 0:
                    sig[i][j] = (1e-10 * (self.info[self.names[i]]['sigma'] + self.info[self.names[j]]['sigma'])) ** 2
                else:
                    mu = self.mass[i] * self.mass[j] / (self.mass[i] + self.mass[j])
                    b0 = E ** 2 * abs(q[i] * q[j]) / (2 * math.pi * EPS0) / (mu * v[i] ** 2)
                    sig[i][j] = math.pi * b0 ** 2 * (_log(2 * debye / b0) if debye == debye else NAN)
        out['sigma_sc'] = (sig, [[1e-22] * N for _ in range(N)])
        mfp = []
        for i in range(N):
            s = math.fsum(n[j] * sig[i][j] for j in range(N))
            mfp.append(1. / s if s else math.inf)
        out['mean_free_paths'] = (mfp, [0.] * N)
        dfree = [math.pi / 8 * a * b for a, b in zip(mfp, v)]
        out['free_diffusivities'] = (dfree, [0.] * N)
        diff = list(dfree)
        if not self.neutral:
            pos = [i for i in range(N) if q[i] > 0]
            gamma = Te * E / KB / Ti
            alpha = math.fsum(n[i] for i in range(N) if q[i] < 0) / ne if ne else NAN
            apos = math.fsum(dfree[i] for i in pos) / len(pos) * (1 + gamma * (1 + 2 * alpha)) / (1 + alpha * gamma)
            out['ambipolar_diffusivity_pos'] = (apos, 0.)
            out['ambipolar_diffusivity_neg'] = (0., 0.)
            diff = [dfree[i] if q[i] == 0 else apos if q[i] > 0 else 0. for i in range(N)]
        out['diffusivities'] = (diff, [0.] * N)
        flux = []
        for i, x in enumerate(self.names):
            s = self.info[x]['stick']
            if s == 0:
                flux.append(0.)
            elif self.wall_model == 0:
                flux.append(-diff[i] * n[i] * s / self.L ** 2 * self.V / self.A)
            else:
                den = s * self.L + 4 * diff[i] / v[i]
                flux.append(-diff[i] * n[i] * s / den if den else NAN)
        out['wall_fluxes'] = (flux, [0.] * N)
        sinks = [f * self.A / self.V for f in flux]
        out['diffusion_sinks'] = (sinks, [0.] * N)
        src = []
        for i, x in enumerate(self.names):
            src.append(math.fsum(-sinks[j] * self.info[z]['ret'].get(x, 0.) for j, z in enumerate(self.names)))
        out['diffusion_sources'] = (src, [abs(x) for x in src])
        dsr = [a + b for a, b in zip(sinks, src)]
        dsrs = [abs(a) + abs(b) for a, b in zip(sinks, src)]
        out['diffusion_source_rates'] = (dsr, dsrs)
        corr = [(1. - x) / 1e-10 if x < 1. else 0. for x in n]
        out['min_n_correction'] = (corr, [1e10 if x < 1. else 0. for x in n])
        dn = [math.fsum(z) for z in zip(vol, flow, dsr, corr)]
        dns = [math.fsum(z) for z in zip(vols, flows, dsrs, [abs(x) for x in corr])]
        out['dn_dt'] = (dn, dns)
        if self.neutral:
            return out
        # electron energy
        losses = []
        for r in self.rs:
            if 'e' in r['lhs'] and r['elastic']:
                first = [i for i, x in enumerate(self.names) if x in r['lhs']][0]
                losses.append(3 * ME / self.mass[first] * (Te - Tg_ev))
            else:
                losses.append(r['loss'])
        out['el_en_losses'] = (losses, [3e-3 * ME / AMU * Tg_ev] * self.R)
        terms = [l * w for l, w, r in zip(losses, rates, self.rs) if 'e' in r['lhs']]
        out['drho_dt_el_inel'] = (math.fsum(terms), math.fsum(map(abs, terms)))
        terms = [1.5 * Te * self.net(r, 'e') * w for w, r in zip(rates, self.rs)]
        out['drho_dt_gain_loss'] = (math.fsum(terms), math.fsum(map(abs, terms)))
        ew = -2 * Te * math.fsum(a * b for a, b in zip(q, dsr))
        ews = 2 * Te * math.fsum(abs(a) * b for a, b in zip(q, dsrs))
        out['drho_dt_el_walls'] = (ew, ews)
        ion_mass = math.fsum(self.mass[i] for i in pos) / len(pos)
        vsh = Te * 0.5 * math.log(ion_mass / (2 * math.pi * ME))
        out['sheath_voltage'] = (vsh, 0.)
        iw = -0.5 * Te * math.fsum(dsr[i] for i in pos) - vsh * math.fsum(q[i] * dsr[i] for i in pos)
        iws = 0.5 * Te * math.fsum(dsrs[i] for i in pos) + vsh * math.fsum(q[i] * dsrs[i] for i in pos)
        out['drho_dt_ions_walls'] = (iw, iws)
        out['min_rho_correction'] = ((1. - rho) / 1e-10 if rho < 1. else 0., 1e10 if rho < 1. else 0.)
        return out

    # -------------------------------------------------------------------------------------------------- with time
    def power(self, t):
        """Linear interpolation of the waveform; a repeated time is spread by 1e-5 t_end to both sides."""
        ts, ps = [float(x) for x in self.par['t_P']], [float(x) for x in self.par['P']]
        d = 1e-5 * self.par['t_end']
        for i in range(len(ts) - 1):
            if ts[i] == ts[i + 1]:
                ts[i] -= d
                ts[i + 1] += d
        if t <= ts[0]:
            return ps[0]
        for i in range(len(ts) - 1):
            if t <= ts[i + 1]:
                return ps[i] + (ps[i + 1] - ps[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])
        return ps[-1]

    def timed(self, t, st):
        """Quantities depending on time (and on the evaluated state `st`)."""
        P = self.power(t)
        ext = P / self.V / E
        out = {'power_ext': (P, abs(P)), 'drho_dt_ext': (ext, abs(ext))}
        if self.neutral:
            dr, drs = 0., 0.
        else:
            parts = [ext] + [-st[x][0] for x in ('drho_dt_el_inel', 'drho_dt_gain_loss', 'drho_dt_el_walls',
                                                 'drho_dt_ions_walls')] + [st['min_rho_correction'][0]]
            dr = math.fsum(parts)
            drs = abs(ext) + sum(abs(st[x][1]) for x in ('drho_dt_el_inel', 'drho_dt_gain_loss', 'drho_dt_el_walls',
                                                         'drho_dt_ions_walls')) + abs(st['min_rho_correction'][0])
            out['drho_dt'] = (dr, drs)
        out['dy_dt'] = (st['dn_dt'][0] + [dr], st['dn_dt'][1] + [drs])
        return out


def near(got, want, scale, rel=1e-9):
    """Element-wise agreement of nested lists / arrays."""
    if isinstance(want, list):
        return len(got) == len(want) and all(near(g, w, s, rel) for g, w, s in zip(got, want, scale))
    g = float(got)
    if math.isnan(want):
        return math.isnan(g)
    if math.isinf(want):
        return math.isinf(g)
    return g == want or abs(g - want) <= rel * max(abs(want), abs(scale))
