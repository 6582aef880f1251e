"""A refactoring of all modules (helpers, loops, order, association) on which every check has to stay quiet.

cp -a /repo /tmp/refactored; python3 tools/refactoring.py; IBL_REPO=/tmp/refactored python3 check.py C01 quick
"""
import sys
base=sys.argv[1] if len(sys.argv)>1 else '/tmp/refactored'
def sub(f,*prs):
    p=f'{base}/ibl/{f}'; t=open(p).read()
    for o,n in prs:
        assert t.count(o)==1,(f,t.count(o),o)
        t=t.replace(o,n)
    open(p,'w').write(t)
sub('ibl_method.py',
("""            return ((fun(xo-2*dx) - fun(xo+2*dx))/12
                    - 2*(fun(xo-dx) - fun(xo+dx))/3)/dx
""","""            near = fun(xo + dx) - fun(xo - dx)
            far = fun(xo + 2*dx) - fun(xo - 2*dx)
            return (8*near - far)/(12*dx)
"""),
("""            return (-(fun(xo-2*dx) + fun(xo+2*dx))/12
                    -2.5*(fun(xo))
                    +4*(fun(xo-dx) + fun(xo+dx))/3)/(dx**2)
""","""            near = fun(xo + dx) + fun(xo - dx)
            far = fun(xo + 2*dx) + fun(xo - 2*dx)
            return (16*near - far - 30*fun(xo))/(12*dx*dx)
"""),
("""        if rtol_set is None:
            rtol = 1e-5
        else:
            rtol = rtol_set
        if atol_set is None:
            atol = 1e-8
        else:
            atol = atol_set
""","""        rtol = 1e-5 if rtol_set is None else rtol_set
        atol = 1e-8 if atol_set is None else atol_set
"""),
("""        kill_events = list(self._kill_events)

        if isinstance(term_event, list):
            kill_events += term_event
        elif term_event is not None:
            kill_events.append(term_event)
""","""        if term_event is None:
            user_events = []
        elif isinstance(term_event, list):
            user_events = term_event
        else:
            user_events = [term_event]
        kill_events = [*self._kill_events, *user_events]
"""),
("""                message = "Event not found."
                for i, xe in enumerate(rtn.t_events):
                    if xe.shape[0] > 0 and getattr(kill_events[i], "terminal",
                                                   False):
                        x_end = xe[0]
                        f_end = rtn.sol(x_end)
                        status, message = kill_events[i].event_info()
                        break

        if len(message) > 0:
            message = f"{str(status)}: {message}"
        else:
            message = str(status)
""","""                message = "Event not found."
                found = self._triggered(kill_events, rtn.t_events)
                if found is not None:
                    event, x_end = found
                    f_end = rtn.sol(x_end)
                    status, message = event.event_info()

        text = str(status)
        if message:
            text = ": ".join([text, message])
        message = text
"""),
("""    def u_e(self, x: InputParam) -> npt.NDArray:
""","""    @staticmethod
    def _triggered(events, t_events):
        for event, t_event in zip(events, t_events):
            if not getattr(event, "terminal", False):
                continue
            if len(t_event):
                return event, t_event[0]
        return None

    def u_e(self, x: InputParam) -> npt.NDArray:
"""),
("""                pchipa.c[-1, :] = pchipa.c[-1, :] + u_e
""","""                pchipa.c[-1, :] += u_e
"""),
)
sub('head_method.py',
("""        return du_e*shape_d*delta_m + u_e*y_p[1]*delta_m + u_e*shape_d*y_p[0]
""","""        delta_m_p, shape_d_p = y_p
        return delta_m*(u_e*shape_d_p + shape_d*du_e) + delta_m_p*shape_d*u_e
"""),
("""        delta_m = self._solution(x)[0]
        shape_d = self._solution(x)[1]
        u_e = np.asarray(self.u_e(x), float)
        u_e = np.maximum(u_e, 0.001)
        re_delta_m = u_e*delta_m/self._nu
        c_f = c_f_fun(re_delta_m, shape_d)
        return 0.5*rho*u_e**2*c_f
""","""        delta_m, shape_d = self._solution(x)
        u_e, re_delta_m = self._edge(x, delta_m)
        return c_f_fun(re_delta_m, shape_d)*(rho*u_e*u_e/2)

    def _edge(self, x, delta_m):
        u_e = np.maximum(np.asarray(self.u_e(x), float), 0.001)
        return u_e, delta_m/self._nu*u_e
"""),
("""        f_p = np.zeros_like(f)
        delta_m = f[0]
        shape_d = np.maximum(f[1], 1.11)
        u_e = np.asarray(self.u_e(x), float)
        u_e = np.maximum(u_e, 0.001)
        du_e = self.du_e(x)
        re_delta_m = u_e*delta_m/self._nu
""","""        f_p = np.empty_like(f)
        delta_m = f[0]
        shape_d = np.maximum(f[1], 1.11)
        du_e = self.du_e(x)
        u_e, re_delta_m = self._edge(x, delta_m)
"""),
("""        f_p[0] = 0.5*c_f-delta_m*(2+shape_d)*du_e/u_e
        f_p[1] = (u_e*self._entrainment_velocity(shape_entrainment)
                  - u_e*f_p[0]*shape_entrainment
                  - du_e*delta_m*shape_entrainment)/(shape_entrainment_p
                                                     * u_e*delta_m)
""","""        grad = du_e/u_e
        f_p[0] = c_f/2 - (2 + shape_d)*(delta_m*grad)
        source = (self._entrainment_velocity(shape_entrainment)
                  - shape_entrainment*(f_p[0] + grad*delta_m))
        f_p[1] = source/(delta_m*shape_entrainment_p)
"""),
("""        return 0.0306/(shape_entr-3)**0.6169
""","""        return 0.0306*np.power(shape_entr - 3, -0.6169)
"""),
)
sub('thwaites_method.py',
("""            if data_fits == "Spline":
                self._model = _ThwaitesFunctionsSpline()
            elif data_fits == "White":
                self._model = _ThwaitesFunctionsWhite()
            elif data_fits == "Cebeci-Bradshaw":
                self._model = _ThwaitesFunctionsCebeciBradshaw()
            elif data_fits == "Drela":
                self._model = _ThwaitesFunctionsDrela()
            else:
                raise ValueError("Unknown fitting function name: ", data_fits)
""","""            known = {"White": _ThwaitesFunctionsWhite,
                     "Drela": _ThwaitesFunctionsDrela,
                     "Spline": _ThwaitesFunctionsSpline,
                     "Cebeci-Bradshaw": _ThwaitesFunctionsCebeciBradshaw}
            if data_fits not in known:
                raise ValueError(f"No fit of this name: {data_fits}")
            self._model = known[data_fits]()
"""),
("""                            return ((fun(xo-2*dx) - fun(xo+2*dx))/12
                                    - 2*(fun(xo-dx) - fun(xo+dx))/3)/dx
""","""                            steps = [(-2, 1), (-1, -8), (1, 8), (2, -1)]
                            return sum(w*fun(xo + k*dx) for k, w in steps)/(12*dx)
"""),
("""        term1 = du_e*self.delta_d(x)
        term2 = np.sqrt(self._nu/delta_m2_on_nu)
        dsol_dx = self._ode_impl(x, delta_m2_on_nu)
        term3 = 0.5*u_e*self.shape_d(x)*dsol_dx
        term4a = self._model.shape_p(self._calc_lambda(x, delta_m2_on_nu))
        term4 = u_e*delta_m2_on_nu*term4a
        term5 = du_e*dsol_dx+self.d2u_e(x)*delta_m2_on_nu
        return term1 + term2*(term3+term4*term5)
""","""        lam = self._calc_lambda(x, delta_m2_on_nu)
        slope = self._ode_impl(x, delta_m2_on_nu)
        lam_p = self.d2u_e(x)*delta_m2_on_nu + du_e*slope
        inner = slope*self._model.shape(lam)/2 + delta_m2_on_nu*self._model.shape_p(lam)*lam_p
        return u_e*inner*np.sqrt(self._nu/delta_m2_on_nu) + self.delta_d(x)*du_e
"""),
("""        return np.sqrt(self._solution(x)[0]*self._nu)
""","""        state = self._solution(x)
        return np.sqrt(self._nu*state[0])
"""),
("""        lam = self._calc_lambda(x, self._solution(x)[0])
        return rho*self._nu*self.u_e(x)*self._model.shear(lam)/self.delta_m(x)
""","""        shear = self._model.shear(self._calc_lambda(x, self._solution(x)[0]))
        return shear*(rho*self._nu)*(self.u_e(x)/self.delta_m(x))
"""),
("""        lam = self._calc_lambda(x, delta_m2_on_nu)
        a = 0.45
        b = 6
        return a - b*lam
""","""        return -6*self._calc_lambda(x, delta_m2_on_nu) + 0.45
"""),
("""        return 2*(self.shear(lam) - lam*(self.shape(lam)+2))
""","""        return 2*self.shear(lam) - 2*lam*(2 + self.shape(lam))
"""),
("""            return 2 + z*(4.14 + z*(-83.5 + z*(854 + z*(-3337 + z*4576))))
""","""            return 2 + 4.14*z - 83.5*z**2 + 854*z**3 - 3337*z**4 + 4576*z**5
"""),
("""        lam_local = np.array(lam)

        if (lam_local < lam_min).any():
            lam_local[lam_local < lam_min] = lam_min
#            raise ValueError("Cannot pass value less than {} into this "
#                             "function: {}".format(lam_min, lam))
        if (lam_local > lam_max).any():
            lam_local[lam_local > lam_max] = lam_max
#            raise ValueError("Cannot pass value greater than {} into this "
#                             "function: {}".format(lam_max, lam))
        return lam_local
""","""        return np.clip(np.array(lam), lam_min, lam_max)
"""),
("""        lam = float(self._calc_lam(x, f[0]))
        shear = float(self._shear_fun(lam))
        if (shear <= 0) and (lam < self._lambda_min):
            # shear is limited to its end value here, so need the distance to
            # the end of the range to be able to locate the change of sign
            return shear + (lam - self._lambda_min)
        return shear
""","""        lam = float(self._calc_lam(x, f[0]))
        value = float(self._shear_fun(lam))
        beyond = min(lam - self._lambda_min, 0.0)
        if value > 0:
            return value
        return value + beyond
"""),
)
sub('skin_friction.py',
("""    return 0.246/(re_delta_m**0.268*10**(0.678*shape_d))
""","""    return 0.246*re_delta_m**(-0.268)*10**(-0.678*shape_d)
"""),
("""    return 0.058*(0.93 - term1)**1.705/(re_delta_m**0.268)
""","""    return (0.058/re_delta_m**0.268)*np.power(0.93 - term1, 1.705)
"""),
("""    return 0.3*np.exp(-1.33*shape_d)/(np.log10(re_delta_m))**(1.74
                                                              + 0.31*shape_d)
""","""    power = 1.74 + 0.31*shape_d
    return 0.3*np.exp(-1.33*shape_d)*np.log10(re_delta_m)**(-power)
"""),
)
sub('analytic/_analytic_2d_base.py',
("""        if self._f is None:
            return np.inf
        return float(self.f_pp(0.0))
""","""        return np.inf if self._f is None else float(self.f_pp(0.0))
"""),
("""        return self.u_ref*x**(beta/(2*alpha-beta))
""","""        power = beta/(2*alpha - beta)
        return np.power(x, power)*self.u_ref
"""),
("""        return self.nu_ref*self._g(x)*self.eta_d
""","""        return self.eta_d*(self._g(x)*self.nu_ref)
"""),
("""        eta = self.eta(x, y)
        return -(self._alpha*self.nu_ref*self._g(x)
                 * (self.f(eta) + (self._beta/self._alpha
                                   - 1)*eta*self.f_p(eta)))
""","""        eta = self.eta(x, y)
        inner = self._alpha*self.f(eta) + (self._beta - self._alpha)*eta*self.f_p(eta)
        return -self.nu_ref*self._g(x)*inner
"""),
("""        return (self.eta_d/self.eta_m)*np.ones_like(x)
""","""        return np.ones_like(x)*self.eta_d/self.eta_m
"""),
("""        diss_term = 0.5*(self._alpha+2*self._beta)*self.eta_k
        return rho_ref*self.nu_ref*self._g(x)*self.u_e(x)**2*diss_term
""","""        factor = self._alpha/2 + self._beta
        return self.eta_k*factor*self.u_e(x)**2*self._g(x)*(self.nu_ref*rho_ref)
"""),
("""        self._eta_d = float(self.eta_inf-self.f(self.eta_inf))
        self._eta_m = (self.fw_pp
                       - self._beta*self.eta_d)/(self._alpha+self._beta)

        def k_fun(eta: float) -> float:
            return float(2*self.f(eta)*self.f_p(eta)*self.f_pp(eta))

        self._eta_k = quad(k_fun, 0, self.eta_inf)[0]
""","""        self._eta_d = float(self.eta_inf-self.f(self.eta_inf))
        shear = self.fw_pp - self.eta_d*self._beta
        self._eta_m = shear/(self._beta + self._alpha)

        def k_fun(eta: float) -> float:
            f, f_p, f_pp = self._f(eta)
            return float(2*f*f_p*f_pp)

        self._eta_k = quad(k_fun, 0, self.eta_inf)[0]
"""),
)

sub('reference/_xfoil_reader.py',
("""        idx_lower = len(airfoil_data)
        for idx, ad in enumerate(airfoil_data):
            new_pt = XFoilAirfoilData(ad)
            if new_pt.u_e_rel < 0:
                idx_lower = idx
                break
            self._upper.insert(0, new_pt)

        # extract the lower aifoil data
        self._lower = [XFoilAirfoilData(x) for x in airfoil_data[idx_lower:]]
        for a in self._lower:
            a.u_e_rel *= -1
            a.mass_defect *= -1
            a.ke_defect *= -1
""","""        points = [XFoilAirfoilData(row) for row in airfoil_data]
        split = 0
        while split < len(points) and not points[split].u_e_rel < 0:
            split += 1
        self._upper = points[:split][::-1]
        self._lower = points[split:]
        for a in self._lower:
            for name in ("u_e_rel", "ke_defect", "mass_defect"):
                setattr(a, name, -getattr(a, name))
"""),
("""            du = up.u_e_rel + lo.u_e_rel
            frac = up.u_e_rel/du
""","""            frac = up.u_e_rel/(lo.u_e_rel + up.u_e_rel)
"""),
("""        for a in self._lower:
            a.s -= stag_s
""","""        for a in reversed(self._lower):
            a.s = a.s - stag_s
"""),
("""        wake_idx = -1
        for idx, line in enumerate(buff):
            if len(line) < 80:
                wake_idx = idx
                break
        if buff[0][0] == "#":
            airfoil_start = 1
        else:
            airfoil_start = 0

        if wake_idx > 0:
            airfoil = buff[airfoil_start:wake_idx]
            wake = buff[wake_idx:]
        else:
            airfoil = buff[airfoil_start:]
""","""        short = [k for k, line in enumerate(buff) if len(line) < 80]
        start = int(buff[0].startswith("#"))
        stop = len(buff)
        if short and short[0] > 0:
            stop = short[0]
        airfoil = buff[start:stop]
        wake = buff[stop:]
"""),
("""        stag_pt.s = up.s + frac*(lo.s - up.s)
""","""        stag_pt.s = up.s + (lo.s - up.s)*frac
"""),
("""        stag_pt.delta_m = frac*lo.delta_m + (1-frac)*up.delta_m
""","""        stag_pt.delta_m = up.delta_m + (lo.delta_m - up.delta_m)*frac
"""),
)
sub('reference/_stanford_1968.py',
("""        if len(case_data) < 4:
            for sum_d in case_data[1]:
                sod = StanfordOlympics1968StationData(si_unit=si_unit,
                                                      summ_data=sum_d,
                                                      stat_summ="",
                                                      stat_data=[])
                self._station.append(sod)
        elif len(case_data) < 5:
            for sum_d, stat_s in zip(case_data[1], case_data[3]):
                sod = StanfordOlympics1968StationData(si_unit=si_unit,
                                                      summ_data=sum_d,
                                                      stat_summ=stat_s,
                                                      stat_data=[])
                self._station.append(sod)
        else:
            for sum_d, stat_s, stat_d in zip(case_data[1], case_data[3],
                                             case_data[4:]):
                sod = StanfordOlympics1968StationData(si_unit=si_unit,
                                                      summ_data=sum_d,
                                                      stat_summ=stat_s,
                                                      stat_data=stat_d)
                self._station.append(sod)
""","""        details = case_data[3] if len(case_data) > 3 else [""]*n_station
        profiles = case_data[4:] if len(case_data) > 4 else [[]]*n_station
        self._station = [StanfordOlympics1968StationData(
            si_unit=si_unit, summ_data=case_data[1][k], stat_summ=details[k],
            stat_data=profiles[k]) for k in range(n_station)]
"""),
("""            self._nu_ref = float(nu_parts[1])*1e-4
""","""            self._nu_ref = float(nu_parts[1])/1e4
"""),
)
sub('reference/_stanford_1968_station.py',
("""        # set values
        self.x = x
        self.u_star = us
        self.u_e = ui
        self.nu = v
        self.delta_m = theta
        self.delta_d = dels
        self.delta_k = enth
        self.delta_c = clth
        self.shape_d = h
        self.shape_eq = g
        self.shape_k = hs
        self.re_delta_m = rtheta
        self.re_delta_d = rdels
""","""        # set values
        for name, value in (("re_delta_d", rdels), ("re_delta_m", rtheta),
                            ("shape_k", hs), ("shape_eq", g), ("shape_d", h),
                            ("delta_c", clth), ("delta_k", enth),
                            ("delta_d", dels), ("delta_m", theta), ("nu", v),
                            ("u_e", ui), ("u_star", us), ("x", x)):
            setattr(self, name, value)
"""),
("""            theta = theta*1e-2
            dels = dels*1e-2
            enth = enth*1e-2
            clth = clth*1e-2
""","""            theta, dels, enth, clth = (value/100 for value in (theta, dels, enth, clth))
"""),
("""        if np.abs(rdels - self.u_e*dels/v) >= 5e0:
""","""        if not np.abs(rdels*v - self.u_e*dels) < 5e0*v:
"""),
)
