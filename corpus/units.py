B = 'scaks/solvers/solver_base.py'
TC = 'scaks/correctors/thermodynamic_corrector.py'
MF = 'scaks/solvers/mean_field_solver.py'
KM = 'scaks/models/kinetic_model.py'
TD = 'scaks/database/thermo_data.py'
TST = '            kTST = kB_eV*T/h_eV*exp(-Ga/(kB_eV*T))\n'
STICK = '        S = f*act_ratio*exp(-Ea/(kB_eV*T))\n'
KCT = '        kCT = S*(p*Auc)/(sqrt(2*pi*m*kB_J*T))\n'
BAR = '        Ga = -log(kCT*h_eV/(kB_eV*T))*(kB_eV*T)\n'
QT = '        qt = V*(2*pi*m*kB_J*T/(h_J**2))**(3/2.0)\n'
VOL = '            V = kB_J*T/p\n'
RET = '        return -kB_eV*T*log(q)  # eV\n'
DP = "            p = P0*species_definitions[species_site]['pressure']\n"
MM = '            m = ParserBase.get_molecular_mass(formula.species(), absolute=True)\n\n'
PP = '''                p = P0*self._owner.species_definitions[gas_name]["pressure"]
            else:
                p = P0

            # Use Collision Theory to get forward rate.
'''
KF = '            kf_sym = kB*T/h*sym.E**(-Gaf_sym/(kB*T))\n'
BOLZ = '            cvg = self._math.exp(-self._owner.absolute_energies[adsorbate]/(kB*T))/boltz_sum\n'
DH = '                dH = (temperature_ref*Cp_ref/1000.0 + dH)*(_kJmol2eV)  # eV\n                dS = dS*(_kJmol2eV/1e3)  # eV/K\n'
EDITS = [
    ('C10', 'break', 'J in exponent', [(B, STICK, STICK.replace('kB_eV', 'kB_J'))]),
    ('C10', 'break', 'J in rate exponent', [(B, TST, TST.replace('(kB_eV*T)', '(kB_J*T)'))]),
    ('C10', 'break', 'mixed prefactor', [(B, TST, TST.replace('h_eV', 'h_J')), (B, 'from ..database.thermo_data import kB_J, kB_eV, h_eV, P0', 'from ..database.thermo_data import kB_J, kB_eV, h_eV, h_J, P0')]),
    ('C10', 'break', 'eV under the root', [(B, KCT, KCT.replace('kB_J', 'kB_eV'))]),
    ('C10', 'break', 'no area', [(B, KCT, KCT.replace('(p*Auc)', 'p'))]),
    ('C10', 'break', 'no root', [(B, KCT, KCT.replace('sqrt', ''))]),
    ('C10', 'break', 'log of rate', [(B, BAR, BAR.replace('kCT*h_eV/(kB_eV*T)', 'kCT/(kB_eV*T)'))]),
    ('C10', 'break', 'barrier without kT', [(B, BAR, BAR.replace('*(kB_eV*T)\n', '*kB_eV\n'))]),
    ('C10', 'break', 'planck not squared', [(TC, QT, QT.replace('(h_J**2)', 'h_J'))]),
    ('C10', 'break', 'power of two thirds', [(TC, QT, QT.replace('3/2.0', '2/3.0'))]),
    ('C10', 'break', 'volume in eV', [(TC, VOL, VOL.replace('kB_J', 'kB_eV'))]),
    ('C10', 'break', 'result in J', [(TC, RET, RET.replace('kB_eV', 'kB_J'))]),
    ('C10', 'break', 'pressure in atm', [(TC, DP, DP.replace('P0*', ''))]),
    ('C10', 'break', 'relative mass', [(B, MM, MM.replace(', absolute=True', ''))]),
    ('C10', 'break', 'flag ignored', [(B, PP, PP.replace('P0*', '').replace('p = P0', 'p = 1.0'))]),
    ('C10', 'break', 'twice converted', [(B, PP, PP.replace('P0*', 'P0*P0*'))]),
    ('C10', 'break', 'kJ taken as J', [(TC, DH, DH.replace('_kJmol2eV/1e3', '_kJmol2eV'))]),
    ('C10', 'break', 'J taken as kJ', [(TC, DH, DH.replace('/1000.0', ''))]),
    ('C10', 'break', 'entropy not by temperature', [(TC, '                free_energy = dH - temperature*dS\n                enthalpy = dH\n                entropy = -temperature*dS\n\n            elif', '                free_energy = dH - dS\n                enthalpy = dH\n                entropy = -temperature*dS\n\n            elif')]),
    ('C10', 'break', 'model constant in J', [(KM, '        self._kB = kB_eV\n', '        self._kB = kB_J\n'), (KM, 'import kB_eV, h_eV', 'import kB_eV, kB_J, h_eV')]),
    ('C10', 'break', 'symbol of T given kB', [(MF, 'self._T_sym: self._mpf(self._owner.temperature)', 'self._T_sym: self._mpf(self._owner.kB)')]),
    ('C10', 'break', 'symbolic exponent', [(MF, KF, KF.replace('(kB*T)', 'T'))]),
    ('C10', 'break', 'weight without T', [(MF, BOLZ, BOLZ.replace('(kB*T)', 'kB'))]),
    ('C10', 'break', 'constants inconsistent', [(TD, '8.6173324e-5 ', '8.6273324e-5 ')]),
    ('C10', 'break', 'planck rounded', [(TD, '4.135667662e-15', '4.14e-15')]),
    ('C10', 'break', 'standard pressure a bar', [(TD, 'P0 = 101325', 'P0 = 1e5')]),
    ('C10', 'break', 'arguments swapped', [(B, 'corrector.entropy_correction(gas_name, m, p, T)\n            stoichiometry = formula.stoichiometry()\n            dG -=', 'corrector.entropy_correction(gas_name, p, m, T)\n            stoichiometry = formula.stoichiometry()\n            dG -=')]),
    ('C10', 'break', 'temperature for area', [(B, 'Auc=Auc, act_ratio=act_ratio, p=p, m=m, T=T)\n            if log', 'Auc=T, act_ratio=act_ratio, p=p, m=m, T=Auc)\n            if log')]),
    ('C10', 'break', 'rate minus energy', [(B, '            Gar_TST = Gaf_TST - dG\n', '            Gar_TST = rf - dG\n')]),
    ('C10', 'keep', 'beta', [(B, TST, '            beta = 1.0/(kB_eV*T)\n            kTST = exp(-Ga*beta)/(beta*h_eV)\n')]),
    ('C10', 'keep', 'kT', [(B, KCT, '        kT = kB_J*T\n        flux = p/sqrt(2.0*pi*m*kT)\n        kCT = S*flux*Auc\n')]),
    ('C10', 'keep', 'power half', [(B, KCT, '        kCT = S*(p*Auc)*(2*pi*m*kB_J*T)**-0.5\n')]),
    ('C10', 'keep', 'difference of logs', [(B, BAR, '        Ga = kB_eV*T*log(kB_eV*T/(h_eV*kCT))\n')]),
    ('C10', 'keep', 'wavelength', [(TC, QT, '        wavelength = h_J/(2*pi*m*kB_J*T)**0.5\n        qt = V/wavelength**3\n')]),
    ('C10', 'keep', 'helper', [(TC, QT, '        def thermal_wavelength(m, T):\n            return h_J/(2*pi*m*kB_J*T)**0.5\n        qt = V/thermal_wavelength(m, T)**3\n')]),
    ('C10', 'keep', 'exponent named', [(TC, QT, '        n = 1.5\n' + QT.replace('(3/2.0)', 'n'))]),
    ('C10', 'keep', 'elementary charge', [(B, KCT, '        e = 1.6021766e-19\n        kCT = S*(p*Auc)/(sqrt(2*pi*m*kB_eV*e*T))\n')]),
    ('C10', 'keep', 'pascal', [(TC, DP, "            p = 101325*species_definitions[species_site]['pressure']\n")]),
    ('C10', 'keep', 'total free energy', [(TC, DH, DH.replace('/1000.0', '*0.001').replace('_kJmol2eV/1e3', '_kJmol2eV*1e-3'))]),
    ('C10', 'keep', 'named thousand', [(TC, DH, '                kilo = 1000.0\n' + DH.replace('/1000.0', '/kilo').replace('/1e3', '/kilo'))]),
    ('C10', 'keep', 'numpy array', [(TC, '            temp_list = [1./(1 - exp(-theta/T)) for theta in thetas]\n            qv = reduce(lambda x, y: x*y, temp_list)\n', '            qv = 1.0\n            for theta in thetas:\n                qv /= 1 - exp(-theta/T)\n')]),
    ('C10', 'keep', 'product loop', [(TC, '            product = reduce(lambda x, y: x*y, thetas)\n            qr = (pi)**0.5/sigma*(T**3/(product))**0.5\n', '            qr = (pi)**0.5/sigma\n            for theta in thetas:\n                qr *= (T/theta)**0.5\n')]),
    ('C10', 'keep', 'product accumulated', [(TC, '            product = reduce(lambda x, y: x*y, thetas)\n', '            product = 1.0\n            for theta in thetas:\n                product *= theta\n')]),
    ('C10', 'keep', 'unpacked', [(TC, '            product = reduce(lambda x, y: x*y, thetas)\n', '            ta, tb, tc = thetas\n            product = ta*tb*tc\n')]),
    ('C10', 'keep', 'small threshold', [(B, '            if Gar_TST < 0:\n', '            if Gar_TST < 1e-12:\n')]),
    ('C10', 'keep', 'clamped', [(B, '            if Gar_TST < 0:\n                Gar_TST = 0.0\n', '            Gar_TST = max(Gar_TST, 0.0)\n')]),
    ('C10', 'keep', 'pressure factor', [(B, PP, '''                pressure = self._owner.species_definitions[gas_name]["pressure"]
            else:
                pressure = 1.0
            p = pressure*P0

            # Use Collision Theory to get forward rate.
''')]),
]
