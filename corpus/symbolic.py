MF = 'scaks/solvers/mean_field_solver.py'
KF = '            kf_sym = kB*T/h*sym.E**(-Gaf_sym/(kB*T))\n'
KR = '            kr_sym = kB*T/h*sym.E**(-Gar_sym/(kB*T))\n'
GAR = '            Gar_sym = Gaf_sym - dG_sym\n'
FREE = '''                free_site_cvg -= self._extract_symbol(sp_name=ads_name,
                                                      symbol_type='ads_cvg')
'''
RATE = '                rate_sym *= sp_data_sym**stoichiometry\n'
KIND = '''                if sp_type == 'gas':
                    symbol_type = 'pressure'
                elif sp_type == 'liquid':
                    symbol_type = 'concentration'
                elif sp_type == 'site':
                    symbol_type = 'free_site_cvg'
                else:
                    symbol_type = 'ads_cvg'

                sp_data_sym = self._extract_symbol(species_name, symbol_type)
                rate_sym *= sp_data_sym**stoichiometry
            rate_syms.append(rate_sym)

        return tuple(rate_syms)
        # }}}

    def get_rate_syms('''
TOF = '''        gas_matrix = -sym.Matrix(gas_matrix)

        # Get net rates symbolic expressions vector.
        net_rates = self.get_net_rate_syms()
        rate_syms_vect = sym.Matrix(net_rates).transpose()  # row vector

        # Get tof symbolic expression vector(row vector).
        tof_vect = rate_syms_vect*gas_matrix

        tof_tup = tuple(tof_vect)
'''
LISTS = '''            dicts_list = [G_subs_dict, theta_subs_dict, constants_subs_dict,
                          p_subs_dict, c_subs_dict]
'''
MERGE = '''        subs_dict = {}
        for dic in dicts_list:
            subs_dict = merge_two_dicts(subs_dict, dic)

        return subs_dict
'''
PS = '''        for p_sym, gas_name in zip(self._p_sym, gas_names):
            p_dict.setdefault(p_sym, self._p[gas_name])
'''
RF = '''            rf = self._mpf(float(rf_sym.evalf(subs=subs_dict)))
'''
NETV = '''        net_rate_syms_vect = sym.Matrix(net_rate_syms)
        net_rates_vect = net_rate_syms_vect.evalf(subs=subs_dict)

        # Keep precision.
        net_rates_vect = [self._mpf(float(net_rate)) for net_rate in net_rates_vect]
'''
CONST = '''            self._T_sym: self._mpf(self._owner.temperature),
'''
EDITS = [
    ('C12', 'break', 'reverse energy plus', [(MF, GAR, GAR.replace('-', '+'))]),
    ('C12', 'break', 'numeric temperature in reverse', [(MF, KR, KR.replace('(kB*T))', '(kB*self._owner.temperature))'))]),
    ('C12', 'break', 'no prefactor temperature', [(MF, KF, KF.replace('kB*T/h', 'kB/h'))]),
    ('C12', 'break', 'stoichiometry once', [(MF, RATE, '                rate_sym *= sp_data_sym\n')]),
    ('C12', 'break', 'liquid as adsorbate', [(MF, KIND, KIND.replace("                elif sp_type == 'liquid':\n                    symbol_type = 'concentration'\n", '').replace("'pressure'\n", "'pressure'\n                elif sp_type == 'liquid':\n                    symbol_type = 'pressure'\n", 1))]),
    ('C12', 'break', 'free site of one adsorbate', [(MF, FREE, FREE.replace('free_site_cvg -= ', 'free_site_cvg = total - '))]),
    ('C12', 'break', 'free site adds', [(MF, FREE, FREE.replace('-=', '+='))]),
    ('C12', 'break', 'total one', [(MF, "            free_site_cvg = total\n", "            free_site_cvg = 1.0\n")]),
    ('C12', 'break', 'tof sign', [(MF, TOF, TOF.replace('-sym.Matrix', 'sym.Matrix'))]),
    ('C12', 'break', 'tof of adsorbates', [(MF, '''        _, gas_matrix = self._owner.parser.get_stoichiometry_matrices()
        gas_matrix = -sym''', '''        gas_matrix, _ = self._owner.parser.get_stoichiometry_matrices()
        gas_matrix = -sym''')]),
    ('C12', 'break', 'dG from Gar', [(MF, 'zip(self._dG_sym, self._owner.relative_energies["dG"])', 'zip(self._dG_sym, self._owner.relative_energies["Gar"])')]),
    ('C12', 'break', 'same name for two kinds', [(MF, 'sym.Symbol("dG_{}".format(idx), real=True)', 'sym.Symbol("Ga_{}".format(idx), real=True)')]),
    ('C12', 'break', 'liquids left out', [(MF, LISTS, LISTS.replace(', c_subs_dict', ''))]),
    ('C12', 'break', 'constants swapped', [(MF, "self._kB_sym: self._mpf(self._owner.kB),\n            self._h_sym: self._mpf(self._owner.h)", "self._kB_sym: self._mpf(self._owner.h),\n            self._h_sym: self._mpf(self._owner.kB)")]),
    ('C12', 'break', 'concentrations reversed', [(MF, '        for c_sym, liquid_name in zip(self._c_sym, liquid_names):', '        for c_sym, liquid_name in zip(self._c_sym, liquid_names[::-1]):')]),
    ('C12', 'break', 'net reversed', [(MF, '            net_rate_sym = rf_sym - rr_sym\n', '            net_rate_sym = rr_sym - rf_sym\n')]),
    ('C12', 'break', 'K inverted', [(MF, '            K_sym = kf_sym/kr_sym\n', '            K_sym = kr_sym/kf_sym\n')]),
    ('C12', 'break', 'reverse with forward symbols', [(MF, '        for rr_sym in rr_syms:\n            rr = self._mpf(float(rr_sym', '        for rr_sym in rf_syms:\n            rr = self._mpf(float(rr_sym')]),
    ('C12', 'break', 'product uses forward constant', [(MF, '            rate_sym = k_syms[i]\n', '            rate_sym = k_syms[0]\n')]),
    ('C12', 'break', 'kf by index of another list', [(MF, '        rxn_idx = self._owner.rxn_expressions.index(rxn_expression)\n\n        # Get rate constant symbols.', '        rxn_idx = len(self._owner.rxn_expressions) - 1 - self._owner.rxn_expressions.index(rxn_expression)\n\n        # Get rate constant symbols.')]),
    ('C12', 'keep', 'exp function', [(MF, KF, KF.replace('sym.E**(-Gaf_sym/(kB*T))', 'sym.exp(-Gaf_sym/(kB*T))')), (MF, KR, KR.replace('sym.E**(-Gar_sym/(kB*T))', 'sym.exp(-Gar_sym/(kB*T))'))]),
    ('C12', 'keep', 'helper for constants', [(MF, KF, '            kf_sym = self._eyring_sym(Gaf_sym)\n'), (MF, KR, '            kr_sym = self._eyring_sym(Gar_sym)\n'),
        (MF, '    def get_rate_constant_syms(self):', '    def _eyring_sym(self, barrier):\n        kB, h, T = self._kB_sym, self._h_sym, self._T_sym\n        return kB*T/h*sym.E**(-barrier/(kB*T))\n\n    def get_rate_constant_syms(self):')]),
    ('C12', 'keep', 'kinds by table', [(MF, KIND, '''                table = {'gas': 'pressure', 'liquid': 'concentration', 'site': 'free_site_cvg'}
                symbol_type = table.get(sp_type, 'ads_cvg')

                sp_data_sym = self._extract_symbol(species_name, symbol_type)
                rate_sym = rate_sym*sp_data_sym**stoichiometry
            rate_syms.append(rate_sym)

        return tuple(rate_syms)
        # }}}

    def get_rate_syms(''')]),
    ('C12', 'keep', 'tof by sums', [(MF, TOF, '''        net_rates = self.get_net_rate_syms()
        gas_matrix = sym.Matrix(gas_matrix)
        tof_tup = tuple(-sum(rate*gas_matrix[i, j] for i, rate in enumerate(net_rates))
                        for j in range(len(self._owner.gas_names)))
''')]),
    ('C12', 'keep', 'tof as column', [(MF, TOF, '''        gas_matrix = sym.Matrix(gas_matrix)
        net_rates = sym.Matrix(self.get_net_rate_syms())
        tof_tup = tuple(-(gas_matrix.T*net_rates))
''')]),
    ('C12', 'keep', 'update', [(MF, MERGE, '''        subs_dict = {}
        for dic in dicts_list:
            subs_dict.update(dic)

        return subs_dict
''')]),
    ('C12', 'keep', 'assigned entries', [(MF, PS, '''        for p_sym, gas_name in zip(self._p_sym, gas_names):
            p_dict[p_sym] = self._p[gas_name]
''')]),
    ('C12', 'keep', 'dict of zip', [(MF, '''        theta_dict = {}
        for cvg_sym, cvg in zip(self._ads_theta_sym, cvgs_tuple):
            theta_dict.setdefault(cvg_sym, cvg)

        return theta_dict
''', '''        return dict(zip(self._ads_theta_sym, cvgs_tuple))
''')]),
    ('C12', 'keep', 'comprehension for p', [(MF, PS, '''        p_dict = {s: self._p[g] for s, g in zip(self._p_sym, gas_names)}
''')]),
    ('C12', 'keep', 'listed net', [(MF, NETV, '''        net_rates_vect = [self._mpf(float(rate.evalf(subs=subs_dict))) for rate in net_rate_syms]
''')]),
    ('C12', 'keep', 'rates comprehension', [(MF, '''        for rf_sym in rf_syms:
''' + RF + '''            rfs.append(rf)
''', '''        rfs = [self._mpf(float(s.evalf(subs=subs_dict))) for s in rf_syms]
''')]),
    ('C12', 'keep', 'subs then evalf', [(MF, RF, '''            rf = self._mpf(float(rf_sym.subs(subs_dict).evalf()))
''')]),
    ('C12', 'keep', 'free site by sum', [(MF, '''            free_site_cvg = total
            for ads_name in self._classified_adsorbates[site_name]:
''' + FREE, '''            bound = [self._extract_symbol(sp_name=ads_name, symbol_type='ads_cvg')
                     for ads_name in self._classified_adsorbates[site_name]]
            free_site_cvg = total - sum(bound)
''')]),
    ('C12', 'keep', 'symbols by enumerate', [(MF, '''        for idx in range(len(self._owner.rxn_expressions)):
            Ga_sym_list.append(sym.Symbol("Ga_{}".format(idx), real=True))
            dG_sym_list.append(sym.Symbol("dG_{}".format(idx), real=True))
''', '''        for idx, _ in enumerate(self._owner.rxn_expressions):
            Ga_sym_list.append(sym.Symbol("Ga_%d" % idx, real=True))
            dG_sym_list.append(sym.Symbol("dG_%d" % idx, real=True))
''')]),
    ('C12', 'keep', 'net from pairs', [(MF, '''        net_rate_syms = []
        for rf_sym, rr_sym in zip(rf_syms, rr_syms):
            net_rate_sym = rf_sym - rr_sym
            net_rate_syms.append(net_rate_sym)

        return tuple(net_rate_syms)
''', '''        return tuple(rf - rr for rf, rr in zip(rf_syms, rr_syms))
''')]),
    ('C12', 'keep', 'reuse symbol rates in tof', [(MF, '''        tof_syms_vect = sym.Matrix(self.get_tof_syms())
        subs_dict = self.get_subs_dict(coverages=cvgs_tuple)
        tof_vect = tof_syms_vect.evalf(subs=subs_dict)

        # Keep precision.
        tof_vect = [self._mpf(float(tof)) for tof in tof_vect]
''', '''        subs_dict = self.get_subs_dict(coverages=cvgs_tuple)
        tof_vect = []
        for tof_sym in self.get_tof_syms():
            tof_vect.append(self._mpf(float(tof_sym.evalf(subs=subs_dict))))
''')]),
]
