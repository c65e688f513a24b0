SS = 'scaks/solvers/steady_state_solver.py'
NET = """        net_stoichiometry = 0
        for formula in elementary_rxn_list[0]:
            if formula.species_site() == adsorbate_name:
                net_stoichiometry -= formula.stoichiometry()
        for formula in elementary_rxn_list[-1]:
            if formula.species_site() == adsorbate_name:
                net_stoichiometry += formula.stoichiometry()
"""
DIR = """        # Adsorbate is consumed
        if net_stoichiometry < 0:
            if stoichiometry == 1:
                increase_rate, decrease_rate = r_expr, f_expr
            else:
                increase_rate, decrease_rate = [str(stoichiometry) + '*' + rate_expr
                                                for rate_expr in [r_expr, f_expr]]
        # Adsorbate is produced.
        else:
            if stoichiometry == 1:
                increase_rate, decrease_rate = f_expr, r_expr
            else:
                increase_rate, decrease_rate = [str(stoichiometry) + '*' + rate_expr
                                                for rate_expr in [f_expr, r_expr]]

        # Return.
        return increase_rate + ' - ' + decrease_rate
"""
COLLECT = """        dtheta_dt_expression_list = []

        for rxn_expression in self._owner.rxn_expressions:
            single_dtheta_dt = self.get_elementary_dtheta_dt_expression(adsorbate_name,
                                                                        rxn_expression)
            if single_dtheta_dt:
                dtheta_dt_expression_list.append(single_dtheta_dt)

        # Join the expressions.
        dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list) or '0.0'

        return dtheta_dt_expression
"""
EXPRS = """            dtheta_dt_expressions = []
            for idx, adsorbate_name in enumerate(self._owner.adsorbate_names):
                dtheta_dt_expression = "dtheta_dt[" + str(idx) + "] = "
                dtheta_dt_expression += self.get_adsorbate_dtheta_dt_expression(adsorbate_name)
                dtheta_dt_expressions.append(dtheta_dt_expression)
"""
EVAL = """        dtheta_dt_expressions = '\\n'.join(self.get_dtheta_dt_expressions())
        exec(dtheta_dt_expressions, globals(), locals())
"""
EDITS = [
    ('C13', 'keep', 'net by sum', [(SS, NET, """        count = lambda formulas: sum(f.stoichiometry() for f in formulas
                                     if f.species_site() == adsorbate_name)
        net_stoichiometry = count(elementary_rxn_list[-1]) - count(elementary_rxn_list[0])
""")]),
    ('C13', 'keep', 'sign pairs', [(SS, NET, """        net_stoichiometry = 0
        for sign, formulas in ((-1, elementary_rxn_list[0]), (1, elementary_rxn_list[-1])):
            for formula in formulas:
                if formula.species_site() == adsorbate_name:
                    net_stoichiometry += sign*formula.stoichiometry()
""")]),
    ('C13', 'keep', 'prefix', [(SS, DIR, """        gain, loss = (f_expr, r_expr) if net_stoichiometry > 0 else (r_expr, f_expr)
        prefix = '' if stoichiometry == 1 else '{}*'.format(stoichiometry)
        return '{0}{1} - {0}{2}'.format(prefix, gain, loss)
""")]),
    ('C13', 'keep', 'always prefix', [(SS, DIR, """        if net_stoichiometry < 0:
            f_expr, r_expr = r_expr, f_expr
        return str(stoichiometry) + '*' + f_expr + ' - ' + str(stoichiometry) + '*' + r_expr
""")]),
    ('C13', 'keep', 'list comp collect', [(SS, COLLECT, """        terms = [self.get_elementary_dtheta_dt_expression(adsorbate_name, rxn)
                 for rxn in self._owner.rxn_expressions]
        return ' + '.join([t for t in terms if t]) or '0.0'
""")]),
    ('C13', 'keep', 'if not terms', [(SS, COLLECT, """        terms = []
        for rxn in self._owner.rxn_expressions:
            term = self.get_elementary_dtheta_dt_expression(adsorbate_name, rxn)
            if term is not None:
                terms.append(term)
        if not terms:
            return '0.0'
        return ' + '.join(terms)
""")]),
    ('C13', 'keep', 'format exprs', [(SS, EXPRS, """            dtheta_dt_expressions = ["dtheta_dt[{}] = {}".format(i, self.get_adsorbate_dtheta_dt_expression(name))
                                     for i, name in enumerate(self._owner.adsorbate_names)]
""")]),
    ('C13', 'keep', 'exec each', [(SS, EVAL, """        for expression in self.get_dtheta_dt_expressions():
            exec(expression, globals(), locals())
""")]),
    ('C13', 'break', 'first match only', [(SS, """            if formula.species_site() == adsorbate_name:
                net_stoichiometry -= formula.stoichiometry()
""", """            if formula.species_site() == adsorbate_name:
                net_stoichiometry -= formula.stoichiometry()
                break
""")]),
    ('C13', 'break', 'prefix only gain', [(SS, "increase_rate + ' - ' + decrease_rate", "increase_rate + ' - ' + (decrease_rate if stoichiometry < 3 else f_expr)")]),
    ('C13', 'break', 'minus join', [(SS, "increase_rate, decrease_rate = [str(stoichiometry) + '*' + rate_expr\n                                                for rate_expr in [r_expr, f_expr]]", "increase_rate, decrease_rate = str(stoichiometry) + '*' + r_expr, f_expr")]),
    ('C13', 'break', 'stops at first none', [(SS, """            if single_dtheta_dt:
                dtheta_dt_expression_list.append(single_dtheta_dt)
""", """            if not single_dtheta_dt:
                break
            dtheta_dt_expression_list.append(single_dtheta_dt)
""")]),
    ('C13', 'break', 'no energies', [(SS, """        kf, kr = self.get_rate_constants(relative_energies=relative_energies)

        # Pressure.
        p = self._p

        # Concentration.
        c = self._c

        # Rate of coverage change(dtheta_dt).
        dtheta_dt = [0.0]""", """        kf, kr = self.get_rate_constants()

        # Pressure.
        p = self._p

        # Concentration.
        c = self._c

        # Rate of coverage change(dtheta_dt).
        dtheta_dt = [0.0]""")]),
]
