S = 'scaks/solvers/steady_state_solver.py'


def k(name, *edits):
    return ('C14', 'keep', name, [(S, a, b) for a, b in edits])


def b(name, *edits):
    return ('C14', 'break', name, [(S, a, b) for a, b in edits])


FILL = '''        for i in range(m):
            poly_expression = dtheta_dt_expressions[i]
            for j in range(n):
                # Get adsorbate_name.
                adsorbate_name = adsorbate_names[j]
                # Fill the matrix
                derivation = self.poly_adsorbate_derivation(adsorbate_name=adsorbate_name,
                                                            poly_expression=poly_expression)
                J[i, j] = eval(derivation)
'''
COEF = '''        if m.group(7) and m.group(2):
            coefficient = m.group(2) + '*' + m.group(7)
        elif m.group(2):
            coefficient = m.group(2)
        elif m.group(7):
            coefficient = m.group(7)
        else:
            coefficient = '1'
'''
POW = '''        if power == 1:  # e.g. "kf[2]*theta['CO_s']*theta['*_s']"
            derivation_expression = coefficient
        else:
            if coefficient == '1':
                coefficient = str(power)
            else:
                coefficient = str(power) + '*' + coefficient
            cvg_expression = m.group(3) + '**' + str(power-1)
            derivation_expression = coefficient + '*' + cvg_expression
'''
BOTH = '''            derivation_expression = (deriv_adsorbate_part(adsorbate_name, adsorbate_part) +
                                     '*' + site_part + ' + ' +
                                     deriv_site_part(site_name, site_part) +
                                     '*' + adsorbate_part)
'''
SUBST = '''                substitute_expr = str(site_total)
                for adsorbate_name in self._classified_adsorbates[site_name]:
                    substitute_expr += ' - ' + theta(adsorbate_name)
                substitute_expr = '(' + substitute_expr + ')'
'''
JOIN = '''        derived_poly_list = []
        for combination in zip(derived_terms, operators):
            derived_poly_list += list(combination)
        derived_poly_list.append(derived_terms[-1])

        # Join and return.
        return ' '.join(derived_poly_list)
'''
PAREN = '''        derived_terms = ['({})'.format(term) if ' + ' in term else term
                         for term in derived_terms]
'''
SYMFILL = '''        for i in range(m):
            dthe_dt_sym = dtheta_dt_syms[i]
            # adsorbate (column).
            for j in range(n):
                ads_name = self._owner.adsorbate_names[j]
                theta_sym = self._extract_symbol(ads_name, 'ads_cvg')
                sym_jacobian[i][j] = sym.Derivative(dthe_dt_sym, theta_sym).doit()
'''
NUMFILL = '''        m = n = len(sym_jacobian)
        num_jacobian = [[0.0]*n for _ in range(m)]

        for i in range(m):
            for j in range(n):
                entry_value = sym_jacobian[i][j].evalf(subs=subs_dict)
                num_jacobian[i][j] = self._mpf(entry_value)

        return self._matrix(num_jacobian)
'''
EDITS = [
    k('jac enumerate', (FILL, '''        for i, poly_expression in enumerate(dtheta_dt_expressions):
            for j, adsorbate_name in enumerate(adsorbate_names):
                J[i, j] = eval(self.poly_adsorbate_derivation(adsorbate_name=adsorbate_name, poly_expression=poly_expression))
''')),
    k('jac two steps', (FILL, '''        for i in range(m):
            row = [self.poly_adsorbate_derivation(adsorbate_name=name, poly_expression=dtheta_dt_expressions[i])
                   for name in adsorbate_names]
            for j in range(n):
                J[i, j] = eval(row[j])
''')),
    k('jac columns first', (FILL, '''        for j in range(n):
            adsorbate_name = adsorbate_names[j]
            for i in range(m):
                derivation = self.poly_adsorbate_derivation(adsorbate_name=adsorbate_name,
                                                            poly_expression=dtheta_dt_expressions[i])
                J[i, j] = eval(derivation)
''')),
    k('jac guard first', ('''        m, n = len(dtheta_dt_expressions), len(cvgs_tuple)

        if m != n:
            msg = "{} coverages are expected, but {} are provided.".format(m, n)
            raise ParameterError(msg)

        # Set theta, kf, kr, p, dtheta_dt
        # Coverages(theta).
        theta = self._cvg_tuple2dict(cvgs_tuple)

        # Rate constants(kf, kr).
        kf, kr = self.get_rate_constants(relative_energies=relative_energies)

        # Pressure.
        p = self._p

        # Concentration.
        c = self._c

        # Generate Jacobian matrix.
''', '''        m = len(dtheta_dt_expressions)
        n = len(cvgs_tuple)
        if not m == n:
            raise ParameterError("{} coverages are expected, but {} are provided.".format(m, n))
        p, c = self._p, self._c
        kf, kr = self.get_rate_constants(relative_energies=relative_energies)
        theta = self._cvg_tuple2dict(cvgs_tuple)
''')),
    k('jac coefficient join', (COEF, '''        coefficient = '*'.join(g for g in (m.group(2), m.group(7)) if g) or '1'
''')),
    k('jac coefficient nested', (COEF, '''        before, after = m.group(2), m.group(7)
        if before:
            coefficient = '{}*{}'.format(before, after) if after else before
        else:
            coefficient = after if after else '1'
''')),
    k('jac power format', (POW, '''        if power > 1:
            factor = '{}**{}'.format(m.group(3), power - 1)
            if coefficient != '1':
                derivation_expression = '{}*{}*{}'.format(power, coefficient, factor)
            else:
                derivation_expression = '{}*{}'.format(power, factor)
        else:
            derivation_expression = coefficient
''')),
    k('jac power always', (POW, '''        derivation_expression = str(power) + '*' + coefficient
        if power != 1:
            derivation_expression += '*' + m.group(3) + '**' + str(power - 1)
''')),
    k('jac both format', (BOTH, '''            first = deriv_adsorbate_part(adsorbate_name, adsorbate_part)
            second = deriv_site_part(site_name, site_part)
            derivation_expression = '{}*{} + {}*{}'.format(first, site_part, second, adsorbate_part)
''')),
    k('jac both swapped', (BOTH, '''            derivation_expression = (deriv_site_part(site_name, site_part) + '*' + adsorbate_part + ' + ' +
                                     deriv_adsorbate_part(adsorbate_name, adsorbate_part) + '*' + site_part)
''')),
    k('jac substitute join', (SUBST, '''                cvgs = [theta(name) for name in self._classified_adsorbates[site_name]]
                substitute_expr = '(' + ' - '.join([str(site_total)] + cvgs) + ')'
''')),
    k('jac substitute format', (SUBST, '''                occupied = ''
                for adsorbate in self._classified_adsorbates[site_name]:
                    occupied += ' - ' + theta(adsorbate)
                substitute_expr = '({}{})'.format(site_total, occupied)
''')),
    k('jac join pairs', (JOIN, '''        result = derived_terms[0]
        for operator, term in zip(operators, derived_terms[1:]):
            result += ' ' + operator + ' ' + term
        return result
''')),
    k('jac join slices', (JOIN, '''        derived_poly_list = [None]*(2*len(derived_terms) - 1)
        derived_poly_list[::2] = derived_terms
        derived_poly_list[1::2] = operators
        return ' '.join(derived_poly_list)
''')),
    k('jac paren always', (PAREN, '''        derived_terms = ['(' + term + ')' for term in derived_terms]
''')),
    k('jac names out', ('''        derived_terms = [self.__total_term_adsorbate_derivation(adsorbate_name,
                                                                term_expression)
                         for term_expression in terms]

        # Combine 2 lists.
''' + PAREN, '''        derived_terms = []
        for term_expression in terms:
            term = self.__total_term_adsorbate_derivation(adsorbate_name, term_expression)
            if ' + ' in term:
                term = '({})'.format(term)
            derived_terms.append(term)
''')),
    k('jac sym rows', ('''        m = n = len(dtheta_dt_syms)
        sym_jacobian = [[0.0]*n for _ in range(m)]

        # dtheta/dt (row).
''' + SYMFILL, '''        sym_jacobian = []
        for rate in dtheta_dt_syms:
            row = []
            for j in range(len(dtheta_dt_syms)):
                theta_sym = self._extract_symbol(self._owner.adsorbate_names[j], 'ads_cvg')
                row.append(sym.Derivative(rate, theta_sym).doit())
            sym_jacobian.append(row)
''')),
    k('jac sym row name', (SYMFILL, '''        for i in range(m):
            row = sym_jacobian[i]
            for j in range(n):
                theta_sym = self._extract_symbol(self._owner.adsorbate_names[j], 'ads_cvg')
                row[j] = sym.Derivative(dtheta_dt_syms[i], theta_sym).doit()
''')),
    k('jac sym comprehension', (SYMFILL, '''        thetas = [self._extract_symbol(name, 'ads_cvg') for name in self._owner.adsorbate_names[:n]]
        sym_jacobian = [[sym.Derivative(rate, theta).doit() for theta in thetas] for rate in dtheta_dt_syms]
''')),
    k('jac sym diff', (SYMFILL, '''        for i in range(m):
            for j in range(n):
                theta_sym = self._extract_symbol(self._owner.adsorbate_names[j], 'ads_cvg')
                sym_jacobian[i][j] = dtheta_dt_syms[i].diff(theta_sym)
''')),
    k('jac num comprehension', (NUMFILL, '''        values = [[self._mpf(entry.evalf(subs=subs_dict)) for entry in row] for row in sym_jacobian]
        return self._matrix(values)
''')),
    k('jac num enumerate', (NUMFILL, '''        num_jacobian = []
        for row in sym_jacobian:
            num_row = []
            for entry in row:
                num_row.append(self._mpf(entry.evalf(subs=subs_dict)))
            num_jacobian.append(num_row)
        return self._matrix(num_jacobian)
''')),
    k('jac sym total', ('''            if dtheta_dt_sym is None:
                continue
            else:
                total_dtheta_dt_sym += dtheta_dt_sym
''', '''            if dtheta_dt_sym is not None:
                total_dtheta_dt_sym = total_dtheta_dt_sym + dtheta_dt_sym
''')),
    b('jac no minus for the site', ('''                final_expr = "-" + final_expr
''', '')),
    b('jac no minus when linear', ('''                final_expr = '-' + initial_expr
''', '''                final_expr = initial_expr
''')),
    b('jac power not lowered', ("'**' + str(power-1)", "'**' + str(power)")),
    b('jac power three', ("        if m.group(4):\n            power = int(m.group(5))\n", "        if m.group(4):\n            power = min(int(m.group(5)), 2)\n")),
    b('jac rest of the term lost', ('''            coefficient = m.group(2) + '*' + m.group(7)
''', '''            coefficient = m.group(2)
''')),
    b('jac site part only', (BOTH, '''            derivation_expression = (deriv_site_part(site_name, site_part) +
                                     '*' + adsorbate_part)
''')),
    b('jac adsorbate part without power', ('adsorbate_part = m.group(2) + m.group(3)', 'adsorbate_part = m.group(2)')),
    b('jac no brackets', (PAREN, '')),
    b('jac brackets of sums only when short', ("if ' + ' in term else term\n                         for", "if ' + -' not in term else term\n                         for")),
    b('jac total of one', ('substitute_expr = str(site_total)\n', "substitute_expr = '1.0'\n")),
    b('jac other adsorbates only', (SUBST, '''                substitute_expr = str(site_total)
                for other in self._classified_adsorbates[site_name]:
                    if other != adsorbate_name:
                        substitute_expr += ' - ' + theta(other)
                substitute_expr = '(' + substitute_expr + ')'
''')),
    b('jac transposed', ('J[i, j] = eval(derivation)', 'J[j, i] = eval(derivation)')),
    b('jac own energies', ('''        kf, kr = self.get_rate_constants(relative_energies=relative_energies)

        # Pressure.
        p = self._p

        # Concentration.
        c = self._c

        # Generate Jacobian''', '''        kf, kr = self.get_rate_constants()

        # Pressure.
        p = self._p

        # Concentration.
        c = self._c

        # Generate Jacobian''')),
    b('jac operators shifted', ('poly_list[3::2], poly_list[2::2]', "[o for o in poly_list[3::2] if o == '+'] + [o for o in poly_list[3::2] if o == '-'], poly_list[2::2]")),
    b('jac sym transposed', ('sym_jacobian[i][j] = sym.Derivative', 'sym_jacobian[j][i] = sym.Derivative')),
    b('jac sym diagonal', ('''            for j in range(n):
                ads_name = self''', '''            for j in range(i, n):
                ads_name = self''')),
    b('jac num row shared', ('''        num_jacobian = [[0.0]*n for _ in range(m)]

        for i in range(m):
            for j in range(n):
                entry''', '''        num_jacobian = [[0.0]*n]*m

        for i in range(m):
            for j in range(n):
                entry''')),
    b('jac wrong sites', ('''        elif site_name in sites_list:
            derivation_expression = deriv_site_part(site_name, term_expression)
''', '''        elif sites_list:
            derivation_expression = deriv_site_part(sites_list[0], term_expression)
''')),
]
