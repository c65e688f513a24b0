S = 'scaks/solvers/steady_state_solver.py'
HI = '''            if cvgs_dict[adsorbate_name] > 1.0:
                cvgs_dict[adsorbate_name] = self._mpf('1.0')
'''
LO = '''            if cvgs_dict[adsorbate_name] < 0.0:
                cvgs_dict[adsorbate_name] = self._mpf('0.0')
'''
CLIP = '''        for adsorbate_name in adsorbate_names:
''' + HI + LO
TOT = '''        for site_name in site_names:
            total_cvg = species_definitions[site_name]['total']
            for adsorbate_name in self._classified_adsorbates[site_name]:
                if cvgs_dict[adsorbate_name] > total_cvg:
                    cvgs_dict[adsorbate_name] = self._mpf(total_cvg)
'''
FUN = '''        def constrain_in_total(cvgs_dict, max_cvg):
            "Make sure sum of cvgs in cvgs_dict is not larger than max_cvg"
            total_cvg = sum(cvgs_dict.values())
            if total_cvg > max_cvg:
                for key in cvgs_dict:
                    cvgs_dict[key] = cvgs_dict[key]/total_cvg*max_cvg
            return cvgs_dict
'''
SUB = '''            sub_cvgs_dict = {}

            # Add cvgs of the site to sub_cvgs_dict
            for adsorbate_name in self._classified_adsorbates[site_name]:
                sub_cvgs_dict.setdefault(adsorbate_name,
                                         cvgs_dict[adsorbate_name])
            # Add free site coverage
            sub_cvgs_dict = constrain_in_total(sub_cvgs_dict, max_cvg)
            cvgs_dict.update(sub_cvgs_dict)
'''
ALL = '''        # Sum of cvgs on one type of surface <= site total e.g 1.0
        for site_name in site_names:
            max_cvg = species_definitions[site_name]['total']
''' + SUB
START = '        c0 = self.__constrain_coverages(c0)\n        self.__initial_guess = c0\n'
RE1 = '                        c0 = self.__constrain_coverages(c0)\n                        icvg_counter += 1\n'
RE2 = '                    c0 = self.__constrain_coverages(c0)\n                    icvg_counter += 1\n            finally'
EDITS = [
    ('C16', 'break', 'no upper bound', [(S, HI, ''), (S, TOT, '')]),
    ('C16', 'break', 'no bound of one', [(S, HI, '')]),
    ('C16', 'break', 'no lower bound', [(S, LO, '')]),
    ('C16', 'break', 'no site total', [(S, TOT, '')]),
    ('C16', 'break', 'absolute value', [(S, LO, LO.replace("self._mpf('0.0')", 'abs(cvgs_dict[adsorbate_name])'))]),
    ('C16', 'break', 'small to zero', [(S, LO, LO.replace('< 0.0', '< 1e-10'))]),
    ('C16', 'break', 'zero to small', [(S, LO, LO.replace("'0.0'", "'1e-20'"))]),
    ('C16', 'break', 'always rescaled', [(S, FUN, FUN.replace('if total_cvg > max_cvg:', 'if total_cvg:'))]),
    ('C16', 'break', 'rescaled to one', [(S, FUN, FUN.replace('/total_cvg*max_cvg', '/total_cvg'))]),
    ('C16', 'break', 'rescaled above one', [(S, FUN, FUN.replace('if total_cvg > max_cvg:', 'if total_cvg > 1.0:'))]),
    ('C16', 'break', 'excess subtracted', [(S, FUN, FUN.replace('cvgs_dict[key]/total_cvg*max_cvg', 'cvgs_dict[key] - (total_cvg - max_cvg)/len(cvgs_dict)'))]),
    ('C16', 'break', 'sum while rescaling', [(S, FUN, FUN.replace('cvgs_dict[key]/total_cvg*max_cvg', 'cvgs_dict[key]/sum(cvgs_dict.values())*max_cvg'))]),
    ('C16', 'break', 'free sites counted', [(S, SUB, SUB.replace('            # Add free site coverage\n', '            sub_cvgs_dict[site_name] = cvgs_dict[site_name]\n'))]),
    ('C16', 'break', 'first site only', [(S, SUB, SUB + '            break\n')]),
    ('C16', 'break', 'all sites together', [(S, ALL, '''        max_cvg = sum([species_definitions[s]['total'] for s in site_names])
        cvgs_dict.update(constrain_in_total({name: cvgs_dict[name] for name in adsorbate_names}, max_cvg))
''')]),
    ('C16', 'break', 'not written back', [(S, '            cvgs_dict.update(sub_cvgs_dict)\n', '')]),
    ('C16', 'break', 'total of the first site', [(S, ALL, ALL.replace("species_definitions[site_name]['total']", "species_definitions[site_names[0]]['total']"))]),
    ('C16', 'break', 'one rescaled', [(S, FUN, FUN.replace('cvgs_dict[key]/total_cvg*max_cvg\n', 'cvgs_dict[key]/total_cvg*max_cvg\n                    break\n'))]),
    ('C16', 'break', 'order of classes', [(S, '        constrained_cvgs_tuple = self._cvg_dict2tuple(cvgs_dict)\n', '        constrained_cvgs_tuple = tuple([cvgs_dict[name] for site in site_names for name in self._classified_adsorbates[site]])\n')]),
    ('C16', 'break', 'input returned', [(S, '        return constrained_cvgs_tuple\n', '        return constrained_cvgs_tuple if not consistant else tuple([abs(c) for c in cvgs_tuple])\n')]),
    ('C16', 'break', 'start unconstrained', [(S, START, '        self.__initial_guess = c0\n')]),
    ('C16', 'break', 'restart unconstrained', [(S, RE1, '                        icvg_counter += 1\n')]),
    ('C16', 'break', 'restart after failure unconstrained', [(S, RE2, '                    icvg_counter += 1\n            finally')]),
    ('C16', 'break', 'other constraint', [(S, '        constraint = self.__constrain_coverages\n', '        constraint = tuple\n')]),
    ('C16', 'keep', 'min and max', [(S, CLIP, '''        for adsorbate_name in adsorbate_names:
            cvgs_dict[adsorbate_name] = max(self._mpf('0.0'), min(self._mpf('1.0'), cvgs_dict[adsorbate_name]))
''')]),
    ('C16', 'keep', 'elif', [(S, LO, LO.replace('if cvgs', 'elif cvgs'))]),
    ('C16', 'keep', 'low first', [(S, HI + LO, LO + HI)]),
    ('C16', 'keep', 'local value', [(S, CLIP, '''        for adsorbate_name in adsorbate_names:
            cvg = cvgs_dict[adsorbate_name]
            if cvg > 1.0:
                cvg = self._mpf('1.0')
            elif cvg < 0.0:
                cvg = self._mpf('0.0')
            cvgs_dict[adsorbate_name] = cvg
''')]),
    ('C16', 'keep', 'new dictionary', [(S, CLIP, '''        cvgs_dict = {name: max(0.0, min(1.0, cvgs_dict[name])) for name in adsorbate_names}
''')]),
    ('C16', 'keep', 'total by min', [(S, TOT, TOT.replace('''                if cvgs_dict[adsorbate_name] > total_cvg:
                    cvgs_dict[adsorbate_name] = self._mpf(total_cvg)
''', '''                cvgs_dict[adsorbate_name] = min(cvgs_dict[adsorbate_name], total_cvg)
'''))]),
    ('C16', 'keep', 'one pass', [(S, TOT, ''), (S, SUB, '''            for adsorbate_name in self._classified_adsorbates[site_name]:
                if cvgs_dict[adsorbate_name] > max_cvg:
                    cvgs_dict[adsorbate_name] = self._mpf(max_cvg)
''' + SUB)]),
    ('C16', 'keep', 'clipped per site', [(S, CLIP, ''), (S, TOT, '''        for site_name in site_names:
            total_cvg = min(self._mpf('1.0'), species_definitions[site_name]['total'])
            for adsorbate_name in self._classified_adsorbates[site_name]:
                cvgs_dict[adsorbate_name] = max(self._mpf('0.0'), min(cvgs_dict[adsorbate_name], total_cvg))
''')]),
    ('C16', 'keep', 'in place', [(S, SUB, '''            names = self._classified_adsorbates[site_name]
            total_cvg = sum([cvgs_dict[name] for name in names])
            if total_cvg > max_cvg:
                for name in names:
                    cvgs_dict[name] = cvgs_dict[name]/total_cvg*max_cvg
''')]),
    ('C16', 'keep', 'scale', [(S, FUN, FUN.replace('''                for key in cvgs_dict:
                    cvgs_dict[key] = cvgs_dict[key]/total_cvg*max_cvg
''', '''                scale = max_cvg/total_cvg
                for key in cvgs_dict:
                    cvgs_dict[key] *= scale
'''))]),
    ('C16', 'keep', 'new scaled dictionary', [(S, FUN, FUN.replace('''                for key in cvgs_dict:
                    cvgs_dict[key] = cvgs_dict[key]/total_cvg*max_cvg
''', '''                return {key: cvg*max_cvg/total_cvg for key, cvg in cvgs_dict.items()}
'''))]),
    ('C16', 'keep', 'guard', [(S, FUN, FUN.replace('''            if total_cvg > max_cvg:
''', '''            if total_cvg <= max_cvg:
                return cvgs_dict
            else:
'''))]),
    ('C16', 'keep', 'comprehension', [(S, SUB, SUB.replace('''            sub_cvgs_dict = {}

            # Add cvgs of the site to sub_cvgs_dict
            for adsorbate_name in self._classified_adsorbates[site_name]:
                sub_cvgs_dict.setdefault(adsorbate_name,
                                         cvgs_dict[adsorbate_name])
''', '''            sub_cvgs_dict = {name: cvgs_dict[name] for name in self._classified_adsorbates[site_name]}
'''))]),
    ('C16', 'keep', 'tuple by hand', [(S, '        constrained_cvgs_tuple = self._cvg_dict2tuple(cvgs_dict)\n', '        constrained_cvgs_tuple = tuple(cvgs_dict[name] for name in adsorbate_names)\n')]),
    ('C16', 'keep', 'method', [(S, '            sub_cvgs_dict = constrain_in_total(', '            sub_cvgs_dict = self._within_total('), (S, FUN, ''), (S, '    def __constrain_coverages(', FUN.replace('        def constrain_in_total(', '        def _within_total(self, ').replace('\n    ', '\n').replace('        def', '    def', 1) + '\n    def __constrain_coverages(')]),
    ('C16', 'keep', 'items of classes', [(S, TOT, '''        for site_name, names in self._classified_adsorbates.items():
            total_cvg = species_definitions[site_name]['total']
            for adsorbate_name in names:
                if cvgs_dict[adsorbate_name] > total_cvg:
                    cvgs_dict[adsorbate_name] = self._mpf(total_cvg)
''')]),
    ('C16', 'keep', 'clip helper', [(S, CLIP, '''        def clip(cvg):
            if cvg > 1.0:
                return self._mpf('1.0')
            if cvg < 0.0:
                return self._mpf('0.0')
            return cvg
        for adsorbate_name in adsorbate_names:
            cvgs_dict[adsorbate_name] = clip(cvgs_dict[adsorbate_name])
''')]),
    ('C16', 'keep', 'zip', [(S, '        cvgs_dict = self._cvg_tuple2dict(cvgs_tuple)\n', '        cvgs_dict = dict(zip(adsorbate_names, cvgs_tuple))\n')]),
    ('C16', 'keep', 'start in one', [(S, START, '        c0 = self.__initial_guess = self.__constrain_coverages(c0)\n')]),
    ('C16', 'keep', 'next guess', [(S, RE1, RE1.replace('                        c0 = self.__constrain', '                        c0 = constraint').replace('constraint_coverages', 'constraint'))]),
]
