"""Tables of results (C52)."""
MF = 'scaks/solvers/mean_field_solver.py'
SS = 'scaks/solvers/steady_state_solver.py'
REV = '''        all_data = ''
        all_data += head_str + line_str

        rxn_expressions = self._owner.rxn_expressions

        for idx, (rxn, rev) in enumerate(zip(rxn_expressions, reversibilities)):
            idx = str(idx).zfill(2)
            data = " {:<10s}{:<70s}{:<30.16e}\\n".format(idx, rxn, float(rev))
            all_data += data
        all_data += line_str
'''
XT = '''        for gas_name, XTRC_vect in zip(gas_names, XTRC_matrix):
            for intermediate, XTRC in zip(intermediate_names, XTRC_vect):
                data = "{:<15s}{:<30s}{:<30.16e}\\n".format(gas_name, intermediate, float(XTRC))
                all_data += data
'''
RATES = '''        content = title + line
        for rxn_expression, f, r in zip(self._owner.rxn_expressions, fdata, rdata):
            content += data_format.format(rxn_expression, float(f), float(r))

        content = "\\n\\n" + content + line
'''
TOF = '''        for idx, (gas_name, tof) in enumerate(zip(gas_names, tof_list)):
            idx = str(idx).zfill(2)
            data = " {:<10s}{:<25s}{:<30.16e}\\n".format(idx, gas_name, float(tof))
            all_data += data
'''
XRC = '''        for idx, (rxn_expression, XRC) in enumerate(zip(rxn_expressions, XRCs)):
            idx = str(idx).zfill(2)
            data = " {:<10s}{:<70s}{:<30.16e}\\n".format(idx, rxn_expression, float(XRC))
            all_data += data
'''
EDITS = [
    ('C52', 'keep', 'rows joined', [(MF, REV, '''        rows = [" {:<10s}{:<70s}{:<30.16e}\\n".format(str(i).zfill(2), self._owner.rxn_expressions[i], float(rev))
                for i, rev in enumerate(reversibilities)]
        all_data = head_str + line_str + ''.join(rows) + line_str
''')]),
    ('C52', 'keep', 'row in a helper', [(MF, '            data = " {:<10s}{:<70s}{:<30.16e}\\n".format(idx, rxn, float(rev))\n', '            data = self._row(idx, rxn, rev)\n'),
                                        (MF, '    def __log_reversibilities(self', '    def _row(self, idx, name, value):\n        return " {:<10s}{:<70s}{:<30.16e}\\n".format(idx, name, float(value))\n\n    def __log_reversibilities(self')]),
    ('C52', 'keep', 'numbers by format', [(MF, TOF, TOF.replace('str(idx).zfill(2)', '"{:02d}".format(idx)'))]),
    ('C52', 'keep', 'rates in a list', [(MF, RATES, '''        parts = ["\\n\\n", title, line]
        for i, rxn_expression in enumerate(self._owner.rxn_expressions):
            parts.append(data_format.format(rxn_expression, float(fdata[i]), float(rdata[i])))
        parts.append(line)
        content = "".join(parts)
''')]),
    ('C52', 'keep', 'matrix by rows', [(SS, XT, '''        for i, gas_name in enumerate(gas_names):
            for j, intermediate in enumerate(intermediate_names):
                all_data += "{:<15s}{:<30s}{:<30.16e}\\n".format(gas_name, intermediate, float(XTRC_matrix[i][j]))
''')]),
    ('C52', 'break', 'rates swapped', [(MF, 'data_format.format(rxn_expression, float(f), float(r))', 'data_format.format(rxn_expression, float(r), float(f))')]),
    ('C52', 'break', 'rows of sorted reactions', [(MF, 'enumerate(zip(rxn_expressions, reversibilities))', 'enumerate(zip(sorted(rxn_expressions), reversibilities))')]),
    ('C52', 'break', 'repeated value left out', [(MF, '            all_data += data\n        all_data += line_str\n\n        if self._owner.log_allowed:\n            self.__logger.info(all_data)\n\n        return all_data\n\n    def get_tof',
                                                  '            if data[11:] not in all_data:\n                all_data += data\n        all_data += line_str\n\n        if self._owner.log_allowed:\n            self.__logger.info(all_data)\n\n        return all_data\n\n    def get_tof')]),
    ('C52', 'break', 'transition states first', [(SS, '''        intermediate_names = (self._owner.adsorbate_names +
                              self._owner.transition_state_names)

        head_str''', '''        intermediate_names = (self._owner.transition_state_names +
                              self._owner.adsorbate_names)

        head_str''')]),
    ('C52', 'break', 'magnitude of rate control', [(SS, XRC, XRC.replace('float(XRC)', 'abs(float(XRC))'))]),
    ('C52', 'break', 'constants reported in the other order', [(MF, 'self.__log_rates(kfs, krs, "k_forward", "k_reverse")', 'self.__log_rates(krs, kfs, "k_forward", "k_reverse")')]),
    ('C52', 'break', 'frequencies before the sign', [(MF, "        reapro_matrix *= -1\n        rate_vector = np.matrix(net_rates)  # get rate vector\n        tof_list = (rate_vector*reapro_matrix).tolist()[0]\n\n        # log TOFs\n        self.__log_tof(tof_list, self._owner.gas_names)\n",
      "        rate_vector = np.matrix(net_rates)  # get rate vector\n        tof_list = (rate_vector*reapro_matrix).tolist()[0]\n\n        # log TOFs\n        self.__log_tof(tof_list, self._owner.gas_names)\n        tof_list = [-tof for tof in tof_list]\n")]),
]
