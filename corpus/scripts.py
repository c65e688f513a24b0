"""Generated scripts, pictures, numerical derivatives."""
KS = 'scaks/solvers/kmc_solver.py'
EP = 'scaks/plotters/energy_profile_plotter.py'
FN = 'scaks/functions.py'
MF = 'scaks/solvers/mean_field_solver.py'
PROC = '''        content = ''
        for idx, proc in enumerate(processes):
            proc_str = proc._script('process_%d' % idx)
            content += proc_str
        # gather processes
        proc_str = 'processes = [\\n'
        for idx in range(len(processes)):
            proc_str += (' '*4 + 'process_%d,\\n' % idx)
        proc_str += ']\\n\\n'

        content += proc_str

        return content
'''
WRAP = '''            content = self.__script_header + 'from KMCLib import *\\n\\n'
            content += func(self, obj)

            # write to file
            if script_name:
                script_name = 'auto_' + script_name
                with open(script_name, 'w') as f:
                    f.write(content)
'''
ROW = '''            energies = [0.0, dG] if abs(Ga) < 1e-5 else [0.0, Ga, dG]
'''
LOOP = '''        for idx, (rxn, Ga, dG) in enumerate(zip(self._owner.rxn_expressions,
                                                self._owner.relative_energies['Gaf'],
                                                self._owner.relative_energies['dG'])):
'''
COL = '''        if direction == 'left':
            xj[j] -= delta
            Jj = (matrix(f(xj)) - fx)/(-delta)
            Jj = vec2list(Jj)
        if direction == 'right':
            xj[j] += delta
            Jj = (matrix(f(xj)) - fx)/(delta)
            Jj = vec2list(Jj)
        for i in range(m):
            J[i, j] = Jj[i]
'''
CJ = '''            if j <= inter_num - 1:
                xj[j] += delta
                Jj = (self._matrix(f(xj)) - fx)/(delta)
            else:
                xj[j] -= delta
                Jj = (self._matrix(f(xj)) - fx)/(-delta)
'''
RX = 'scaks/parsers/rxn_parser.py'
KM = 'scaks/models/kinetic_model.py'
PB = 'scaks/parsers/parser_base.py'


def between(path, first, last):
    t = open('/repo/' + path).read()
    i = t.index(first)
    return t[i:t.index(last, i) + len(last)]


FTEX = between(RX, "        tex_str = r''\n        tex_str += str(", "        return tex_str\n")
STEX = between(RX, "        formula_list = self.tolist()\n        first_sp", "        return tex_str\n")
SUB = between(RX, "        for element, n in splited_tuples:\n            if n:", "        return tex_str\n")
RTEX = between(RX, "        if len(tex_list) == 3:", "        return tex_str\n")
NAMES = between(KM, "            (self.__adsorbate_names,", "parse_elementary_rxns(self.rxn_expressions)\n")
PRES = between(MF, "        p_dict = {}\n", "self._p = p_dict\n")
LATEX = (between(MF, "            left = part1", "\n"), between(MF, "            left = part1", "\n").replace('i + 1', 'i').replace('i+1', 'i'))
EDITS = [
    ('C47', 'keep', 'script processes joined', [(KS, PROC, '''        parts = [proc._script('process_{}'.format(number)) for number, proc in enumerate(processes)]
        names = ['    process_{},\\n'.format(number) for number in range(len(parts))]
        return '{}processes = [\\n{}]\\n\\n'.format(''.join(parts), ''.join(names))
''')]),
    ('C47', 'keep', 'script processes one loop', [(KS, PROC, '''        content, gathered = '', 'processes = [\\n'
        for idx, proc in enumerate(processes):
            name = 'process_%d' % idx
            content += proc._script(name)
            gathered += ' '*4 + name + ',\\n'
        return content + gathered + ']\\n\\n'
''')]),
    ('C47', 'keep', 'script wrapper early return', [(KS, WRAP, '''            content = self.__script_header + 'from KMCLib import *\\n\\n' + func(self, obj)
            if not script_name:
                return content

            script_name = 'auto_{}'.format(script_name)
            with open(script_name, 'w') as stream:
                stream.write(content)
            if True:
''')]),
    ('C47', 'break', 'script processes from one', [(KS, "for idx in range(len(processes)):\n            proc_str +=", "for idx in range(1, len(processes)):\n            proc_str +=")]),
    ('C47', 'break', 'script processes numbered by name', [(KS, "proc_str = proc._script('process_%d' % idx)", "proc_str = proc._script('process_%d' % processes.index(proc))")]),
    ('C47', 'break', 'script processes only listed once', [(KS, "            content += proc_str\n        # gather", "            if proc_str not in content:\n                content += proc_str\n        # gather")]),
    ('C47', 'break', 'script without import', [(KS, "content = self.__script_header + 'from KMCLib import *\\n\\n'", "content = self.__script_header")]),
    ('C47', 'break', 'script appended', [(KS, "with open(script_name, 'w') as f:\n                    f.write(content)", "with open(script_name, 'a') as f:\n                    f.write(content)")]),
    ('C47', 'break', 'script of body only', [(KS, "                    f.write(content)\n                if self", "                    f.write(func(self, obj))\n                if self")]),
    ('C48', 'keep', 'profiles by index', [(EP, LOOP, '''        for idx, rxn in enumerate(self._owner.rxn_expressions):
            Ga = self._owner.relative_energies['Gaf'][idx]
            dG = self._owner.relative_energies['dG'][idx]
''')]),
    ('C48', 'keep', 'profile energies built', [(EP, ROW, '''            energies = [0.0]
            if not abs(Ga) < 1e-5:
                energies.append(Ga)
            energies.append(dG)
''')]),
    ('C48', 'keep', 'profile file name joined', [(EP, "image_name = 'energy_profile/{}_{}.png'.format(idx, rxn)", "image_name = 'energy_profile/' + str(idx) + '_%s.png' % rxn")]),
    ('C48', 'break', 'profile reverse barrier', [(EP, "relative_energies['Gaf'],", "relative_energies['Gar'],")]),
    ('C48', 'break', 'profile small barriers left out', [(EP, "abs(Ga) < 1e-5", "abs(Ga) < 1e-2")]),
    ('C48', 'break', 'profile of negative barrier', [(EP, "abs(Ga) < 1e-5", "Ga < 1e-5")]),
    ('C48', 'break', 'profile one canvas', [(EP, "        for idx, (rxn,", "        canvas = EPCanvas()\n        for idx, (rxn,"), (EP, "            canvas = EPCanvas()\n            canvas.add", "            canvas.add")]),
    ('C48', 'break', 'profile file by expression', [(EP, "'energy_profile/{}_{}.png'.format(idx, rxn)", "'energy_profile/{}.png'.format(rxn)")]),
    ('C48', 'break', 'profile existing pictures kept', [(EP, "            canvas.figure.savefig(image_name)\n", "            if not os.path.exists(image_name):\n                canvas.figure.savefig(image_name)\n")]),
    ('C48', 'break', 'profile sorted energies', [(EP, "            canvas = EPCanvas()\n", "            energies = sorted(energies)\n            canvas = EPCanvas()\n")]),
    ('C49', 'keep', 'quotient by signed step', [(FN, COL, '''        if direction == 'left':
            delta = -delta
        xj[j] += delta
        Jj = vec2list((matrix(f(xj)) - fx)/delta)
        for i, entry in enumerate(Jj):
            J[i, j] = entry
''')]),
    ('C49', 'break', 'quotient transposed', [(FN, "            J[i, j] = Jj[i]", "            J[j, i] = Jj[i]")]),
    ('C49', 'break', 'quotient points accumulate', [(FN, "        xj = copy.copy(x)\n        delta", "        xj = x\n        delta")]),
    ('C49', 'break', 'quotient sign of left', [(FN, "- fx)/(-delta)", "- fx)/(delta)")]),
    ('C49', 'break', 'quotient step not absolute', [(FN, "        delta = abs(h*xj[j])\n", "        delta = h*xj[j]\n")]),
    ('C49', 'break', 'quotient step of first', [(FN, "abs(h*xj[j])", "abs(h*xj[0])")]),
    ('C49', 'break', 'quotient smaller step', [(FN, "max(delta, h)", "min(delta, h)")]),
    ('C49', 'keep', 'classified signed step', [(MF, CJ, '''            if j >= inter_num:
                delta = -delta
            xj[j] = xj[j] + delta
            Jj = (self._matrix(f(xj)) - fx)/delta
''')]),
    ('C49', 'break', 'classified bound', [(MF, "if j <= inter_num - 1:", "if j <= inter_num:")]),
    ('C49', 'break', 'classified one sign', [(MF, "(self._matrix(f(xj)) - fx)/(-delta)", "(self._matrix(f(xj)) - fx)/delta")]),
    ('C50', 'keep', 'tex formula joined', [(RX, FTEX, """        parts = self.__species.split('-')
        number = '' if self.__stoich == 1 else str(self.__stoich)
        return '{}{}({})'.format(number, '-'.join(self.__sub_texen(p) for p in parts), self.__site)
""")]),
    ('C50', 'keep', 'tex state joined', [(RX, STEX, """        return ' + '.join(formula.texen() for formula in self.tolist())
""")]),
    ('C50', 'keep', 'tex sub by parts', [(RX, SUB, """        parts = []
        for element, n in splited_tuples:
            parts.append('{}_{{{}}}'.format(element, n) if n else element)
        return ''.join(parts)
""")]),
    ('C50', 'keep', 'tex reaction arrows', [(RX, RTEX, """        arrow = r' \\rightarrow '
        if len(tex_list) == 2:
            return arrow.join(tex_list)
        elif len(tex_list) == 3:
            initial, transition, final = tex_list
            return initial + r' \\leftrightarrow ' + transition + arrow + final
""")]),
    ('C50', 'break', 'tex first part only', [(RX, "for sub_sp in sub_species_list])", "for sub_sp in sub_species_list[:2]])")]),
    ('C50', 'break', 'tex coefficient of large', [(RX, "str(self.__stoich) if self.__stoich != 1 else ''", "str(self.__stoich) if 1 < self.__stoich < 10 else ''")]),
    ('C50', 'break', 'tex last count', [(RX, "tex_str += element + r'_{' + n + r'}'", "tex_str += element + r'_' + n")]),
    ('C50', 'break', 'tex transition final', [(RX, "r' \\rightarrow ' + tex_list[-1])", "r' \\rightarrow ' + tex_list[1])")]),
    ('C50', 'break', 'tex equation number', [(MF, LATEX[0], LATEX[1])]),
    ('C50', 'break', 'tex file overwritten', [('scaks/__init__.py', "f = open(filename, 'a')", "f = open(filename, 'w')")]),
    ('C51', 'keep', 'names by single assignment', [(KM, NAMES, """            parsed = self.parser.parse_elementary_rxns(self.rxn_expressions)
            self.__adsorbate_names, self.__gas_names, self.__liquid_names = parsed[:3]
            self.__site_names, self.__transition_state_names, self.__elementary_rxns_list = parsed[3:]
""")]),
    ('C51', 'break', 'names exchanged', [(KM, "             self.__gas_names,\n             self.__liquid_names,", "             self.__liquid_names,\n             self.__gas_names,")]),
    ('C51', 'break', 'query of gas', [(KM, "return self.__liquid_names", "return self.__gas_names")]),
    ('C51', 'break', 'corrector as solver', [(KM, "setattr(self, mangled_name(self, 'corrector'), corrector)", "setattr(self, mangled_name(self, 'solver'), corrector)")]),
    ('C51', 'break', 'solver kept', [(KM, "            setattr(self, mangled_name(self, 'solver'), solver)", "            self.__dict__.setdefault(mangled_name(self, 'solver'), solver)")]),
    ('C51', 'break', 'kB of atomic units', [(KM, "self._kB = kB_eV", "self._kB = h_eV")]),
    ('C51', 'break', 'energies claimed', [(KM, "self._has_relative_energy = False", "self._has_relative_energy = True")]),
    ('C51', 'break', 'definitions copied', [(PB, "self.__species_definitions = getattr(self._owner, attribute_name)", "self.__species_definitions = dict(self._owner.species_definitions)")]),
    ('C51', 'break', 'concentration of gas', [(MF, "concentration = species_definitions[liquid_name]['concentration']", "concentration = species_definitions[liquid_name]['pressure']")]),
    ('C51', 'break', 'owner by copy', [('scaks/correctors/corrector_base.py', "super(CorrectorBase, self).__init__(owner)", "super(CorrectorBase, self).__init__(owner.solver)")]),
    ('C51', 'keep', 'pressures by comprehension', [(MF, PRES, """        self._p = {gas: self._mpf(species_definitions[gas]['pressure']) for gas in self._owner.gas_names}
""")]),
]
