"""Registration of analyses; formulas that do not conserve."""
MK = 'scaks/models/micro_kinetic_model.py'
RP = 'scaks/parsers/rxn_parser.py'
ADD = "        analysis = analysis_cls()\n        self.analysis.append(analysis)\n"
FORM = """            msg_temp = "Mass of chemical formula {} and {} are not conservative."
            msg = msg_temp.format(self.formula(), another.formula())
            raise ValueError(msg)

        # Check sites.
        dict1 = self.get_sites_dict()
        dict2 = another.get_sites_dict()

        if dict1 != dict2:
            msg_temp = "Site of chemical formula"""
EDITS = [
    ('C35', 'keep', 'registered directly', [(MK, ADD, "        self.analysis.append(analysis_cls())\n")]),
    ('C35', 'keep', 'registered as a list', [(MK, ADD, "        self.analysis += [analysis_cls()]\n")]),
    ('C35', 'keep', 'registered by extend', [(MK, ADD, "        self.analysis.extend([analysis_cls()])\n")]),
    ('C35', 'break', 'registered once per class', [(MK, ADD, "        if not any(type(a) is analysis_cls for a in self.analysis):\n            self.analysis.append(analysis_cls())\n")]),
    ('C35', 'break', 'registered first', [(MK, ADD, "        self.analysis.insert(0, analysis_cls())\n")]),
    ('C35', 'break', 'class registered', [(MK, ADD, "        self.analysis.append(analysis_cls)\n")]),
    ('C35', 'break', 'registered alone', [(MK, ADD, "        self.analysis[:] = [analysis_cls()]\n")]),
    ('C01', 'break', 'sites of formulas not compared', [(RP, FORM, FORM.replace("dict2 = another.get_sites_dict()", "dict2 = self.get_sites_dict()"))]),
    ('C01', 'keep', 'sites of formulas (each has one) compared only if there are any', [(RP, FORM, FORM.replace("        if dict1 != dict2:\n            msg_temp = \"Site", "        if dict1 and dict1 != dict2:\n            msg_temp = \"Site"))]),
    ('C01', 'keep', 'formulas compared at once', [(RP, FORM, FORM.replace("        dict1 = self.get_sites_dict()\n        dict2 = another.get_sites_dict()\n\n        if dict1 != dict2:", "        if not self.get_sites_dict() == another.get_sites_dict():"))]),
]
