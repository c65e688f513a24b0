PB = 'scaks/parsers/parser_base.py'
EDITS = [
    ('C05', 'keep', 'x = x + s', [(PB, "                    site_matrix[i, j] += stoich\n", "                    site_matrix[i, j] = site_matrix[i, j] + stoich\n")]),
    ('C05', 'keep', 'x = x - s', [(PB, "                    site_matrix[i, j] -= stoich\n", "                    site_matrix[i, j] = site_matrix[i, j] - stoich\n")]),
    ('C05', 'keep', 'inner loop over names', [(PB, """                if species_site in sites_names:
                    j = sites_names.index(species_site)
                    site_matrix[i, j] += stoich
""", """                for j, name in enumerate(sites_names):
                    if name == species_site:
                        site_matrix[i, j] += stoich
""")]),
    ('C05', 'keep', 'sign loop', [(PB, """            # Initial state.
            for formula in rxn_list[0]:
                stoich = formula.stoichiometry()
                species_site = formula.species_site()

                # Empty site.
                if species_site in sites_names:
                    j = sites_names.index(species_site)
                    site_matrix[i, j] += stoich

                # Adsorbate.
                if species_site in reapro_names:
                    j = reapro_names.index(species_site)
                    reapro_matrix[i, j] += stoich

            # Final state.
            for formula in rxn_list[-1]:
                stoich = formula.stoichiometry()
                species_site = formula.species_site()

                # Empty site.
                if species_site in sites_names:
                    j = sites_names.index(species_site)
                    site_matrix[i, j] -= stoich

                # Adsorbate.
                if species_site in reapro_names:
                    j = reapro_names.index(species_site)
                    reapro_matrix[i, j] -= stoich
""", """            for sign, state in ((1, rxn_list[0]), (-1, rxn_list[-1])):
                for formula in state:
                    change = sign*formula.stoichiometry()
                    name = formula.species_site()
                    if name in sites_names:
                        site_matrix[i, sites_names.index(name)] += change
                    if name in reapro_names:
                        reapro_matrix[i, reapro_names.index(name)] += change
""")]),
    ('C05', 'keep', 'helper', [(PB, """            # Initial state.
            for formula in rxn_list[0]:
                stoich = formula.stoichiometry()
                species_site = formula.species_site()

                # Empty site.
                if species_site in sites_names:
                    j = sites_names.index(species_site)
                    site_matrix[i, j] += stoich

                # Adsorbate.
                if species_site in reapro_names:
                    j = reapro_names.index(species_site)
                    reapro_matrix[i, j] += stoich
""", """            def add_row(matrix, names, formula, factor):
                name = formula.species_site()
                if name in names:
                    matrix[i, names.index(name)] += factor*formula.stoichiometry()

            for formula in rxn_list[0]:
                add_row(site_matrix, sites_names, formula, 1)
                add_row(reapro_matrix, reapro_names, formula, 1)
""")]),
    ('C05', 'break', 'elif', [(PB, "                # Adsorbate.\n                if species_site in reapro_names:\n                    j = reapro_names.index(species_site)\n                    reapro_matrix[i, j] -= stoich", "                elif species_site in reapro_names[1:]:\n                    j = reapro_names.index(species_site)\n                    reapro_matrix[i, j] -= stoich")]),
    ('C05', 'break', 'assign', [(PB, "                    site_matrix[i, j] -= stoich\n", "                    site_matrix[i, j] = -stoich\n")]),
    ('C05', 'break', 'ts instead of fs', [(PB, "for formula in rxn_list[-1]:", "for formula in rxn_list[1]:")]),
    ('C05', 'break', 'no liquids', [(PB, "reapro_names = list(self._owner.gas_names + self._owner.liquid_names)", "reapro_names = list(self._owner.gas_names)")]),
]
