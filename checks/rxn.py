"""Reaction equations: C01, C02, C03."""
from . import check

RXN = 'scaks/parsers/rxn_parser.py'
VF = 'value-flow equivalence: the normal form of the function equals the normal form of the reference semantics'


@check('C02')
def reading(c):
    c.rule(VF)
    c.driver(RXN, 'rxn', 'drv_formula', 'formula', where=RXN + ':ChemFormula', construct=['ChemFormula'], ob='formula fields')
    c.driver(RXN, 'rxn', 'drv_state', 'state', where=RXN + ':ChemState', construct=['ChemState'], ob='state fields')
    c.driver(RXN, 'rxn', 'drv_equation', 'equation', where=RXN + ':RxnEquation', construct=['RxnEquation'], ob='equation fields')
    c.equiv(RXN + ':ChemFormula.__add__', 'rxn', 'add', opaque=['formula'], ob='sum of formulas')
    c.equiv(RXN + ':ChemState.get_species_site_list', 'rxn', 'species_site_list', opaque=['tolist', 'species_site'], ob='species of a state')


@check('C03')
def reverse(c):
    c.rule(VF)
    c.driver(RXN, 'rxn', 'drv_revert', 'revert', where=RXN + ':RxnEquation.revert', construct=[], inline=['revert'], opaque=['tolist', 'chem_state'], ob='reverse')
    c.equiv(RXN + ':RxnEquation.adsorption_gases', 'rxn', 'adsorption', opaque=['to_formula_list'])
    c.equiv(RXN + ':RxnEquation.desorption_gases', 'rxn', 'desorption', opaque=['to_formula_list'])


@check('C01')
def balance(c):
    c.rule(VF)
    F, S = RXN + ':ChemFormula.', RXN + ':ChemState.'
    c.equiv(F + 'get_species_elements_dict', 'rxn', 'species_elements')
    c.equiv(F + 'get_elements_dict', 'rxn', 'formula_elements')
    c.equiv(F + 'get_sites_dict', 'rxn', 'formula_sites')
    c.equiv(S + 'get_elements_dict', 'rxn', 'state_elements')
    c.equiv(S + 'get_sites_dict', 'rxn', 'state_sites')
    c.equiv(S + 'conserve', 'rxn', 'conserve')
    c.equiv(F + 'conserve', 'rxn', 'conserve', ob='formulas that do not conserve')
    c.equiv(RXN + ':RxnEquation.check_conservation', 'rxn', 'check_conservation', inline=['conserve'], opaque=['tolist', 'get_elements_dict', 'get_sites_dict'])
