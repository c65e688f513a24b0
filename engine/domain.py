"""Facts about the SCAKS object model used when comparing summaries.

They are the meaning of the public vocabulary (each is itself checked by a property):
* elementary_rxns_list[i] is RxnEquation(rxn_expressions[i]).to_formula_list()           (C02/C04)
* RxnEquation.tolist()[k].tolist() is RxnEquation.to_formula_list()[k]                    (C02)
* ChemFormula.type() is decided by site() and the '*' mark; a formula's site dictionary   (C02/C01)
* per-reaction and per-adsorbate lists have one entry per reaction / adsorbate            (C06/C45)
"""
from . import terms as K
from .terms import raw, mk, const, one, mul, cond, eq, contains, index, num, T
from . import regex as RX
from . import symbolic as SYM

RXN_LISTS = {'rxn_expressions', 'elementary_rxns_list', 'rate_expressions'}
RXN_KEYS = {'Gaf', 'Gar', 'dG'}


SELF = raw('var', 'self')
SELF_SORT = [None]


def sort_of(t, decl=None):
    """'rxn', 'state', 'formula', ['state'], ... or None"""
    if decl and t in decl:
        return decl[t]
    o = t.op
    if t is SELF and SELF_SORT[0]:
        return SELF_SORT[0]
    if o == 'new':
        return {'RxnEquation': 'rxn', 'ChemState': 'state', 'ChemFormula': 'formula'}.get(t.args[0])
    if o == 'm':
        if t.args[0] == 'to_formula_list':
            return [['formula']]
        if t.args[0] in ('adsorption_gases', 'desorption_gases'):
            return ['formula']
        if t.args[0] == 'revert':
            return 'rxn'
        if t.args[0] == 'tolist':
            s = sort_of(t.args[1], decl)
            if s == 'rxn':
                return ['state']
            if s == 'state':
                return ['formula']
        return None
    if o == 'attr' and t.args[1] == 'elementary_rxns_list':
        return [[['formula']]]
    if o == 'idx':
        s = sort_of(t.args[0], decl)
        return s[0] if isinstance(s, list) else None
    return None


NAME_LISTS = {'gas_names': 'gas', 'liquid_names': 'liquid', 'adsorbate_names': 'ads', 'site_names': 'site', 'transition_state_names': 'ts'}


DISTINCT = [()]         # terms without duplicates, besides the lists of names
REPEATED = [()]         # lists of this kind that may hold an element twice after all


def distinct(s):
    """lists of names have no duplicates (C04)"""
    if s.op == 'attr' and s.args[1] in REPEATED[0]:
        return False
    if s in DISTINCT[0]:
        return True
    if s.op in ('set', 'dict', 'augs', 'upd', 'acc'):
        return s.op in ('set', 'dict', 'upd') or distinct(s.args[0])
    if s.op == 'cat' and len(s.args) > 1:
        # names of different kinds of species of one model
        return all(x.op == 'attr' and x.args[1] in NAME_LISTS and x.args[0] is s.args[0].args[0] for x in s.args) and len(set(s.args)) == len(s.args)
    if s.op == 'idx' and K.PARTITION is not None and K.PARTITION(s.args[0]):
        return True
    return s.op == 'attr' and (s.args[1] in NAME_LISTS or s.args[1] in ('rxn_expressions', 'possible_element_types', '__possible_types'))


def implied(c, val):
    """a gas or a liquid is no empty site"""
    if val and c.op == 'eq' and c.args[1].op == 'str' and c.args[1].args[0] in ('g', 'l') and c.args[0].op == 'm' and c.args[0].args[0] == 'site':
        return [(raw('in', const('*'), mk('m', 'species', c.args[0].args[1])), False)]
    if val and c.op == 'in' and c.args[0].op == 'str' and c.args[0].args[0] == '*' and c.args[1].op == 'm' and c.args[1].args[0] == 'species':
        site = mk('m', 'site', c.args[1].args[1])
        return [(eq(site, const('g')), False), (eq(site, const('l')), False)]
    return []


def name_sort(t):
    if t.op == 'idx':
        s = t.args[0]
        if s.op == 'attr' and s.args[1] in NAME_LISTS:
            return NAME_LISTS[s.args[1]]
        if s.op == 'idx' and s.args[0].op == 'attr' and s.args[0].args[1] in ('_classified_adsorbates', 'classified_adsorbates'):
            return 'ads'
    if t.op == 'scat' and t.args[0].op == 'str' and t.args[0].args[0] == '*_':
        return 'site'
    if SYM.is_symbol(t):
        return SYM.family(t)
    return None


CLASS = {'rxn': 'RxnEquation', 'state': 'ChemState', 'formula': 'ChemFormula'}


class Domain(object):
    """rewrite hooks for one check"""

    def __init__(self, decl=None, formula_rules=True, rxn_rules=True, same_length=(), extra=None, sequences=()):
        self.sequences = frozenset(sequences)       # terms that are sequences
        self.decl = decl or {}
        self.formula_rules, self.rxn_rules = formula_rules, rxn_rules
        self.same_length = same_length      # [(predicate, canonical term)]
        self.extra = extra

    def integer(self, t):
        return False

    def nonneg(self, t):
        return False

    def never_none(self, t):
        return False

    def class_name(self, t):
        s = sort_of(t, self.decl)
        return CLASS.get(s) if isinstance(s, str) else None

    def rewrite(self, t):
        o = t.op
        if self.extra is not None:
            r = self.extra(t)
            if r is not None:
                return r
        if o == 'call' and t.args[0] in ('re.compile', 're.search', 're.match', 're.findall', 're.fullmatch', 're.finditer', 're.split', 're.sub'):
            return regex_call(t)
        if o == 'm' and t.args[1].op == 'regex':
            return regex_method(t)
        if o == 'm' and t.args[0] in ('group', 'groups', 'start', 'end', '__getitem__'):
            return match_method(t)
        if o == 'idx' and t.args[0].op == 'm' and t.args[0].args[0] == 'search':
            return mk('m', 'group', t.args[0], t.args[1])
        if o == 'm' and t.args[0] == 'index' and len(t.args) == 3 and t.args[2].op == 'idx' and t.args[2].args[0] is t.args[1] and distinct(t.args[1]):
            return t.args[2].args[1]
        if self.rxn_rules:
            if o == 'idx' and t.args[0].op == 'attr' and t.args[0].args[1] == 'elementary_rxns_list':
                m = t.args[0].args[0]
                return mk('m', 'to_formula_list', mk('new', 'RxnEquation', mk('idx', raw('attr', m, 'rxn_expressions'), t.args[1])))
            if o == 'm' and t.args[0] == 'tolist' and len(t.args) == 2:
                b = t.args[1]
                if b.op == 'idx' and b.args[0].op == 'm' and b.args[0].args[0] == 'tolist' and sort_of(b.args[0], self.decl) == ['state']:
                    return mk('idx', mk('m', 'to_formula_list', b.args[0].args[1]), b.args[1])
            if o == 'm' and t.args[0] in ('adsorption_gases', 'desorption_gases') and sort_of(t.args[1], self.decl) == 'rxn':
                lst = mk('idx', mk('m', 'to_formula_list', t.args[1]), num(0 if t.args[0][0] == 'a' else -1))
                v = K.fresh()
                f = mk('idx', lst, v)
                return K.mk_for(raw('len', lst), v, cond(eq(mk('m', 'site', f), const('g')), one(f), K.EMPTY))
        if self.formula_rules and o == 'm' and len(t.args) == 2:
            s = sort_of(t.args[1], self.decl)
            if t.args[0] == 'type' and (s == 'formula' or s is None):
                f = t.args[1]
                site = mk('m', 'site', f)
                return cond(eq(site, const('g')), const('gas'),
                            cond(eq(site, const('l')), const('liquid'),
                                 cond(raw('in', const('*'), mk('m', 'species', f)), const('site'), const('adsorbate'))))
            if s == 'formula' and t.args[0] == 'get_sites_dict':
                f = t.args[1]
                return raw('dict', one(raw('pair', mk('m', 'site', f), mul(mk('m', 'nsite', f), mk('m', 'stoichiometry', f)))))
        return None

    def contains(self, x, s):
        if self.formula_rules and x.op == 'str' and x.args[0] == '*' and s.op == 'm' and s.args[0] == 'species_site':
            return raw('in', x, mk('m', 'species', s.args[1]))
        return None

    def length(self, s):
        for pred, canon in self.same_length:
            if pred(s):
                return canon
        if self.rxn_rules:
            if s.op == 'm' and s.args[0] == 'tolist' and sort_of(s.args[1], self.decl) == 'rxn':
                return raw('len', mk('m', 'to_formula_list', s.args[1]))
            if s.op == 'attr' and s.args[1] == 'elementary_rxns_list':
                return raw('len', raw('attr', s.args[0], 'rxn_expressions'))
        return None


def regex_call(t):
    fn = t.args[0][3:]
    if len(t.args) < 2 or t.args[1].op != 'str':
        if len(t.args) > 1 and t.args[1].op == 'regex' and fn != 'compile':
            rx = t.args[1]
        else:
            return None
    else:
        fl = 0
        flags = [a for a in t.args[2:] if a.op in ('ext', 'kw')]
        if flags:
            return None
        pat = t.args[1].args[0]
        try:
            rx = raw('regex', RX.canonical(pat), pat)
        except Exception:
            return None
        if rx.args[0] != pat:
            NAMED[rx] = pat
            rx = raw('regex', rx.args[0], rx.args[0])
            PATS.setdefault(rx, set()).add(pat)
    if fn == 'compile':
        return rx
    return regex_method(mk('m', fn, rx, *t.args[2:])) or mk('m', fn, rx, *t.args[2:])


NAMED = {}
PATS = {}


def regex_method(t):
    name, rx = t.args[0], t.args[1]
    if name in ('match', 'fullmatch') and len(t.args) == 3:
        pat = rx.args[0]
        p2 = r'\A(?:' + pat + ')' + (r'\Z' if name == 'fullmatch' else '')
        c = RX.canonical(p2)
        return mk('m', 'search', raw('regex', c, c), t.args[2])
    return None


def match_method(t):
    name, b = t.args[0], t.args[1]
    if b.op == 'm' and b.args[0] == 'search' and b.args[1].op == 'regex':
        if name == 'group' and len(t.args) == 3 and t.args[2].op == 'str':
            for p in [b.args[1].args[0]] + sorted(PATS.get(b.args[1], ())):
                g = RX.group_number(p, t.args[2].args[0])
                if g is not None:
                    return mk('m', 'group', b, num(g))
        if name == 'group' and len(t.args) > 3:
            return raw('tuple', *[match_method(mk('m', 'group', b, a)) or mk('m', 'group', b, a) for a in t.args[2:]])
        if name == 'groups' and len(t.args) == 2:
            import re
            n = re.compile(b.args[1].args[0]).groups
            return raw('tuple', *[mk('m', 'group', b, num(i + 1)) for i in range(n)])
    if name == 'group' and b.op == 'idx' and b.args[0].op == 'm' and b.args[0].args[0] == 'finditer' and len(t.args) == 3 and t.args[2].op == 'num':
        fa = mk('m', 'findall', *b.args[0].args[1:])
        return mk('idx', mk('idx', fa, b.args[1]), num(t.args[2].args[0] - 1))
    return None


def install(dom):
    """make the hooks of dom active in the term constructors"""
    K.REWRITE = dom.rewrite if dom is not None else None
    K.LEN_RULE = dom.length if dom is not None else None
    K.TWO_OR_THREE = (lambda x: sort_of(x.args[0], dom.decl) in (['state'], [['formula']])) if dom is not None and dom.rxn_rules else None
    K.NAME_SORT = name_sort if dom is not None else None
    K.SOME_RULE = dom.never_none if dom is not None else None
    K.DISTINCT = distinct
    REPEATED[0] = getattr(dom, 'repeated', ())
    DISTINCT[0] = getattr(dom, 'distinct', ())
    K.POSITIVE = getattr(dom, 'positive', None)
    K.NONEMPTY = getattr(dom, 'nonempty', None)
    K.ENTRYWISE = getattr(dom, 'entrywise', False)
    K.BLOCKS = getattr(dom, 'blocks', None)
    K.PARTITION = getattr(dom, 'partition', None)
    K.IMPLIED = implied
    K.INT_RULE = dom.integer if dom is not None else None
    K.NONNEG_RULE = dom.nonneg if dom is not None else None
    K.SEQ_RULE = (lambda t: t in dom.sequences) if dom is not None and dom.sequences else None
    K.IN_RULE = dom.contains if dom is not None else None
