"""Reference semantics of values that models hand out (C23)."""


def drv_another(one, another, name, entry):
    """what is done to a default that one model hands out is not seen by another"""
    one.__dict__ = {}
    another.__dict__ = {}
    p = AttrDescriptor(name, [])
    p.__get__(one, None).append(entry)
    return list(p.__get__(another, None))


def unset(one, another, name, entry):
    return []


def drv_inner(one, another, name, entry):
    one.__dict__ = {}
    another.__dict__ = {}
    p = AttrDescriptor(name, [[]])
    p.__get__(one, None)[0].append(entry)
    return [list(x) for x in p.__get__(another, None)]


def inner(one, another, name, entry):
    return [[]]


def drv_mapping(one, another, name, entry):
    one.__dict__ = {}
    another.__dict__ = {}
    p = AttrDescriptor(name, {})
    p.__get__(one, None)['x'] = entry
    return len(p.__get__(another, None))


def mapping(one, another, name, entry):
    return 0


def drv_earlier(one, another, name, entry):
    """a default handed out before"""
    one.__dict__ = {}
    another.__dict__ = {}
    p = AttrDescriptor(name, [])
    first = p.__get__(another, None)
    p.__get__(one, None).append(entry)
    return list(first)


def drv_same(one, another, name, entry):
    """a model sees what was done to its own value"""
    one.__dict__ = {}
    p = AttrDescriptor(name, [])
    p.__get__(one, None).append(entry)
    return list(p.__get__(one, None))


def own(one, another, name, entry):
    return [entry]


def drv_copies(one, another, name, entry):
    """what is handed out as a copy is the caller's"""
    one.__dict__ = {}
    p = AttrDescriptor(name, [], deepcopy=True)
    p.__get__(one, None).append(entry)
    return list(p.__get__(one, None))


def drv_copy_of_set(one, another, name, entry):
    one.__dict__ = {}
    p = AttrDescriptor(name, [], deepcopy=True)
    value = [[entry]]
    p.__set__(one, value)
    p.__get__(one, None).append(entry)
    p.__get__(one, None)[0].append(entry)
    return [list(x) for x in p.__get__(one, None)]


def copy_of_set(one, another, name, entry):
    return [[entry]]


def drv_set_apart(one, another, name, entry):
    """values of two models"""
    one.__dict__ = {}
    another.__dict__ = {}
    p = AttrDescriptor(name, [])
    p.__set__(one, [entry])
    return list(p.__get__(another, None))


def drv_species(one, another, name, entry):
    one.__dict__ = {}
    p = SpeciesDefinitions(name, {})
    p.__get__(one, None)['x'] = entry
    return len(p.__get__(one, None))
