"""Texts of lists and tables."""
FU = 'scaks/utilities/format_utilities.py'
LOOP = """    for idx, elem in enumerate(list_obj):
        # if item is iterable, one a line
        if hasattr(elem, '__iter__') and not isinstance(elem, str):
            data += ('\\n' + indent + str(elem) + ',')
            continue
        # 5 items a line by default
        if idx % ncols == 0:
            data += ('\\n' + indent)

        # add single quotes for string
        if isinstance(elem, str):
            data += ("'" + elem + "', ")
        else:
            data += (str(elem) + ', ')
"""
TABLE = """    begin = var_name + " = {\\n"
    data = ""
    for key in sorted(dict_obj):
        value = dict_obj[key]
        data += "    '{}': {},\\n".format(key, value)
    end = "}\\n\\n"

    content = begin + data + end

    return content
"""
EDITS = [
    ('C29', 'keep', 'table joined', [(FU, TABLE, """    lines = ["    '{}': {},\\n".format(k, dict_obj[k]) for k in sorted(dict_obj)]
    return var_name + " = {\\n" + "".join(lines) + "}\\n\\n"
""")]),
    ('C29', 'keep', 'table of items', [(FU, TABLE, """    content = var_name + " = {\\n"
    for key, value in sorted(dict_obj.items()):
        content += "    '%s': %s,\\n" % (key, value)
    return content + "}\\n\\n"
""")]),
    ('C29', 'keep', 'table f-string', [(FU, TABLE, """    data = ""
    for key in sorted(dict_obj.keys()):
        data += f"    '{key}': {dict_obj[key]},\\n"
    return "{} = {{\\n{}}}\\n\\n".format(var_name, data)
""")]),
    ('C29', 'keep', 'list in pieces', [(FU, LOOP, """    pieces = []
    for idx, elem in enumerate(list_obj):
        text = isinstance(elem, str)
        if not text and hasattr(elem, '__iter__'):
            pieces.append('\\n' + indent + str(elem) + ',')
        else:
            if not idx % ncols:
                pieces.append('\\n' + indent)
            pieces.append(("'%s', " if text else "%s, ") % elem)
    data = ''.join(pieces)
""")]),
    ('C29', 'keep', 'list by helper', [(FU, LOOP, """    for idx, elem in enumerate(list_obj):
        data += _item_string(idx, elem, indent, ncols)
"""), (FU, "def get_list_string(", """def _item_string(idx, elem, indent, ncols):
    if isinstance(elem, str):
        item = "'{}', ".format(elem)
    elif hasattr(elem, '__iter__'):
        return '\\n' + indent + str(elem) + ','
    else:
        item = '{}, '.format(elem)
    return ('\\n' + indent if idx % ncols == 0 else '') + item


def get_list_string(""")]),
    ('C29', 'break', 'table unquoted', [(FU, "\"    '{}': {},\\n\"", "\"    {}: {},\\n\"")]),
    ('C29', 'break', 'table quoted twice', [(FU, "\"    '{}': {},\\n\".format(key", "\"    '{}': {},\\n\".format(repr(key)")]),
    ('C29', 'break', 'table of values', [(FU, ".format(key, value)", ".format(key, dict_obj.get(value))")]),
    ('C29', 'break', 'texts in lists unquoted', [(FU, "        if isinstance(elem, str):\n            data", "        if isinstance(elem, bytes):\n            data")]),
    ('C29', 'break', 'texts spread', [(FU, "if hasattr(elem, '__iter__') and not isinstance(elem, str):", "if hasattr(elem, '__iter__'):")]),
    ('C29', 'break', 'inner sequences skipped', [(FU, "            data += ('\\n' + indent + str(elem) + ',')\n            continue", "            if len(elem):\n                data += ('\\n' + indent + str(elem) + ',')\n            continue")]),
    ('C29', 'break', 'no comma at the end of a line', [(FU, "            data += (str(elem) + ', ')", "            data += str(elem) + (', ' if (idx + 1) % ncols else '')")]),
    ('C29', 'break', 'last item left out', [(FU, "in enumerate(list_obj):", "in enumerate(list_obj[:-1]):")]),
]
