F = 'scaks/utilities/coordinate_utilities.py'
LOOP = """            in_it = False
            for idx, (ref_coord, ref_elem) in enumerate(zip(coords1, elems1)):
                coords_equal = CoordsGroup.__compare_coords(coord, ref_coord)

                if coords_equal:
                    # Check element, replace or not.
                    if elem != ref_elem:
                        if ref_elem == "V":
                            merged_elems[idx] = elem

                    in_it = True
                    break

            if not in_it:
                merged_coords.append(coord)
                merged_elems.append(elem)
"""
MOVE = """        move_vector = np.array(move_vector)
        ori_coords = np.array(self.__coords).reshape(-1, 3)
        new_coords = (ori_coords + move_vector).tolist()
"""
EDITS = [
    ('C40', 'break', 'operand coords changed', [(F, "merged_coords = copy.copy(coords1)", "merged_coords = coords1")]),
    ('C40', 'break', 'operand elements changed', [(F, "merged_elems = copy.copy(elems1)", "merged_elems = elems1")]),
    ('C40', 'keep', 'elements not copied twice', [(F, "CoordsGroup(new_coords, copy.copy(self.__elements))", "CoordsGroup(new_coords, self.__elements)")]),
    ('C40', 'break', 'elements lost after move', [(F, "CoordsGroup(new_coords, copy.copy(self.__elements))", "CoordsGroup(new_coords)")]),
    ('C40', 'break', 'subtracts', [(F, "(ori_coords + move_vector)", "(ori_coords - move_vector)")]),
    ('C40', 'break', 'signed difference', [(F, "if abs(e1 - e2) > CoordsGroup.tolerance", "if e1 - e2 > CoordsGroup.tolerance")]),
    ('C40', 'break', 'any axis', [(F, "            if abs(e1 - e2) > CoordsGroup.tolerance:\n                return False\n        return True", "            if abs(e1 - e2) <= CoordsGroup.tolerance:\n                return True\n        return False")]),
    ('C40', 'break', 'compares with merged', [(F, "enumerate(zip(coords1, elems1))", "enumerate(zip(merged_coords, merged_elems))")]),
    ('C40', 'break', 'replaces known element', [(F, "                        if ref_elem == \"V\":\n                            merged_elems[idx] = elem\n", "                        merged_elems[idx] = elem\n")]),
    ('C40', 'break', 'empty replaced never', [(F, "if ref_elem == \"V\":", "if elem == \"V\":")]),
    ('C40', 'break', 'no break', [(F, "                    in_it = True\n                    break\n", "                    in_it = True\n")]),
    ('C40', 'break', 'in it after loop', [(F, "                    in_it = True\n                    break\n", "                    in_it = True\n                    break\n                in_it = False\n")] ) if 0 else
    ('C40', 'break', 'and in vector check', [(F, "type(move_vector) is not list or len", "type(move_vector) is not list and len")]),
    ('C40', 'break', 'coordinate first', [(F, "        if element is None:\n            element = \"V\"\n        elif type", "        self.__coords.append(coordinate)\n        if element is None:\n            element = \"V\"\n        elif type"), (F, "            raise ValueError(\"element must be a string.\")\n\n        self.__coords.append(coordinate)\n", "            raise ValueError(\"element must be a string.\")\n\n")]),
    ('C40', 'break', 'one entry checked', [(F, "            if type(entry) is not float:\n                raise ValueError(msg)\n", "            if type(entry) is not float:\n                raise ValueError(msg)\n            break\n")]),
    ('C40', 'break', 'lengths not compared', [(F, "        if len(coordinates) != len(elements):\n", "        if len(coordinates) < len(elements):\n")]),
    ('C40', 'break', 'strict tolerance', [(F, "if abs(e1 - e2) > CoordsGroup.tolerance", "if abs(e1 - e2) >= CoordsGroup.tolerance")]),
    ('C40', 'keep', 'comprehension move', [(F, MOVE, "        new_coords = [[x + d for x, d in zip(coord, move_vector)] for coord in self.__coords]\n")]),
    ('C40', 'keep', 'explicit move', [(F, MOVE, "        dx, dy, dz = move_vector\n        new_coords = []\n        for x, y, z in self.__coords:\n            new_coords.append([x + dx, y + dy, z + dz])\n")]),
    ('C40', 'keep', 'all', [(F, "        for e1, e2 in zip(coord1, coord2):\n            if abs(e1 - e2) > CoordsGroup.tolerance:\n                return False\n        return True", "        return all(abs(e1 - e2) <= CoordsGroup.tolerance for e1, e2 in zip(coord1, coord2))")]),
    ('C40', 'keep', 'for else', [(F, LOOP, """            for idx, ref_coord in enumerate(coords1):
                if CoordsGroup.__compare_coords(coord, ref_coord):
                    if elems1[idx] == "V" and elem != "V":
                        merged_elems[idx] = elem
                    break
            else:
                merged_coords.append(coord)
                merged_elems.append(elem)
""")]),
    ('C40', 'keep', 'find helper', [(F, LOOP, """            idx = self.__find(coord)
            if idx is None:
                merged_coords.append(coord)
                merged_elems.append(elem)
            elif elem != elems1[idx] and elems1[idx] == "V":
                merged_elems[idx] = elem
"""), (F, "    def __add__(self, another):\n", "    def __find(self, coord):\n        for i, ref in enumerate(self.__coords):\n            if CoordsGroup.__compare_coords(coord, ref):\n                return i\n        return None\n\n    def __add__(self, another):\n")]),
    ('C40', 'keep', 'list copies', [(F, "merged_coords = copy.copy(coords1)", "merged_coords = list(coords1)"), (F, "merged_elems = copy.copy(elems1)", "merged_elems = elems1[:]")]),
    ('C40', 'keep', 'private access', [(F, "coords1, coords2 = self.__coords, another.coordinates()", "coords1, coords2 = self.coordinates(), another.__coords")]),
    ('C40', 'keep', 'construct default', [(F, "        if coordinates is None:\n            self.__coords = []\n        else:\n            self.__coords = copy.copy(coordinates)\n", "        self.__coords = [] if coordinates is None else copy.copy(coordinates)\n")]),
    ('C40', 'keep', 'isinstance free vector check', [(F, "        if type(move_vector) is not list or len(move_vector) != 3:\n            raise", "        valid = type(move_vector) is list and len(move_vector) == 3\n        if not valid:\n            raise")]),
    ('C40', 'keep', 'extend by index', [(F, "        for coordinate, element in zip(coordinates, elements):\n            self.append(coordinate, element)", "        for i in range(len(coordinates)):\n            self.append(coordinates[i], elements[i])")]),
    ('C40', 'keep', 'zeros', [(F, "move_vector = [0.0, 0.0, 0.0]", "move_vector = [0.0]*3")]),
    ('C40', 'keep', 'check inline', [(F, "        for entry in coordinate:\n            if type(entry) is not float:\n                raise ValueError(msg)\n", "        if any(type(entry) is not float for entry in coordinate):\n            raise ValueError(msg)\n")]),
]
