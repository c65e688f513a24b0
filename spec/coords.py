"""Groups of coordinates (C40)."""


def __init__(self, coordinates=None, elements=None):
    if coordinates is None:
        coordinates = []
    if elements is None:
        elements = ["V"]*len(coordinates)
    if len(coordinates) != len(elements):
        raise ValueError('')
    self.__coords = coordinates
    self.__elements = elements


def append(self, coordinate, element=None):
    if type(coordinate) is not list or len(coordinate) != 3:
        raise ValueError('')
    for entry in coordinate:
        if type(entry) is not float:
            raise ValueError('')
    if element is None:
        element = "V"
    elif type(element) is not str:
        raise ValueError('')
    self.__coords.append(coordinate)
    self.__elements.append(element)


def extend(self, coordinates, elements=None):
    if elements is None:
        elements = ["V"]*len(coordinates)
    if len(coordinates) != len(elements):
        raise ValueError('')
    for i in range(len(coordinates)):
        self.append(coordinates[i], elements[i])


def move(self, move_vector=None):
    if move_vector is None:
        move_vector = [0.0, 0.0, 0.0]
    elif type(move_vector) is not list or len(move_vector) != 3:
        raise ValueError('')
    return CoordsGroup([[c[0] + move_vector[0], c[1] + move_vector[1], c[2] + move_vector[2]] for c in self.__coords], list(self.__elements))


def __add__(self, another):
    coords, elems = list(self.__coords), list(self.__elements)
    for i in range(len(another.coordinates())):
        c, e = another.coordinates()[i], another.elements()[i]
        for k in range(len(self.__coords)):
            if same(c, self.__coords[k]):
                if e != self.__elements[k] and self.__elements[k] == "V":
                    elems[k] = e
                break
        else:
            coords.append(c)
            elems.append(e)
    return CoordsGroup(coords, elems)


def same(coord1, coord2):
    return abs(coord1[0] - coord2[0]) <= CoordsGroup.tolerance and \
        abs(coord1[1] - coord2[1]) <= CoordsGroup.tolerance and abs(coord1[2] - coord2[2]) <= CoordsGroup.tolerance


def __len__(self):
    return len(self.__coords)


def coordinates(self):
    return self.__coords


def elements(self):
    return self.__elements


def moved_apart(group, vector):
    moved = group.move(vector)
    moved.elements().append("X")
    moved.coordinates().append(0)
    return group.coordinates(), group.elements()


def merged_apart(group, other):
    merged = group + other
    merged.elements().append("X")
    merged.coordinates().append(0)
    return group.coordinates(), group.elements(), other.coordinates(), other.elements()


def unchanged_move(group, vector):
    if vector is not None and (type(vector) is not list or len(vector) != 3):
        raise ValueError('')
    return group.coordinates(), group.elements()


def unchanged_merge(group, other):
    return group.coordinates(), group.elements(), other.coordinates(), other.elements()


def merge(self, another):
    coords, elems = list(self.__coords), list(self.__elements)
    for i in range(len(another.coordinates())):
        c, e = another.coordinates()[i], another.elements()[i]
        for k in range(len(self.__coords)):
            if CoordsGroup.__compare_coords(c, self.__coords[k]):
                if e != self.__elements[k] and self.__elements[k] == "V":
                    elems[k] = e
                break
        else:
            coords.append(c)
            elems.append(e)
    return CoordsGroup(coords, elems)
