"""Queries for what is not available yet (C41)."""


def steady_state_coverages(self):
    if hasattr(self, '__ss_cvgs'):
        return self.__ss_cvgs
    raise AttributeError


def TOFs(self):
    if hasattr(self, '__tofs'):
        return self.__tofs
    raise AttributeError


def reversibilities(self):
    if hasattr(self, '__reversibilities'):
        return self.__reversibilities
    raise AttributeError


def error(self):
    if hasattr(self, '__error'):
        return self.__error
    raise AttributeError
