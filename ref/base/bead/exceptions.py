class InvalidArchive(Exception):
    """Not a valid bead archive"""


class BoxError(Exception):
    """Box operation related error"""


class BoxIndexError(Exception):
    """Box index operation related error"""
