# ruff: noqa

'''
Technologies
'''

from . import fs
from . import identifier
from . import persistence
from . import securehash
from . import timestamp
