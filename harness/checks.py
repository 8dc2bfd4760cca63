"""The checks, one function per property."""
import genstruct as G
from vh import *

CHECKS = {}
NOTES = {}
def check(pid, note):
    def deco(f):
        CHECKS[pid] = f
        NOTES[pid] = note
        return f
    return deco

import checks_struct
import checks_misc
import checks_num
