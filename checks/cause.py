"""Obligations about the cause an error names; switched on by checks/errs.py only."""
from .lib import is_err, variant
ON = False
RULE = "the error names its cause"
def cause(h, val, want, why=""):
    if ON and is_err(val): h.ob(RULE, variant(val) in want, "%r where %s: documented as %s" % (val, why, "/".join(want)))
def whole(chk, where, val, want, why=""):
    """the same with a Check in hand"""
    if ON and is_err(val): chk.ob(RULE, where, variant(val) in want, "%r where %s: documented as %s" % (val, why, "/".join(want)))
# serialization
LEN = {"str": ("StrLength",), "bin": ("DataLength",), "array": ("SeqLength",), "map": ("MapLength",)}
EOF = ("UnexpectedEof",)
