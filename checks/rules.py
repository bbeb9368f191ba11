"""Property-specific rules (beyond contracts)."""
from rules_ffi import f01, f02
from rules_rand import q01
from rules_wipe import z01
from rules_drop import x01
from rules_len import e02
from rules_codec import d02
from rules_panic import d01
from rules_bind import b02_reported, c03_shared, c05_shared

RULES = {"D01": [d01], "D02": [d02], "F01": [f01], "F02": [f02], "Q01": [q01], "Z01": [z01], "X01": [x01], "E02": [e02], "B02": [b02_reported], "C03": [c03_shared], "C05": [c05_shared]}
