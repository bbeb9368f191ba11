"""debug helper: load the last extracted facts without re-extracting"""
import json, os
from .extract import FACTS, CRATES
def load(crates=None):
    out={}
    for c in crates or CRATES:
        txt=open(os.path.join(FACTS,c+'.json')).read()
        i = txt.index('"externs":[')
        for n in json.loads(txt[i + 10 : txt.index("]", i) + 1]):
            txt = txt.replace("%s::%s::" % (c, n), n + "::")
        out[c]=json.loads(txt)
    return out
