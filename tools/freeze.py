#!/usr/bin/env python3
"""write spec/layouts.json: the reviewed sentence layouts, talkers and descriptions,
read from the source by the analyser (run by hand after a review, never by a check)"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from rules.common import table
from rules.msgs import TABLES, tab
DECODES = ("FIXTYPE_GGA", "QUALITY", "POSMODE", "GNSSLIST", "SYSTEMID", "SIGNALID", "FMI_STATUS")


def lay(d):
    return [[k, t[0], lay(t[1])] if isinstance(t, tuple) else [k, t] for k, t in d.items()]


out = {"layouts": {f"{m}:{p}": {k: lay(d) for k, d in tab(n).items() if k != "FOO"} for (m, p), n in TABLES.items()},
       "talkers": sorted(tab("NMEA_TALKERS")), "msgids": tab("NMEA_MSGIDS"), "msgids_prop": tab("NMEA_MSGIDS_PROP"),
       "prefixes": sorted(tab("NMEA_PREFIX_PROP")),
       "decodes": {k: [list(x) for x in table(k).items()] for k in DECODES}}
with open(os.path.join(ROOT, "spec", "layouts.json"), "w") as fh:
    fh.write("{\n" + ",\n".join(
        f'"{k}": ' + (json.dumps(v) if not isinstance(v, dict) else "{\n" + ",\n".join(
            f' "{a}": ' + (json.dumps(b) if not (k == "layouts") else "{\n" + ",\n".join(f'  "{x}": {json.dumps(y)}' for x, y in b.items()) + "}")
            for a, b in v.items()) + "}") for k, v in out.items()) + "\n}\n")
