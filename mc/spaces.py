"""Which translation units decide which property, in which build.

Units are shared where properties overlap: a gradient that is wrong for one
operation is also wrong in every program using it, a slice that is wrong is a
wrong link of a view chain."""
import json, os

_here = os.path.dirname(os.path.abspath(__file__))
_titles = {}
with open(os.path.join(os.path.dirname(_here), "properties.jsonl")) as f:
    for line in f:
        if line.strip():
            j = json.loads(line)
            _titles[j["id"]] = j["title"]

_units = {
    "C01": ["c01"],
    "C02": ["c02"],
    "C03": ["c03"],
    "C04": ["c04"],
    "C05": ["c05"],
    "C06": ["c06", "c05"],
    "C07": ["c07", "c18"],
    "C08": ["c08"],
    "C09": ["c09"],
    "C10": ["c10"],
    "C11": ["c11"],
    "C12": ["c12", "c13"],
    "C13": ["c13", "c12"],
    "C14": ["c14", "c14k"],
    "C15": ["c15"],
    "C17": ["c17"],
    "C18": ["c18", "c07"],
    "C19": ["c19"],
    "C20": ["c20"],
}
PROPS = {c: {"title": _titles[c], "runs": [("og", u)]} for c, u in _units.items()}
PROPS["C16"] = {
    "title": _titles["C16"],
    "runs": [("asan", ["c16", "c01", "c02", "c03", "c04", "c05", "c06", "c08", "c09",
                       "c10", "c11", "c12", "c13", "c17", "c18", "c19"])],
}
