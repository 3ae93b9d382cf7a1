"""Answers questions about Python's own behaviour, one JSON object per line."""
import json, sys, configparser, stat

from pip._vendor.packaging.version import Version, InvalidVersion
from pip._vendor.packaging.specifiers import Specifier, SpecifierSet, InvalidSpecifier
from pip._vendor.packaging.utils import parse_wheel_filename, canonicalize_name

def q_version(q):
    try:
        v = Version(q["s"])
    except InvalidVersion:
        return {"ok": False}
    return {"ok": True, "str": str(v), "public": v.public, "pre": v.is_prerelease,
            "release": list(v.release), "epoch": v.epoch}

def q_cmp(q):
    vs = [Version(s) for s in q["vs"]]
    return {"cmp": [[(a > b) - (a < b) for b in vs] for a in vs]}

def q_spec(q):
    try:
        s = Specifier(q["spec"])
    except InvalidSpecifier:
        return {"ok": False}
    return {"ok": True, "match": [s.contains(v, prereleases=True) for v in q["vs"]]}

def q_config(q):
    p = configparser.ConfigParser(delimiters=tuple(q["delims"]), comment_prefixes=tuple(q["comments"]),
        inline_comment_prefixes=tuple(q["inline"]), strict=q["strict"], empty_lines_in_values=q["empty"],
        interpolation=None, default_section="\0no default section")
    if q["case"]:
        p.optionxform = str
    try:
        p.read_string(q["text"])
    except configparser.Error as e:
        return {"ok": False, "err": str(e)}
    return {"ok": True, "cfg": {s: dict(p.items(s)) for s in p.sections()}}

def q_filemode(q):
    return {"s": [stat.filemode(m) for m in q["m"]]}

def q_fileattrs(q):
    return {k: v for k, v in vars(stat).items() if k.startswith("FILE_ATTRIBUTE_")}

def q_name(q):
    return {"s": canonicalize_name(q["s"])}

for line in sys.stdin:
    q = json.loads(line)
    r = globals()["q_" + q["op"]](q)
    sys.stdout.write(json.dumps(r) + "\n")
    sys.stdout.flush()
