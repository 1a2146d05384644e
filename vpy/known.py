"""Known findings: genuine defects recorded instead of repaired (known_findings.txt)."""
import os
import re

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")


def entries():
    """lines `known: property=<id> case=<case> label=/<regex>/ message=/<regex>/ | what fails`"""
    out = []
    if os.path.exists(FILE):
        for l in open(FILE):
            m = re.match(r"known: property=(\S+) case=(\S+) label=/(.*?)/ message=/(.*?)/ \| (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def matcher(props):
    es = [e for e in entries() if e[0] in props]

    def f(rec):
        for p, c, lab, msg, what in es:
            if c == rec["case"] and re.search(lab, rec["label"]) and re.search(msg, rec["message"]):
                return f"property={p} {what}"
        return None

    return f
