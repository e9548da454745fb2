"""Known findings: genuine defects which are not repaired, each identified by
one specific input in known/<case>.json and listed in known-findings.txt."""
import json
import os
import re

import vp

FILE = os.path.join(vp.VERIF, "known-findings.txt")


def cases(prop):
    """[(case name, what fails, input)] of the findings listed for a property."""
    out = []
    with open(FILE) as fh:
        for line in fh:
            m = re.match(r"open: property=(\w+) case=([\w-]+) (.*)", line.strip())
            if m and m.group(1) == prop:
                with open(os.path.join(vp.VERIF, "known", m.group(2) + ".json")) as k:
                    out.append((m.group(2), m.group(3), json.load(k)))
    return out


def settle(c, found):
    """found: [(case name, what, rejected?)]. What is left of the listed ones."""
    lines = []
    for name, what, rejected in found:
        if rejected:
            lines.append(what)
        else:
            print("note: known finding %s of %s does not show any more" % (name, c.prop))
    c.notes["known_findings_reproduced"] = len(lines)
    return lines
