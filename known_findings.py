"""Reads known_findings.txt. Lines:
  fixed: property=<id> <commit> <what failed>            (documentation only, suppresses nothing)
  known: property=<id> code=<violation code> match=<regular expression over the witness> | <what fails>
"""
import os, re
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.txt")


def known(pid):
    out = []
    if os.path.exists(F):
        for l in open(F):
            m = re.match(r"known: property=(\S+) code=(\S+) match=(.*?) \| (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out
