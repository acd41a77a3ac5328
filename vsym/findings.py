"""known_findings.txt: lines 'finding: property=<id> check=<check> config=<prefix> <text>' suppress exactly
that check of that configuration; lines 'fixed: ...' are a record only and suppress nothing."""
import os
import re


def load(path, pid):
    out = []
    if not os.path.exists(path):
        return out
    for line in open(path):
        m = re.match(r'finding:\s+property=(\S+)\s+check=(\S+)\s+config=(\S+)\s+(.*)', line.strip())
        if m and m.group(1) == pid:
            out.append(dict(check=m.group(2), config=m.group(3), text=m.group(4)))
    return out


def match(known, v):
    for k in known:
        if v['check'].replace(' ', '_') == k['check'] and v['config'] == k['config']:
            return k
    return None
