"""known_findings.jsonl: genuine defects recorded rather than repaired.  Each
open entry names the contract unit that exhibits exactly that input class; the
other units exclude it."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'known_findings.jsonl')


def load():
    out = {}
    if os.path.exists(PATH):
        for line in open(PATH):
            line = line.strip()
            if not line:
                continue
            r = json.loads(line)
            if r.get('status') == 'open':
                out[(r['property'], r['unit'])] = r
    return out
