"""Reference equations, written per period from the publications, over pinned coefficient tables."""
import csv
import json
import os

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")


def table(name, skip=0):
    """list of {column: float} rows of a pinned coefficient table"""
    with open(os.path.join(DATA, name)) as f:
        lines = f.read().splitlines()[skip:]
    head = [h.strip().lstrip("#").strip() for h in lines[0].split(",")]
    rows = []
    for ln in lines[1:]:
        if ln.strip():
            vals = [float(v) if v.strip() else float("nan") for v in ln.split(",")]
            rows.append(dict(zip(head, vals)))
    return rows


def load_json(name):
    with open(os.path.join(DATA, name)) as f:
        return json.load(f)
