#!/usr/bin/env python3
"""Compose DESIGN.md from tools/design/*.md, tools/props.py, the harnesses and seeded/."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props  # noqa: E402 (also regenerates properties.jsonl, MANIFEST.json, rules.json)


def read(name):
    with open(os.path.join(HERE, "tools", "design", name)) as f:
        return f.read().strip() + "\n\n"


def main():
    out = read("head.md")
    out += "## Properties, one by one\n\n"
    details = dict(re.findall(r"^### (C\d\d)\n(.*?)(?=^### |\Z)", read("details.md") + "### ", re.M | re.S))
    for p in props.P:
        laws = []
        for path in sorted(glob.glob(os.path.join(HERE, "harness", p["id"] + "*.cpp"))):
            laws += [(n, w) for n, w in re.findall(r"PBT_LAW\(C\d\d, (\w+), ([\d.]+)\)", open(path).read()) if n != "name"]
        live = [n for n, w in laws if float(w) > 0]
        out += "### %s. %s\n\n" % (p["id"], p["title"])
        out += "- **Specified**: %s\n" % p["statement"]
        out += "- **Domain**: %s.\n" % p["text"].rstrip(".")
        out += "- **Generated and compared**: %s\n" % p["rule"]
        if p["id"] in details:
            out += "- **Oracle and bounds**: %s\n" % " ".join(details[p["id"]].split())
        if p["assumptions"]:
            out += "- **Assumed or restricted**: %s\n" % " ".join(p["assumptions"])
        out += "- **Why tests cannot**: %s\n" % p["why"]
        out += "- **Harness**: `harness/%s.cpp`, laws %s.\n\n" % (p["id"], ", ".join("`%s`" % n for n in live))
    out += read("middle.md")
    with open(os.path.join(HERE, "tools", "design", "catches.json")) as f:
        catches = json.load(f)
    out += "| bug | check | what it breaks | what it needs | caught |\n|---|---|---|---|---|\n"
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        with open(d) as f:
            m = json.load(f)
        name = os.path.basename(os.path.dirname(d))
        out += "| %s | %s | %s | %s | %s |\n" % (name, m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."),
                                             catches.get(name, "yes"))
    out += "\n" + read("tail.md")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(out.strip() + "\n")


main()
