#!/usr/bin/env python3
"""Prints the per-property table of DESIGN.md from properties.jsonl and the harness's own rules."""
import json, os, subprocess
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rules = dict((l.split("\t")[0], l.split("\t")) for l in subprocess.run([os.path.join(H, "target/debug/vpharness"), "--list"], stdout=subprocess.PIPE, text=True).stdout.splitlines())
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); r = rules[p["id"]]
    print("**%s %s.** %s. Cases: %s quick, up to %s thorough. *Why tests cannot:* %s\n" % (p["id"], p["title"], r[3][0].upper() + r[3][1:], r[1], r[2], p["why_tests_cant"]))
