#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from its parts."""
import subprocess, os
T = "/verif/tools/"
table = subprocess.run(["python3", T + "seeded_table.py"], capture_output=True, text=True, check=True).stdout
fixes = "".join("* " + l[len("fixed: "):] for l in open("/verif/known_findings.txt") if l.startswith("fixed:"))
open("/verif/DESIGN.md", "w").write(open(T + "design_head.md").read() + "\n" + open(T + "design_props.md").read()
    + open(T + "design_tail.md").read().replace("%FIXES%", fixes).replace("## 4.", "## 3.").replace("## 5.", "## 4.").replace("## 6.", "## 5.") + table)
