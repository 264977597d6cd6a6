#!/bin/bash
# DESIGN.md = design_head.md + table + design_tail.md
cd "$(dirname "$0")"
{ cat design_head.md; python3 gen_design_table.py; cat design_tail.md; } > ../DESIGN.md
