#!/bin/bash
# development aid: all tests against their specifications, in parallel
opt="$1"
for x in ${ONLY:-monobit frequency_within_block runs longest_runs binary_matrix_rank spectral non_overlapping_template_matching overlapping_template_matching maurers_universal linear_complexity serial approximate_entropy cusum random_excursions random_excursions_variant}; do echo $x; done | xargs -P 8 -I{} sh -c "timeout 600 /opt/venv/bin/python tools/cmp.py -f $opt {} > /tmp/r_{} 2>&1"
for x in /tmp/r_*; do grep -v "     \|^  code\|^  spec" $x | grep "DIFF\|SPLIT\|code \|MISS\|Err\|guard F" | cut -c1-170;  done
