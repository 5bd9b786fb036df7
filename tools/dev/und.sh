#!/bin/bash
# und.sh <slot>...: what the checks of try.sh could not decide, without repetitions
for s in "$@"; do grep -hE '^(UNDECIDED|BROKEN)' /tmp/w/$s/*.log | sed -E 's/property=[A-Z0-9]* [a-z_0-9A-Z]*: //; s/(Agg|Vec|Term)\(.*\) in /.. in /' | cut -c1-230 | sort | uniq -c | sort -rn | head -15; done
