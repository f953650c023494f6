#!/bin/sh
# run every check of a tier and print its summary line
for i in ${*:-$(python3 -c "import json;print(' '.join(c['id'] if 'id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))" 2>/dev/null)}; do python3 /verif/check.py $i 2>&1 | grep -v '^ ' | tail -4 | cut -c1-260; done
