#!/bin/bash
# try_seeded.sh [ID...]: runs each planted bug's own check (or those in $PROPS) against it
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=${PROPS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  echo "#### $id"; s=$(date +%s)
  LINES_SHOWN=${LINES_SHOWN:-3} tools/try_patch.sh seeded/$id/patch.diff $p
  echo "   ($(( $(date +%s)-s )) s)"
done
