#!/bin/bash
# native_all.sh CASES SEED SECS [PATTERN]: runs every contract natively and prints failures.
V=$(cd "$(dirname "$0")/.." && pwd)
$V/build/native list 2>/dev/null | grep -E "${4:-.}" | awk '{print $2}' | xargs -P 8 -I{} bash -c '
O=$(mktemp); NATIVE_OUT=$O timeout 200 '$V'/build/native search {} '$1' '$2' '$3' >/dev/null 2>&1
python3 - "$O" {} <<P
import json,sys
try: d=json.load(open(sys.argv[1]))
except Exception as e: print(sys.argv[2],"NO RESULT"); raise SystemExit
if d["failure"]: print(sys.argv[2],"FAIL after",d["cases"],d["failure"]["labels"],d["failure"]["inputs"])
elif d["run"]<200: print(sys.argv[2],"only",d["run"],"of",d["cases"])
P
rm -f $O'
