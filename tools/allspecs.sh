cd /verif; rm -rf /tmp/all; mkdir -p /tmp/all
for i in ${*:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 23 24 25 27}; do echo $i; done | xargs -P 7 -I{} sh -c 'PYTHONDONTWRITEBYTECODE=1 timeout 1500 python3-vt /tmp/r.py c{} > /tmp/all/{} 2>&1'
for f in /tmp/all/*; do echo "$f: $(tail -1 $f | cut -c1-200) und=$(grep -c UND $f) fail=$(grep -c FAIL $f)"; done
