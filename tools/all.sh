#!/bin/bash
# all.sh: deductive side of every property, one line each
cd /verif; for c in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23}; do [ -f vf/contracts/${c,,}.py ] && echo "$c $(PYTHONHASHSEED=0 timeout 900 /opt/venv/bin/python -m vf.pydv.verify $c 2>&1 | grep -v "^[a-z].* \([0-9]*\)/\1 obligations.*s $" | cut -c1-200 | tail -${N:-4})"; done
