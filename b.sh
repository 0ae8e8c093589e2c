#!/bin/sh
# dev helper: build harnesses / tools
python3 /verif/tools/genninja.py /verif/build/plain plain && for t in "$@"; do case $t in c[0-9]*) t=h/$t;; lib) t=libhfst.so;; *) t=bin/$t;; esac; ninja -C /verif/build/plain /verif/build/plain/$t 2>&1 | grep -E "error|FAILED|undefined" | cut -c1-250 | head -15; done
