#!/bin/bash
# Runs every demonstration against /repo as built (all must pass).
cd /repo; for d in /verif/seeded/*/; do if bash $d/demo.sh >/tmp/demo.log 2>&1; then echo "ok $(basename $d)"; else echo "FAILS $(basename $d): $(tail -3 /tmp/demo.log)"; fi; done
