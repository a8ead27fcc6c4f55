#!/bin/bash
cd /verif; for p in "$@"; do python3 tools/tr.py $(ls -t replays | grep ^$p- | head -1 | sed s/.json//); done
