#!/bin/bash
# mutb.sh PID file  < lines "old ||| new [||| nth]"
while IFS= read -r line; do
  [ -z "$line" ] && continue
  o="${line%%' ||| '*}"; rest="${line#*' ||| '}"; n="${rest%%' ||| '*}"; k=""
  [ "$rest" != "$n" ] && k="${rest#*' ||| '}"
  VF_SHARDS=${VF_SHARDS:-8} python3 /verif/tools/mut.py "$1" "$2" "$o" "$n" $k
done
