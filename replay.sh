#!/bin/sh
# replay.sh <property> <replay file>: run one recorded input against the real code again
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d)
python3 - "$d" "$w" <<'P'
import sys; sys.path[:0]=[sys.argv[1]+'/tool']
import check; check.write_dict(sys.argv[2]+'/dict.h')
P
s=$(sed -n 's/^standard //p' "$2" | head -1)
clang++ -std=${s:-c++11} -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -I/repo/include -I"$d/oracle" -I"$w" "$d/oracle/$1.cpp" -o "$w/o" && (cd "$w" && ./o replay "$2"); r=$?
rm -rf "$w"; exit $r
