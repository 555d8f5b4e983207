#!/bin/bash
# replay.sh FILE: builds like check.sh and replays a replay file.
f=$(realpath "$1")
prop=$(sed -n 's/^ "Property": "\(.*\)",/\1/p' "$f")
REPLAY=$f exec "$(dirname "$0")/../check.sh" "$prop" replay
