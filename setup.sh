#!/bin/bash
# Prebuilds the che binary from /repo; nothing else is needed.
cd "$(dirname "$0")"
exec python3 -c 'import sys; sys.path.insert(0,"harness"); import vlib; print(vlib.build_che())'
