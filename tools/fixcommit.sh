#!/bin/bash
# fixcommit.sh "message" files... : commits the fix in the working clone /tmp/rw and brings it into /repo
cd /tmp/rw && m="$1" && shift && git add "$@" && git -c user.name=verif -c user.email=verif@anthropic.com commit -qm "$m" && git -C /repo pull -q --ff-only /tmp/rw HEAD && git -C /repo log -1 --format='%h %s'
