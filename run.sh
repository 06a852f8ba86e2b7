#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
bash build.sh || exit 2
exec bin/checker -prop "$1" -tier "${2:-quick}" -dir "$PWD" -repo /repo
