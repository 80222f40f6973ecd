#!/bin/bash
# run.sh <property>: decide one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -x bin/notifysa ] || ./setup.sh >&2 || exit 2
exec bin/notifysa -repo /repo -verif "$PWD" -prop "$1"
