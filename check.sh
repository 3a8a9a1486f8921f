#!/bin/sh
# check.sh PROPERTY: verifies the property against /repo's current working tree
cd "$(dirname "$0")" || exit 2
V=$(pwd)
. ./env.sh
[ -x bin/gvc ] || sh setup.sh >&2 || exit 2
exec bin/gvc check -verif "$V" -repo /repo -prop "$1"
