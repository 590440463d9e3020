#!/bin/sh
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
[ -x bin/analyzer ] || sh setup.sh || exit 2
exec bin/analyzer -property "$1" -tier "$2" -out "$PWD/evidence"
