#!/bin/sh
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
exec env PYTHONDONTWRITEBYTECODE=1 python3 -m amgcheck "$1" --tier "${2:-quick}"
