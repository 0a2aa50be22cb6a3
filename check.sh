#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" && exec env PYTHONDONTWRITEBYTECODE=1 python3-vt -m dv.run "$@"
