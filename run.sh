#!/bin/bash
# run.sh <property> [--thorough|--quick] [--only GROUP I | --replay FILE]
cd "$(dirname "$0")" && exec python3 -m vf.main "$@"
