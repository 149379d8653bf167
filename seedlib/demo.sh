#!/bin/bash
# Run in /repo: exit 0 if the property holds here, 1 if not.
exec python3 "$(dirname "$0")/demo.py"
