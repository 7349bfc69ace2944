#!/bin/bash
# exit 0 when the broker behaves, 1 when it does not
exec timeout 280 python3 "$(dirname "$0")/demo.py"
