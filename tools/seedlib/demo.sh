#!/bin/bash
exec python3 -B "$(dirname "$0")/demo.py"
