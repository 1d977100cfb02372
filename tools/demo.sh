#!/bin/bash
# run with cwd = the repository
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
