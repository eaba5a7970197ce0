#!/bin/sh
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
