#!/bin/bash
# Nothing to build: the checks are Python and import /repo/src directly. Verify the tools they need.
cd "$(dirname "$0")" && mkdir -p evidence replays
exec /opt/venv/bin/python -c "import lxml, yaml, jsonschema; print('ok')"
