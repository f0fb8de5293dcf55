#!/bin/bash
# dev helper: prove some contracts and print the outcome
cd "$(dirname "$0")" && /opt/venv/bin/python pyvc/runner.py sym $1 /tmp/sym.$1.json quick $2 && /opt/venv/bin/python pyvc/show.py /tmp/sym.$1.json
