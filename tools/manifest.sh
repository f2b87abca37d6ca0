#!/bin/bash
cd "$(dirname "$0")/.." && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python tools/mkmanifest.py
