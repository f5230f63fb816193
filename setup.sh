#!/bin/bash
# Nothing to build: /repo is pure Python and is imported from its working tree. Check that it imports.
cd /verif && PYTHONPATH=/repo CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import dataprofiler; print('dataprofiler', dataprofiler.__file__)"
