#!/bin/bash
# nothing to build: the checks import /repo's working tree; make sure that the interpreter is there
/opt/venv/bin/python -c 'import numpy, h5py, pandas, sklearn' && echo ok
