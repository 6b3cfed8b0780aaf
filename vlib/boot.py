"""Interpreter set-up shared by every check.

Runs in /opt/venv (Python 3.12 with TensorFlow); z3 comes from the verification venv, appended at the END of
sys.path so that numpy and every other shared package still come from TensorFlow's own environment."""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ['CUDA_VISIBLE_DEVICES'] = ''
os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z3_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.path.insert(0, REPO)
if Z3_SITE not in sys.path:
    sys.path.append(Z3_SITE)

import logging  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter('ignore')
logging.getLogger('tensorflow').setLevel(logging.ERROR)

import tensorflow.compat.v1 as tf1  # noqa: E402

tf1.disable_v2_behavior()
tf1.logging.set_verbosity(tf1.logging.ERROR)
sys.modules['tensorflow'] = tf1

import z3  # noqa: E402,F401
import numpy as np  # noqa: E402,F401
tf = tf1
