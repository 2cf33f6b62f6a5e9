"""Imports the code under test from /repo, whatever the caller's environment."""
import os
import sys
import warnings

warnings.filterwarnings('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
COMPAT = '/opt/optax-compat'
for _p in (COMPAT, REPO):
  if _p not in sys.path:
    sys.path.insert(0, _p)

import logging as _logging  # noqa: E402
_logging.disable(_logging.WARNING)

import jax_removed_names  # noqa: E402,F401
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
import optax  # noqa: E402

assert os.path.realpath(optax.__file__).startswith(
    os.path.realpath(REPO) + os.sep), optax.__file__
X64 = bool(jax.config.jax_enable_x64)
F = np.float64 if X64 else np.float32
