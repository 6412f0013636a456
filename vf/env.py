"""Process environment: where the code under verification and the solvers are."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
VTSITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('PYTHONHASHSEED', '0')
if REPO not in sys.path[:1]:
  sys.path.insert(0, REPO)
if VTSITE not in sys.path:
  sys.path.append(VTSITE)
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
