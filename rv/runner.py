"""entry point: python rv/runner.py <property id> [options]"""
import importlib
import logging
import os
import sys

logging.disable(logging.CRITICAL)
pid = sys.argv[1]
import gravity_toolkit
REPO = os.environ.get('RV_REPO', '/repo')
where = os.path.realpath(gravity_toolkit.__file__)
if not where.startswith(os.path.realpath(REPO) + os.sep):
    print(f'INCONCLUSIVE property={pid}: imported {where}, not {REPO}')
    sys.exit(2)
module = importlib.import_module(f'checks.{pid}')
sys.exit(module.check.main(sys.argv[2:]))
