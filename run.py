#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--replay file]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc.core import main  # noqa: E402
sys.exit(main())
