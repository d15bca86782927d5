import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools import bounded, cli, deductive
from tools.common import WORK
os.makedirs(WORK, exist_ok=True)
deductive.build_vx()
bounded.build()
cli.build()
