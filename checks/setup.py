"""Nothing is kept between runs: this only shows that the tools work here."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import build, tlc, BUILD  # noqa: E402
os.unlink(build("codec"))
