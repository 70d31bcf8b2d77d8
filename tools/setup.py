"""build the compiler driver and the facts of the current tree once"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vplib import facts
print(facts.build()[0])
