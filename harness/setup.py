"""Builds the operator overrides and checks the arithmetic they implement."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc                                             # noqa: E402

tlc.classes()
r = tlc.check_model("RatCheck.tla", "RatCheck.cfg", timeout=1200)
print("overrides agree with RatPure/LinPure on %d states" % r["distinct"])
