import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base


def load(name):
    def make():
        if name == "C10":
            import predict
            return predict.C10()
        if name in ("C12", "C13"):
            import convert
            return convert.Profile(name)
        if name == "C11":
            import boundary
            return boundary.C11()
        if name == "C24":
            import strip
            return strip.C24()
        raise SystemExit("unknown profile")
    return make


base.main({k: load(k) for k in ("C10", "C11", "C12", "C13", "C24")})
