#!/usr/bin/env python3
"""check.py C02  -- runs the check of one property (VERIF_TIER, VERIF_SEED in the environment)."""
import importlib, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [ROOT + "/tools", ROOT + "/checks"]
WHERE = {"python_": ["C25"], "life": ["C21"], "convert": ["C08"], "cviews": ["C22"], "dtypes": ["C24"], "types_": ["C18", "C19", "C20"], "kernels": ["C15", "C16", "C17"], "refusal": ["C12", "C13"], "geoms": ["C11"], "traces": ["C01"], "text": ["C05", "C26"], "arrays": ["C09"], "writers": ["C02", "C03", "C04", "C10", "C14"], "readers": ["C06", "C07", "C23"]}
prop = sys.argv[1]
mod = next(m for m, ps in WHERE.items() if prop in ps)
getattr(importlib.import_module(mod), prop.lower())()
