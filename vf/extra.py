"""Obligations of the engines that work outside the index-function engine (pysym, snf): own process, result as JSON."""
import importlib
import json
import os
import sys
import traceback

MODULES = {"C02": ["obl02"], "C06": ["obl06"], "C20": ["obl20"]}


def main():
    prop, tier, out = sys.argv[1:4]
    obls, fns = [], {}
    for m in MODULES[prop]:
        try:
            mod = importlib.import_module("vf." + m)
            fns.update({k: m for k in mod.FUNCTIONS})
            obls += mod.run(tier)
        except Exception as e:
            obls.append((f"{m}: within the verifier's reach", False, f"{type(e).__name__}: {e} {traceback.format_exc()[-800:]}", "unsupported", 0))
    json.dump({"obligations": obls, "functions": fns}, open(out + ".tmp", "w"))
    os.replace(out + ".tmp", out)


if __name__ == "__main__":
    main()
