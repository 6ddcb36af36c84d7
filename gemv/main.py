import json
import os
import sys


def main():
    from gemv import common

    args = sys.argv[1:]
    if args and args[0] == "--replay":
        with open(args[1]) as f:
            d = json.load(f)
        o = common.run_job(d["property"], d["fn"], d["kwargs"], 0)
        for key, msg in o["violations"]:
            print(f"VIOLATION property={d['property']} replay={args[1]}\n   {key}: {msg}")
        if o["error"]:
            print(o["error"])
            return 2
        return 1 if o["violations"] else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    if args[0] == "--selftest":
        import gym_electric_motor  # noqa

        print("imports ok:", gym_electric_motor.__file__)
        return 0
    return common.run_check(args[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
