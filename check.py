"""check.py --property P01 [--tier quick|thorough] [--replay FILE]: see DESIGN.md."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    argv = sys.argv[1:]
    pid = argv[argv.index("--property") + 1]
    from sim import engine, props
    try:
        prop = props.get(pid)
    except KeyError:
        print("no such property: " + pid, file=sys.stderr)
        return 2
    return engine.main(prop, argv)


if __name__ == "__main__":
    sys.exit(main())
