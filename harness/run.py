"""Run the check of one property: run.py <property> <quick|thorough>."""
import importlib
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kit  # noqa: E402


def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    mod = importlib.import_module('props')
    c = kit.Check(prop, tier)
    warnings.simplefilter('ignore')
    try:
        try:
            mod.PROPS[prop](c)
        except kit.Stuck as ex:
            c.judge('Trace_NoAnswer', [ex.args[0]])
        return c.finish()
    except kit.HarnessError as ex:
        print('HARNESS ERROR:', ex)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
