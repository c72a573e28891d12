"""python run.py PID quick|thorough      run one property's check
   python run.py --replay FILE           re-run one recorded failing case"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, 'vendor')]

from vlib import core  # noqa: E402

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(core.replay(sys.argv[2]))
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        code = core.main(pid, tier, os.environ.get('VERIF_SEED', '1'), set(sys.argv[3:]) or None)
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
