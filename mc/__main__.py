import sys
from mc import core
if sys.argv[1:2] == ["replay"]:
    from mc import replay
    sys.exit(replay.main(sys.argv[2]))
sys.exit(core.main("mc.checks." + sys.argv[1].lower()))
