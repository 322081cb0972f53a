"""check <ID> [quick|thorough]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)

from qsa.frontend import Project, AnchorMissing, FrontendError   # noqa: E402
from qsa.report import Report                                      # noqa: E402
from qsa.registry import CHECKS                                    # noqa: E402


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = os.environ.get('QSA_REPO', '/repo')
    fn, level, technique = CHECKS[prop]
    rep = Report(prop, tier, level, technique, repo)
    try:
        project = Project(repo)
        rep.count('source files parsed', len(project.modules))
        fn(rep, project, tier)
    except (AnchorMissing, FrontendError) as ex:
        rep.fatal = '%s: %s' % (type(ex).__name__, ex)
    return rep.finish(seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv))
