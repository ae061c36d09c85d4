"""All requirements judged on whole calculations (development aid: bin/check ALL)."""
from common import *
import cli


def cases(ctx):
    return [cli.complete_case(ctx, "complete:%d" % i) for i in range(ctx.n(200, 3000))]
