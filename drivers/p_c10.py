"""C10: streams and junctions."""
import p_c09


def cases(ctx):
    return p_c09.cases(ctx, geometry=True)
