"""Known findings the checks step around (see known_findings.txt); each helper describes one finding as precisely as
possible, so that anything else is still a violation."""
from symx.core import ite, sym_and, sym_or, sym_sum


def listed(chunks, n):
    """How often each chunk is listed in a plan."""
    m = [0] * n
    for cs in chunks:
        for c in cs:
            m[int(c)] += 1
    return m


def multiplicity(sh, env, nw, bs, epoch, n):
    """KF1 (_intra_node_chunk_shuffle): with several nodes and from the second epoch on, a chunk that the first plan split
    between k workers is listed, and delivered, k times.  Returns the multiplicity of each chunk, None where the finding
    does not apply (strict property)."""
    if env.num_nodes == 1 or epoch == 1 or type(sh).__name__ != "FullShuffle":
        return None
    m = listed(sh.get_chunks_and_intervals_per_workers(env, nw, bs, 1)[0], n)
    return m if max(m) > 1 else None
