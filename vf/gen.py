"""Shared strategies."""
from hypothesis import strategies as st


def history(op, hi, lo=1):
    """Histories of operations: mostly short ones, a good share of long ones."""
    return st.one_of(
        st.lists(op, min_size=lo, max_size=max(lo, min(6, hi))),
        st.lists(op, min_size=min(hi, max(lo, 6)), max_size=hi),
        st.lists(op, min_size=min(hi, max(lo, hi // 2)), max_size=hi),
    )


def weighted(*pairs):
    """weighted((3, strategy), (1, strategy)): pick one with the given weights."""
    # .map makes each copy a different strategy: one_of drops duplicates
    return st.one_of([s if not i else s.map(lambda x: x) for w, s in pairs for i in range(w)])


# Delays as understood by vf.env.pause: -1 no yield, 0 one scheduling step, n = n/64 s.
delays = st.one_of(st.just(-1), st.just(0), st.integers(1, 8), st.sampled_from([16, 64, 200]))
