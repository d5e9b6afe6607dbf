"""Helpers shared by the generators"""
from hypothesis import strategies as st


def long_lists(elem, lo, hi, **kw):
    """Lists whose length is spread evenly over lo..hi (st.lists favours
    short ones); shrinks towards lo"""
    return st.integers(lo, hi).flatmap(
        lambda n: st.lists(elem, min_size=min(n, lo) if n < lo + 2
                           else lo + (n - lo) * 2 // 3, max_size=max(n, lo),
                           **kw))
