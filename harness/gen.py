"""Strategies shared by the checks.  All of them produce JSON data."""

from hypothesis import strategies as st


def integers(a, b):
    return st.integers(a, b)


def grid(a, b, step):
    """Floats a, a+step, ..., b (exactly representable when step is a power of two)."""
    n = int(round((b - a) / step))
    return st.integers(0, n).map(lambda i: a + i * step)


def floats(a, b):
    """Floats of [a, b]: mostly 'round' values (which shrink well), some arbitrary ones."""
    return st.one_of(
        st.integers(0, 64).map(lambda i: a + (b - a) * i / 64.0),
        st.floats(a, b, allow_nan=False, allow_infinity=False, allow_subnormal=False),
    )


@st.composite
def rising(draw, minlen, maxlen, start=(-10.0, 10.0)):
    """Strictly increasing floats."""
    n = draw(st.integers(minlen, maxlen))
    kind = draw(st.sampled_from(["unit", "regular", "eighths", "floats"]))
    x0 = draw(grid(start[0], start[1], 0.25))
    if kind == "unit":
        gaps = [1.0] * n
    elif kind == "regular":
        gaps = [draw(st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.3]))] * n
    elif kind == "eighths":
        gaps = [g / 8.0 for g in draw(st.lists(st.integers(1, 24), min_size=n, max_size=n))]
    else:
        gaps = draw(st.lists(st.floats(0.001, 5.0), min_size=n, max_size=n))
    x = [x0]
    for g in gaps[1:]:
        x.append(x[-1] + g)
    return x[:n]
