"""When the time loop does what."""


def model(times, g, mult):
    """output cycle -> step for everything with a multiplier"""
    out, c = {}, 0
    for k, t in enumerate(times):
        if t >= c * g:
            if c % mult == 0:
                out[c] = k
            c += 1
    return out
