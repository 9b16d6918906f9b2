"""Reference second-quantisation used as oracle by several checks; independent of the code under test.

Works on lists of occupation bits (concrete or symbolic, spin-orbital 0 first)."""


def act(X, process, bits):
    """(bits, sign) of the rightmost-first action of process, or None"""
    b = list(bits)
    sign = 1
    for i, action in reversed(list(process)):
        occ = bool(b[i])
        if (action == "c") == occ:
            return None
        if bool(X.parity(b[:i])):
            sign = -sign
        b[i] = action == "c"
    return b, sign


def apply_op(X, op, psi, allowed=None):
    """psi: list of (bits, amp).  Returns {bytes: [bits, amplitude]}"""
    out = {}
    for bits, amp in psi:
        for process, h in op.items():
            r = act(X, process, bits)
            if r is None:
                continue
            b, sign = r
            if allowed is not None and not allowed(b):
                continue
            k = X.bytes(b)
            v = amp * h * sign
            if k in out:
                out[k][1] = out[k][1] + v
            else:
                out[k] = [b, v]
    return out


def allowed_fn(X, restrictions):
    """restrictions: list of (indices, lo, hi)"""
    def f(b):
        for idx, lo, hi in restrictions:
            n = X.count([b[i] for i in idx])
            if not bool(X.AND(lo <= n, n <= hi)):
                return False
        return True
    return f


def abs2(X, v):
    v = v + 0
    return v.real * v.real + v.imag * v.imag


def check_state(X, got, full, cut, label):
    """got == full with exactly the elements of squared modulus below cut removed"""
    for k, (b, v) in full.items():
        below = abs2(X, v) < cut if cut is not None else False
        inn = k in got
        X.claim(X.IFF(below, not inn), label + ": exactly the elements below the cutoff are removed", "value kept: %s" % inn)
        if inn:
            X.claim(X.eq(got[k], v), label + ": amplitude")
    for k in list(got):
        X.claim(k in full, label + ": nothing else appears")
