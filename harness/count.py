"""Count the applications of an operator at run time, also inside compiled loops."""
import jax

from harness.core import require


def counted(A, calls):
    """The operator A; calls[0] and calls[1] count the applications of A and of its adjoint."""
    def add(i):
        calls[i] += 1

    def times(x):
        jax.debug.callback(lambda: add(0))
        return A.times(x)

    def trans(x):
        jax.debug.callback(lambda: add(1))
        return A.trans(x)
    return A._replace(times=times, trans=trans)


def check(calls, s):
    """The counts reported by the solution s are those made."""
    jax.effects_barrier()
    require(int(s.n_times) == calls[0] and int(s.n_trans) == calls[1], "reported numbers of operator applications", made=list(calls),
            times=int(s.n_times), trans=int(s.n_trans))
