"""ANSI single index to (n, m)."""
BOUNDS = ("every index 0 <= j <= 2^20 in exact arithmetic, as one symbolic integer, as a symbolic (row, place) pair, and as the index of a symbolic mode; the same in "
          "bit-precise double arithmetic for 0 <= j < 2^8 (quick) / 2^12 (thorough); every pair of distinct indices up to 2^20")
FUNCTIONS = ["analysis.ansi_j_to_n_m"]
OUTSIDE = "rounding of the square root for larger j: it is correctly rounded and exact on squares, and consecutive radicands differ by 8"
TOP = 2 ** 20
ROWS = 1447            # row 1447 starts at index 1047628 <= TOP


def call(A, j):
    from pySLM2.analysis import ansi_j_to_n_m
    n, m = ansi_j_to_n_m(j)
    return A.c(n), A.c(m)


def convert(lo, hi):
    def fn(A):
        j = A.int('j', lo, hi)
        n, m = call(A, j)
        A.eq('index', n * (n + 2) + m, A.c(j) * 2)
        A.true('n >= 0', n >= 0)
        A.true('m <= n', n >= m)
        A.true('-n <= m', m >= -n)
    return fn


def rows(A):
    """The k-th index of row N is mode (N, 2k - N)."""
    N, k = A.int('N', 0, ROWS - 1), A.int('k', 0, ROWS - 1)
    A.assume(A.c(k) <= A.c(N))
    j = N * (N + 1) // 2 + k
    n, m = call(A, j)
    A.eq('n', n, A.c(N))
    A.eq('index', n * (n + 2) + m, A.c(j) * 2)


def modes(A):
    """Every mode (n, m) with n - m even is reached, by the index (n(n+2)+m)/2 (2i = n - m)."""
    n, i = A.int('n', 0, ROWS - 1), A.int('i', 0, ROWS - 1)
    A.assume(A.c(i) <= A.c(n))
    m = n - 2 * i
    a, b = call(A, (n * (n + 2) + m) // 2)
    A.eq('n', a, A.c(n))
    A.eq('index', a * (a + 2) + b, A.c(n) * (A.c(n) + 2) + A.c(m))


def distinct(A):
    j, k = A.int('j', 0, TOP), A.int('k', 0, TOP)
    A.assume(A.c(k) >= A.c(j) + 1)
    n, m = call(A, j)
    p, q = call(A, k)
    A.true('different', A.not_(A.and_(A.eqc(n, p), A.eqc(m, q))))


def cases(tier):
    b = (64,)
    bound = 8 if tier == 'quick' else 12
    return [dict(name='all', fn=convert(0, TOP), bits=b), dict(name='small', fn=convert(0, 20), bits=b, max_paths=60), dict(name='rows', fn=rows, bits=b),
            dict(name='modes', fn=modes, bits=b), dict(name='distinct', fn=distinct, bits=b),
            dict(name='double', fn=convert(0, 2 ** bound - 1), bits=b, mode='fp', timeout=120000 if tier == 'quick' else 600000, each=600)]
