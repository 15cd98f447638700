"""Sparse solvers give the exact solution, variances and determinant."""

import contextlib
import io

import numpy
import scipy.linalg
import scipy.sparse

from eustace.analysis.advanced_standard.linalg import qinv, sparse
from eustace.analysis.advanced_standard.linalg.extendedcholmodwrapper import ExtendedCholmodWrapper
from eustace.analysis.advanced_standard.linalg.linearsystem import LinearSystem, LinearSystemSolution_CG, LinearSystemSolution_Cholesky, MeasurementUpdate
from eustace.analysis.advanced_standard.linalg.pardisowrapper import PardisoWrapper

NEEDS = {'extension': True}
RULE = """Random sparse positive definite matrices of many patterns (banded, arrow, lattice, blocks, permuted, with factors in which elements
cancel) are factorised by both libraries; several factorisations stay alive and are used in random interleavings with vectors, matrices and
sparse right-hand sides, refactorised and freed. The monitor compares each answer with dense algebra on the matrix. Singular and indefinite
matrices have to be refused. Non-trivial: sparse patterns with fill-in."""
REQUIRED = {'matrices': 300, 'solves': 1500, 'refactorised': 80, 'inverse elements': 30000, 'refusals': 100, 'samples': 40, 'freed': 40, 'systems': 100, 'cancelling': 60, 'large systems': 4}
ASSUMPTIONS = ['Condition numbers up to 1e5, answers may be off by 1e-7 relative to the largest element', 'Statistics of samples may be off by 8 standard deviations']


def a_pattern(rng, n):
    """Symmetric matrix with zero diagonal."""
    kind = str(rng.choice(['sparse', 'band', 'arrow', 'lattice', 'blocks', 'dense', 'diagonal', 'tree']))
    m = numpy.zeros((n, n))
    if kind == 'sparse':
        m = rng.normal(size=(n, n)) * (rng.uniform(size=(n, n)) < rng.choice([0.02, 0.1, 0.3]))
    elif kind == 'band':
        for k in range(1, rng.randint(1, 4) + 1):
            if k < n:
                m += numpy.diag(rng.normal(size=n - k), -k)
    elif kind == 'arrow':
        if rng.randint(2):
            m[:, 0] = rng.normal(size=n)
        else:
            m[-1, :] = rng.normal(size=n)
    elif kind == 'lattice':
        w = max(1, int(numpy.sqrt(n)))
        for i in range(n):
            for j in (i - 1, i - w):
                if j >= 0:
                    m[i, j] = -1.0
    elif kind == 'blocks':
        size = rng.randint(1, 5)
        for i in range(0, n, size):
            m[i:i + size, i:i + size] = rng.normal(size=m[i:i + size, i:i + size].shape)
    elif kind == 'dense':
        m = rng.normal(size=(n, n))
    elif kind == 'tree':
        for i in range(1, n):
            m[i, rng.randint(0, i)] = rng.normal()
    m = numpy.tril(m, -1)
    return kind, m + m.T


def a_matrix(rng, mon, n=None):
    """Positive definite matrix with condition below 1e5, dense."""
    n = n or int(rng.choice([1, 2, 3, 5, 8, 13, 20, 40, 70]))
    if rng.randint(4) == 0:
        # elements of the factor cancel
        n = min(n, 12)
        factor = numpy.tril(rng.randint(0, 2, (n, n)), -1) * rng.choice([-1.0, 1.0, 1.0], (n, n)) + numpy.eye(n)
        a = factor.dot(factor.T)
        if numpy.linalg.cond(a) < 1e5:
            mon.count('cancelling')
            return 'cancelling', a
    kind, a = a_pattern(rng, n)
    a = a + numpy.diag(numpy.abs(a).sum(axis=0) * rng.choice([1.0, 1.5]) + rng.choice([0.01, 1.0]))
    lowest = numpy.linalg.eigvalsh(a)[0]
    if lowest < numpy.abs(a).max() * 1e-4:
        a = a + numpy.eye(n) * numpy.abs(a).max() * 1e-3
    if rng.randint(2):
        scale = 10.0 ** rng.uniform(-1, 1, n)
        scaled = a * numpy.outer(scale, scale)
        if numpy.linalg.cond(scaled) < 1e5:
            a = scaled
    order = rng.permutation(n)
    a = a[order][:, order] * 10.0 ** rng.randint(-3, 4)
    return kind, 0.5 * (a + a.T)


def a_side(rng, n):
    """Right-hand side: what is passed, and the same as dense matrix."""
    kind = rng.randint(5)
    columns = int(rng.choice([1, 1, 2, 7]))
    dense = rng.normal(size=(n, columns)) * 10.0 ** rng.randint(-3, 4)
    if kind == 0:
        dense = dense[:, :1]
        return dense[:, 0].copy(), dense
    if kind == 1:
        return numpy.asfortranarray(dense), dense
    if kind == 2:
        dense = numpy.where(rng.uniform(size=dense.shape) < 0.5, dense, 0.0)
        return scipy.sparse.csc_matrix(dense), dense
    if kind == 3:
        return numpy.repeat(dense, 2, axis=1)[:, ::2], dense
    return dense.copy(), dense


def dense_of(x, like):
    x = x.toarray() if scipy.sparse.issparse(x) else numpy.asarray(x)
    return x.reshape(like.shape)


def near(mon, got, expected, what):
    scale = max(numpy.abs(expected).max(), 1e-300) if expected.size else 1.0
    mon.close(numpy.asarray(got), expected, what, rtol=1e-7, atol=1e-7 * scale)


def judge_solver(rng, mon, solver, a, what):
    """One call, chosen at random."""
    n = len(a)
    inverse = numpy.linalg.inv(a)
    b, dense = a_side(rng, n)
    before = b.copy()
    call = rng.randint(5)
    pardiso = isinstance(solver, PardisoWrapper)
    if call == 0:
        x = solver.solve_A(b)
        near(mon, dense_of(x, dense), inverse.dot(dense), '%s: solution' % what)
        if isinstance(b, numpy.ndarray):
            mon.equal(numpy.asarray(x).shape, b.shape, '%s: shape of solution' % what)
    elif call == 1:
        x = dense_of(solver.solve_backward_substitution(b), dense)
        # x' A x = b' b
        near(mon, x.T.dot(a).dot(x), dense.T.dot(dense), '%s: backward substitution' % what)
    elif call == 2 and pardiso:
        x = dense_of(solver.solve_forward_substitution(b), dense)
        near(mon, x.T.dot(x), dense.T.dot(inverse).dot(dense), '%s: forward substitution' % what)
    elif call == 2:
        order = solver.P()
        mon.same(numpy.sort(order), numpy.arange(n), '%s: permutation' % what)
        near(mon, dense_of(solver.apply_P(b), dense), dense[order], '%s: permuting' % what)
        near(mon, dense_of(solver.apply_Pt(solver.apply_P(b)), dense), dense, '%s: permuting back' % what)
        permuted = inverse[order][:, order]
        eye = numpy.eye(n)
        low, up = numpy.asarray(solver.LLt_solve_L(eye)), numpy.asarray(solver.LLt_solve_Lt(eye))
        near(mon, low.T.dot(low), permuted, '%s: solving with L' % what)
        near(mon, up.dot(up.T), permuted, '%s: solving with its transpose' % what)
    elif call == 3 and pardiso:
        block = [None, 1, 3, n, n + 1, 1000][rng.randint(6)]
        with contextlib.redirect_stdout(io.StringIO()):
            x = solver.diag_inv_A(max_blocksize=block) if rng.randint(3) else solver.diag_inv_A()
        near(mon, numpy.asarray(x).ravel(), inverse.diagonal(), '%s: diagonal of the inverse' % what)
    elif call == 3:
        mon.close(solver.logdet(), numpy.linalg.slogdet(a)[1], '%s: log determinant' % what, rtol=1e-9, atol=1e-7)
    else:
        other = numpy.ones(n + 1 if rng.randint(2) or n == 1 else n - 1)
        other = other if rng.randint(2) else numpy.vstack([other, other]).T
        calls = [solver.solve_A, solver.solve_backward_substitution] + ([solver.solve_forward_substitution] if pardiso else [])
        mon.raises(lambda: calls[rng.randint(len(calls))](other), '%s: right-hand side of another size' % what)
        return
    same = (b != before).nnz == 0 if scipy.sparse.issparse(b) else (b == before).all()
    mon.check(same, '%s: right-hand side unchanged' % what)
    mon.count('solves')


def stored(rng, a, fmt):
    """Sparse matrix, sometimes with stored zeros or indices out of order."""
    m = scipy.sparse.csr_matrix(a)
    if rng.randint(4) == 0:
        c = m.tocoo()
        order = rng.permutation(c.nnz)
        m = scipy.sparse.coo_matrix((c.data[order], (c.row[order], c.col[order])), shape=c.shape).tocsr()
    m = m.asformat(fmt)
    if rng.randint(3) == 0:
        for i in range(m.indptr.shape[0] - 1):
            at = slice(m.indptr[i], m.indptr[i + 1])
            order = rng.permutation(m.indptr[i + 1] - m.indptr[i])
            m.indices[at], m.data[at] = m.indices[at][order], m.data[at][order]
        m.has_sorted_indices = False
    return m


def interleaving(rng, mon):
    """Several factorisations in use at a time."""
    live = []
    for _ in range(rng.randint(1, 4)):
        kind, a = a_matrix(rng, mon)
        if rng.randint(2):
            live.append(['pardiso %s' % kind, PardisoWrapper.cholesky(stored(rng, a, 'csr')), a])
        else:
            live.append(['cholmod %s' % kind, ExtendedCholmodWrapper.cholesky(stored(rng, a, 'csc')), a])
        mon.count('matrices')
    for _ in range(12):
        which = rng.randint(len(live))
        what, solver, a = live[which]
        judge_solver(rng, mon, solver, a, what)
        step = rng.randint(8)
        if step == 0 and isinstance(solver, ExtendedCholmodWrapper):
            # new values, same pattern
            new = a * rng.choice([0.5, 3.0]) + numpy.diag(rng.uniform(0, 1, len(a)) * a.diagonal())
            solver.cholesky_inplace(scipy.sparse.csc_matrix(new))
            live[which][2] = new
            mon.count('refactorised')
        elif step == 1 and isinstance(solver, PardisoWrapper) and len(live) > 1:
            solver.free_memory()
            del live[which]
            mon.count('freed')
        elif step == 2 and isinstance(solver, PardisoWrapper):
            new = a * rng.choice([0.5, 3.0]) + numpy.diag(rng.uniform(0, 1, len(a)) * a.diagonal())
            live[which][1:] = [PardisoWrapper.cholesky(scipy.sparse.csr_matrix(new)), new]
            mon.count('refactorised')
    mon.case(('interleaving', [(l[0], len(l[2])) for l in live]), nontrivial=len(live) > 1 and max(len(l[2]) for l in live) > 4)


def inverting(rng, mon):
    """Partial inverse, traces and marginal variances."""
    for _ in range(4):
        kind, a = a_matrix(rng, mon)
        n = len(a)
        q = stored(rng, a, 'csc')
        factor = ExtendedCholmodWrapper.cholesky(q).factor if rng.randint(2) else None
        part = qinv.Q_inv(q, factor) if factor is not None else qinv.Q_inv(q)
        mon.equal(part.shape, a.shape, 'shape of the partial inverse')
        inverse = numpy.linalg.inv(a)
        at = a != 0
        got = part.toarray()
        near(mon, got[at], inverse[at], 'partial inverse of %s matrix' % kind)
        # what is outside the pattern is either the inverse or not given
        given = got != 0
        near(mon, got[given], inverse[given], 'elements given beyond the pattern of %s matrix' % kind)
        mon.count('inverse elements', int(at.sum()))
        change = numpy.where(at, rng.normal(size=a.shape), 0.0)
        change = change + change.T
        expected = numpy.trace(inverse.dot(change))
        size = max(1e-300, numpy.abs(inverse).dot(numpy.abs(change)).max() * n)
        d = scipy.sparse.csc_matrix(change)
        for value in (sparse.trace_iQ_dQdp(q, d), sparse.trace_iQ_dQdp(q, d, iQp=part), sparse.trace_iQ_dQdp(q, d, fQ=ExtendedCholmodWrapper.cholesky(q).factor)):
            mon.close(float(value), expected, 'trace', rtol=1e-7, atol=1e-7 * size)
        near(mon, numpy.asarray(sparse.marginal_variance_Q_inv(q)).ravel(), inverse.diagonal(), 'marginal variances')
        mon.count('matrices')
        # interpolation between coupled variables: of any three variables coupled to each other
        rows = []
        for _ in range(5):
            i = rng.randint(n)
            mine = numpy.nonzero(at[i] & (inverse[i] != 0))[0]
            j = mine[rng.randint(len(mine))]
            row = numpy.zeros(n)
            row[i], row[j] = row[i] + 0.3, row[j] + 0.7
            rows.append(row)
        rows = numpy.array(rows)
        pattern = rows.T.dot(rows) != 0
        if (got[pattern] != 0).all():
            value = numpy.asarray(sparse.marginal_variance_Q_inv(q, scipy.sparse.csr_matrix(rows))).ravel()
            near(mon, value, rows.dot(inverse).dot(rows.T).diagonal(), 'marginal variances of interpolated values')
        if (~given).any():
            i, j = [k[0] for k in numpy.nonzero(~given)]
            row = numpy.zeros((1, n))
            row[0, [i, j]] = 1.0
            mon.raises(lambda: sparse.marginal_variance_Q_inv(q, scipy.sparse.csr_matrix(row)), 'marginal variance beyond the pattern')
        mon.case(('inverse', kind, n, int(at.sum())), nontrivial=n > 4 and at.sum() < n * n)


def refusing(rng, mon):
    kind, a = a_matrix(rng, mon, int(rng.choice([2, 3, 6, 20])))
    n = len(a)
    case = rng.randint(5)
    if case == 0:
        # indefinite: one eigenvalue well below zero
        w, v = numpy.linalg.eigh(a)
        w[rng.randint(n)] = -w.max() * rng.uniform(0.1, 1.0)
        bad = (v * w).dot(v.T)
        bad = 0.5 * (bad + bad.T)
    elif case == 1:
        bad = -a
    elif case == 2:
        bad = a.copy()
        k = rng.randint(n)
        bad[k, :] = bad[:, k] = 0.0
    elif case == 3:
        # exactly singular, without rounding: two variables tied to each other and not to others
        bad = a.copy()
        pair = rng.permutation(n)[:2]
        bad[pair, :] = 0.0
        bad[:, pair] = 0.0
        bad[numpy.ix_(pair, pair)] = 4.0 ** rng.randint(-3, 4) * numpy.array([[1.0, -1.0], [-1.0, 1.0]])
    else:
        bad = a.copy()
        k = rng.randint(n)
        bad[k, k] = -bad[k, k]
    mon.raises(lambda: PardisoWrapper.cholesky(scipy.sparse.csr_matrix(bad)), 'pardiso: matrix that is not positive definite (%d)' % case)
    if case in (2, 3):
        mon.raises(lambda: ExtendedCholmodWrapper.cholesky(scipy.sparse.csc_matrix(bad)).solve_A(numpy.ones(n)), 'cholmod: singular matrix (%d)' % case)
    else:
        mon.raises(lambda: ExtendedCholmodWrapper.cholesky(scipy.sparse.csc_matrix(bad)).solve_backward_substitution(numpy.ones(n)), 'cholmod: sampling from an indefinite matrix (%d)' % case)
    mon.raises(lambda: PardisoWrapper.cholesky(scipy.sparse.csr_matrix(a[1:])), 'pardiso: matrix that is not square')
    mon.raises(lambda: PardisoWrapper.cholesky(scipy.sparse.csc_matrix(a)), 'pardiso: matrix by columns')
    mon.raises(lambda: PardisoWrapper.cholesky(scipy.sparse.csr_matrix(a).astype(numpy.float32)), 'pardiso: single precision')
    # the process is still usable
    solver = PardisoWrapper.cholesky(scipy.sparse.csr_matrix(a))
    near(mon, solver.solve_A(numpy.ones(n)), numpy.linalg.solve(a, numpy.ones(n)), 'solution after refusals')
    for call in (solver.solve_A, solver.solve_backward_substitution, solver.solve_forward_substitution):
        mon.raises(lambda: call(numpy.ones(n, numpy.float32)), 'pardiso: right-hand side in single precision')
    mon.case(('refuse', case, n), nontrivial=n > 2)


def large(rng, mon):
    """More variables than the blocks in which variances are computed."""
    n = int(rng.choice([999, 1000, 1001, 1700, 2000, 2300]))
    i = numpy.arange(n)
    step = rng.randint(2, 60)
    off = [scipy.sparse.diags(rng.uniform(-1, 1, n - k), -k) for k in (1, step)]
    m = off[0] + off[1]
    m = (m + m.T).tocsr()
    a = (m + scipy.sparse.diags(numpy.asarray(abs(m).sum(axis=1)).ravel() + rng.uniform(0.5, 1.5, n))).tocsr()
    inverse = numpy.linalg.inv(a.toarray())
    solver = PardisoWrapper.cholesky(a)
    with contextlib.redirect_stdout(io.StringIO()):
        near(mon, numpy.asarray(solver.diag_inv_A()).ravel(), inverse.diagonal(), 'diagonal of the inverse of %d variables' % n)
        near(mon, numpy.asarray(solver.diag_inv_A(max_blocksize=int(rng.choice([7, 500, 999])))).ravel(), inverse.diagonal(), 'diagonal of the inverse in blocks')
        system = LinearSystem(Prior(a))
        near(mon, numpy.asarray(LinearSystemSolution_Cholesky(system).marginal_std()).ravel(), numpy.sqrt(inverse.diagonal()), 'standard deviations of %d variables' % n)
    b = rng.normal(size=(n, 2))
    near(mon, solver.solve_A(b), inverse.dot(b), 'solution with %d variables' % n)
    part = qinv.Q_inv(a.tocsc())
    at = a.tocoo()
    near(mon, numpy.asarray(part.tocsr()[at.row, at.col]).ravel(), inverse[at.row, at.col], 'partial inverse with %d variables' % n)
    mon.count('large systems')
    mon.case(('large', n, step), nontrivial=n > 1000)


class Prior(object):
    def __init__(self, matrix):
        self.matrix = matrix

    def prior_number_of_state_parameters(self):
        return self.matrix.shape[0]

    def prior_precision(self):
        return self.matrix


def systems(rng, mon):
    """Linear systems of prior and measurements."""
    kind, a = a_matrix(rng, mon, int(rng.choice([2, 3, 6, 20, 40])))
    n = len(a)
    scale = numpy.abs(a).max()
    system = LinearSystem(Prior(scipy.sparse.csr_matrix(a)))
    precision, information = a.copy(), numpy.zeros((n, 1))
    parts = rng.randint(0, 4)
    updates = []
    for _ in range(parts):
        m = int(rng.choice([1, 3, 30]))
        j = rng.normal(size=(m, n)) * (rng.uniform(size=(m, n)) < 0.2)
        r = rng.uniform(0.1, 1.0, m) * scale * 0.1
        y = rng.normal(size=m)
        update = MeasurementUpdate.create_from_system_observations(scipy.sparse.csr_matrix(j), scipy.sparse.diags(r, format='csc'), y)
        near(mon, update.information_precision.toarray(), (j.T * r).dot(j), 'information of a measurement')
        near(mon, dense_of(update.information_vector, information), (j.T * r).dot(y)[:, numpy.newaxis], 'information vector of a measurement')
        updates.append((update, update.information_precision.toarray(), dense_of(update.information_vector, information).copy()))
        system.append_measurement_update(update)
        precision += (j.T * r).dot(j)
        information += (j.T * r).dot(y)[:, numpy.newaxis]
    for update, matrix, vector in updates:
        mon.same(update.information_precision.toarray(), matrix, 'information of a measurement after use')
        mon.same(dense_of(update.information_vector, information), vector, 'information vector of a measurement after use')
    near(mon, system.measurement.information_precision.toarray(), precision - a, 'information of all measurements')
    mon.same(system.prior.prior_precision().toarray(), a, 'prior precision after use')
    inverse = numpy.linalg.inv(precision)
    solution = LinearSystemSolution_Cholesky(system)
    near(mon, dense_of(solution.maximum_a_posteriori(), information), inverse.dot(information), 'mean')
    mon.equal(solution.number_of_state_parameters, n, 'number of state parameters')
    with contextlib.redirect_stdout(io.StringIO()):
        near(mon, numpy.asarray(solution.marginal_std()).ravel(), numpy.sqrt(inverse.diagonal()), 'marginal standard deviation')
    eye = numpy.eye(n)
    transform = numpy.asarray(solution.white_noise_to_posterior_distribution(eye))
    near(mon, transform.dot(transform.T), inverse, 'covariance of the transform')
    if rng.randint(3) == 0:
        count = 3000
        sample = numpy.asarray(solution.random_sample(count))
        mon.equal(sample.shape, (n, count), 'samples')
        white = numpy.linalg.solve(numpy.linalg.cholesky(inverse), sample)
        mon.check((numpy.abs(white.mean(axis=1)) < 8 / numpy.sqrt(count)).all(), 'mean of samples')
        covariance = white.dot(white.T) / count
        mon.check((numpy.abs(covariance - eye) < 8 * numpy.sqrt(2.0 / count)).all(), 'covariance of samples')
        deviation = numpy.asarray(solution.approximated_marginal_std(count)).ravel()
        mon.check((numpy.abs(deviation / numpy.sqrt(inverse.diagonal()) - 1) < 8 / numpy.sqrt(2.0 * count)).all(), 'approximate marginal standard deviation')
        mon.count('samples')
    if numpy.linalg.cond(precision) < 100 and parts:
        iterative = LinearSystemSolution_CG(system)
        expected = inverse.dot(information)
        mon.close(dense_of(iterative.maximum_a_posteriori(), information), expected, 'mean by conjugate gradients', rtol=0, atol=1e-3 * numpy.abs(expected).max() + 1e-300)
    mon.count('systems')
    mon.case(('system', kind, n, parts), nontrivial=parts > 1 and n > 3)


SCENARIOS = [(interleaving, 250, 6000), (inverting, 120, 4000), (refusing, 60, 1500), (systems, 220, 4000), (large, 8, 60)]
