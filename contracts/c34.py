from lib import *
G = 'flowtracks.graphics'
ASSUMPTIONS = ['numpy.histogram: its documented contract (samples counted in half-open bins, the last one closed; all samples within the edges are in one bin)', 'numpy.linspace, logspace: equally spaced (exponents); laws of powers and logarithms of 10']
def case(log):
    def f(h):
        n, nb = h.dim('nsamples', 1), h.dim('nbins', 1)
        data = h.array('data', (n,))
        d0 = data.copy()
        use = (lambda i: d0.at(i) > 0) if log else (lambda i: mkbool(True))
        # two different samples which are used
        i1, i2 = h.int('i1', 0), h.int('i2', 0)
        h.assume((i1 < n) & (i2 < n) & (d0.at(i1) < d0.at(i2))); h.assume(use(i1))
        hist, e = h.mod(G).pdf_bins(data, nb, log)
        with h.forall(n, 'i') as i: h.prove(data.at(i) == d0.at(i), 'the samples are not changed')
        h.prove(len(hist.dims) == 1 and hist.shape[0] == nb, 'a density for each bin')
        h.prove(len(e.dims) == 1 and e.shape[0] == nb + 1, 'one more edge')
        for at, cmp, w in ((0, lambda x, y: x <= y, 'smallest'), (nb, lambda x, y: x >= y, 'largest')):
            h.prove(h.ex(n, lambda i: use(i) & (d0.at(i) == e.at(at))), 'an end edge is a sample: the ' + w)
            with h.forall(n, 'i') as i:
                with h.given(use(i)): h.prove(cmp(e.at(at), d0.at(i)), 'an end edge is the %s sample' % w)
        sp = (lambda k: npm.log10(e.at(k + 1)) - npm.log10(e.at(k))) if log else (lambda k: e.at(k + 1) - e.at(k))
        with h.forall(nb, 'k') as k:
            h.prove(e.at(k) < e.at(k + 1), 'edges increase')
            h.prove(sp(k) == sp(0), 'edges with a constant ratio' if log else 'edges equally spaced')
        last = nb - 1
        N = SArr((ie(n),), lambda i: select(use(i), 1., 0.), 'float64').sum()
        inbin = lambda i, k: use(i) & (e.at(k) <= d0.at(i)) & ((d0.at(i) < e.at(k + 1)) | ((k == last) & (d0.at(i) == e.at(k + 1))))
        cnt = SArr((ie(n), ie(nb)), lambda i, k: select(inbin(mkint(lift(i)), mkint(lift(k))), 1., 0.), 'float64').sum(axis=0)
        h.prove(N > 0, 'there are samples')
        with h.forall(nb, 'k') as k:
            h.prove(hist.at(k)*(e.at(k + 1) - e.at(k)) == cnt.at(k)/N, 'the fraction of the samples in a bin')
        tot = SArr((ie(nb),), lambda k: cnt.at(k), 'float64').sum()
        h.prove(tot == N, 'all samples are in a bin')
        s = SArr((ie(nb),), lambda k: cnt.at(k)/N, 'float64').sum()     # the same, by what is above
        h.prove(s == 1, 'the sum over the bins')
    f.__doc__ = 'any samples, at least two of them different, any number of bins; ' + ('logarithmic' if log else 'linear')
    return f
harness('C34', G + '.pdf_bins', 'linear')(case(False))
harness('C34', G + '.pdf_bins', 'logarithmic')(case(True))
