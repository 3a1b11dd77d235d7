// Statistics, random numbers, complex numbers and the Fourier transform.
#import fft
#import leak.c
#import math/complex
#import proto.c
#import rnd
#import stats

void do_stats() {
	size_t before = leak.now();
	stats.series_t *s = stats.newseries();
	for (size_t i = 0; i < proto.count(); i++) {
		char *w = proto.arg(i);
		switch (w[0]) {
			case 'a': { stats.add(s, proto.fielddbl(w, 1)); }
			case 'p': { proto.outd(stats.percentile(s, proto.fieldint(w, 1))); }
			case 'm': { proto.outd(stats.median(s)); }
			case 'l': { proto.outd(stats.min(s)); }
			case 'h': { proto.outd(stats.max(s)); }
			case 's': { proto.outd(stats.sum(s)); }
			case 'v': { proto.outd(stats.avg(s)); }
			case 'd': { proto.outd(stats.sd(s)); }
			default: { proto.outu(stats.count(s)); }
		}
	}
	stats.freeseries(s);
	proto.outb(leak.now() == before);
}

void do_norm() {
	size_t n = proto.count();
	double *xs = proto.alloc(n * sizeof(double));
	for (size_t i = 0; i < n; i++) {
		xs[i] = proto.dbl(i);
	}
	stats.normalize(xs, n);
	for (size_t i = 0; i < n; i++) {
		proto.outd(xs[i]);
	}
}

// seed, draws, frequencies
void do_sample() {
	rnd.seed((uint64_t) proto.size(0));
	size_t draws = proto.size(1);
	size_t n = proto.count() - 2;
	size_t *freqs = proto.alloc(n * sizeof(size_t));
	size_t *got = proto.alloc((n + 1) * sizeof(size_t));
	for (size_t i = 0; i < n; i++) {
		freqs[i] = proto.size(i + 2);
	}
	for (size_t i = 0; i < draws; i++) {
		int k = stats.sample_from_distribution(freqs, n);
		if (k < 0 || (size_t) k >= n) {
			proto.outs("OUT");
			return;
		}
		got[k]++;
	}
	for (size_t i = 0; i < n; i++) {
		proto.outu(got[i]);
	}
}

// seed, n, draws: the counts of every value and of every pair of neighbours
void do_intn() {
	rnd.seed((uint64_t) proto.size(0));
	size_t n = proto.size(1);
	size_t draws = proto.size(2);
	size_t *got = proto.alloc(n * sizeof(size_t));
	size_t *pairs = proto.alloc(n * n * sizeof(size_t));
	size_t prev = 0;
	for (size_t i = 0; i < draws; i++) {
		size_t k = rnd.intn((uint32_t) n);
		if (k >= n) {
			proto.outs("OUT");
			return;
		}
		got[k]++;
		if (i > 0) pairs[prev * n + k]++;
		prev = k;
	}
	for (size_t i = 0; i < n; i++) {
		proto.outu(got[i]);
	}
	for (size_t i = 0; i < n * n; i++) {
		proto.outu(pairs[i]);
	}
}

// seed, n, draws: the values
void do_seq() {
	if (!proto.fieldis(proto.arg(0), 0, "none")) {
		rnd.seed((uint64_t) proto.size(0));
	}
	size_t n = proto.size(1);
	for (size_t i = 0; i < proto.size(2); i++) {
		proto.outu((size_t) rnd.intn((uint32_t) n));
	}
	proto.outd(rnd.u());
}

// seed, draws: how many fell into every 16th, and whether all are in [0, 1)
void do_u() {
	rnd.seed((uint64_t) proto.size(0));
	size_t got[16] = {};
	bool ok = true;
	for (size_t i = 0; i < proto.size(1); i++) {
		double x = rnd.u();
		if (!(x >= 0 && x < 1)) {
			ok = false;
			break;
		}
		got[(int) (x * 16)]++;
	}
	proto.outb(ok);
	for (size_t i = 0; i < 16; i++) {
		proto.outu(got[i]);
	}
}

// The greatest values of u(): many seeds, and the state after which the
// generator yields only ones if it is the linear one it is now.
void do_top() {
	bool ok = true;
	for (uint64_t i = 0; i < 2000000; i++) {
		rnd.seed(i * 0x9e3779b97f4a7c15);
		if (!(rnd.u() < 1)) ok = false;
	}
	uint64_t ones = 0xffffffffffffffff;
	rnd.seed((ones - 0xd737232eeccdf7ed) * inverse(0x9b60933458e17d7d));
	if (!(rnd.u() < 1)) ok = false;
	proto.outb(ok);
}

uint64_t inverse(uint64_t a) {
	uint64_t x = a;
	for (int i = 0; i < 6; i++) {
		x *= 2 - a * x;
	}
	return x;
}

void outc(complex.t z) {
	proto.outd(z.re);
	proto.outd(z.im);
}

void do_complex() {
	complex.t a = complex.make(proto.dbl(0), proto.dbl(1));
	complex.t b = complex.make(proto.dbl(2), proto.dbl(3));
	outc(complex.sum(a, b));
	outc(complex.diff(a, b));
	outc(complex.mul(a, b));
	outc(complex.scale(a, proto.dbl(2)));
	proto.outd(complex.abs(a));
	proto.outd(complex.abs2(a));
}

// inverse, in place, values
void do_fft() {
	int inv = proto.num(0);
	bool inplace = proto.num(1) % 2 != 0;
	bool own = proto.num(1) >= 2;
	size_t n = (proto.count() - 2) / 2;
	complex.t *in = proto.alloc(n * sizeof(complex.t));
	complex.t *out = proto.alloc(n * sizeof(complex.t));
	for (size_t i = 0; i < n; i++) {
		in[i] = complex.make(proto.dbl(2 + 2*i), proto.dbl(3 + 2*i));
	}
	size_t before = leak.now();
	fft.kiss_fft_state_t *st = NULL;
	bool good = true;
	if (own) {
		// the caller's memory: ask for the size, offer too little, offer enough
		size_t len = 0;
		good = fft.kiss_fft_alloc((int) n, inv, NULL, &len) == NULL && len > 0;
		uint8_t *mem = OS.calloc(len, 1);
		size_t small = len - 1;
		if (fft.kiss_fft_alloc((int) n, inv, mem, &small) != NULL || small != len) {
			good = false;
		}
		st = fft.kiss_fft_alloc((int) n, inv, mem, &len);
		if ((uint8_t *) st != mem) {
			good = false;
		}
	} else {
		st = fft.kiss_fft_alloc((int) n, inv, NULL, NULL);
	}
	if (inplace) {
		fft.kiss_fft(st, in, in);
		out = in;
	} else {
		if (own) {
			// a transform does not use up its setting
			fft.kiss_fft(st, in, out);
		}
		fft.kiss_fft(st, in, out);
	}
	free(st);
	if (!good) {
		proto.outs("memory");
	}
	bool clean = leak.now() == before;
	for (size_t i = 0; i < n; i++) {
		outc(out[i]);
	}
	proto.outb(clean);
}

int main() {
	while (proto.next()) {
		switch str (proto.cmd()) {
			case "stats": { do_stats(); }
			case "norm": { do_norm(); }
			case "sample": { do_sample(); }
			case "intn": { do_intn(); }
			case "seq": { do_seq(); }
			case "u": { do_u(); }
			case "top": { do_top(); }
			case "complex": { do_complex(); }
			case "fft": { do_fft(); }
			default: { proto.unknown(); }
		}
		proto.end();
	}
	proto.release();
	return 0;
}
