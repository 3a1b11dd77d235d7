// The line protocol of the harness programs: a request is a line of words
// separated by spaces, a word is a list of fields separated by colons. A reply
// is one line. Every decoded argument lives in an exactly sized allocation, so
// the address sanitizer sees any access outside of it.

char outbuf[65536] = {};
bool started = false;
char *linebuf = NULL;
size_t linecap = 0;
char **words = NULL;
size_t nwords = 0;
size_t wordcap = 0;
void **held = NULL;
size_t nheld = 0;
size_t heldcap = 0;

void *hold(size_t n) {
	if (nheld == heldcap) {
		heldcap = heldcap * 2 + 16;
		held = realloc(held, heldcap * sizeof(void *));
	}
	// exactly n bytes
	void *p = calloc(n, 1);
	if (!p) {
		exit(50);
	}
	held[nheld++] = p;
	return p;
}

void drop() {
	for (size_t i = 0; i < nheld; i++) {
		free(held[i]);
	}
	free(held);
	held = NULL;
	heldcap = 0;
	nheld = 0;
}

// Releases what was handed out for the current request.
pub void release() {
	drop();
}

// Reads the next request, returns false at the end.
pub bool next() {
	drop();
	if (!started) {
		// Keep stdio from allocating in the middle of a leak measurement.
		started = true;
		setvbuf(stdout, outbuf, 0, sizeof(outbuf));
	}
	size_t n = 0;
	while (true) {
		int c = fgetc(stdin);
		if (c == EOF) {
			return false;
		}
		if (n + 2 > linecap) {
			linecap = linecap * 2 + 256;
			linebuf = realloc(linebuf, linecap);
		}
		if (c == '\n') {
			break;
		}
		linebuf[n++] = c;
	}
	linebuf[n] = '\0';
	nwords = 0;
	char *p = linebuf;
	while (true) {
		if (nwords == wordcap) {
			wordcap = wordcap * 2 + 16;
			words = realloc(words, wordcap * sizeof(char *));
		}
		words[nwords++] = p;
		char *q = strchr(p, ' ');
		if (!q) {
			break;
		}
		*q = '\0';
		p = q + 1;
	}
	return true;
}

pub char *cmd() {
	return words[0];
}

// The number of words after the command.
pub size_t count() {
	return nwords - 1;
}

// The i-th word after the command, counting from 0.
pub char *arg(size_t i) {
	if (i + 1 >= nwords) {
		fprintf(stderr, "harness: no argument %zu\n", i);
		exit(51);
	}
	return words[i + 1];
}

// The j-th field of word w.
char *fieldstart(char *w, size_t j) {
	char *p = w;
	for (size_t k = 0; k < j; k++) {
		p = strchr(p, ':');
		if (!p) {
			fprintf(stderr, "harness: no field %zu in %s\n", j, w);
			exit(52);
		}
		p++;
	}
	return p;
}

size_t fieldlen(char *p) {
	size_t n = 0;
	while (p[n] != '\0' && p[n] != ':') {
		n++;
	}
	return n;
}

// Tells whether the j-th field of word w is the text s.
pub bool fieldis(char *w, size_t j, const char *s) {
	char *p = fieldstart(w, j);
	size_t n = fieldlen(p);
	return n == strlen(s) && strncmp(p, s, n) == 0;
}

pub int fieldint(char *w, size_t j) {
	return (int) OS.strtol(fieldstart(w, j), NULL, 10);
}

pub double fielddbl(char *w, size_t j) {
	return strtod(fieldstart(w, j), NULL);
}

pub size_t fieldsize(char *w, size_t j) {
	return (size_t) OS.strtoull(fieldstart(w, j), NULL, 10);
}

int digit(int c) {
	if (c <= 57) {
		return c - 48;
	}
	return c - 87;
}

// The bytes of a hex field ("-" is empty), in an allocation of exactly that size.
pub uint8_t *fieldbytes(char *w, size_t j, size_t *len) {
	char *p = fieldstart(w, j);
	size_t n = fieldlen(p);
	if (n == 1 && p[0] == '-') {
		n = 0;
	}
	n = n / 2;
	uint8_t *r = hold(n);
	for (size_t i = 0; i < n; i++) {
		r[i] = (uint8_t) (digit(p[2 * i]) * 16 + digit(p[2 * i + 1]));
	}
	*len = n;
	return r;
}

// The same with a zero byte after it.
pub char *fieldstr(char *w, size_t j) {
	size_t n = 0;
	uint8_t *b = fieldbytes(w, j, &n);
	char *r = hold(n + 1);
	if (n > 0) {
		memcpy(r, b, n);
	}
	return r;
}

pub uint8_t *bytes(size_t i, size_t *len) {
	return fieldbytes(arg(i), 0, len);
}

pub char *str(size_t i) {
	return fieldstr(arg(i), 0);
}

pub int num(size_t i) {
	return fieldint(arg(i), 0);
}

pub double dbl(size_t i) {
	return fielddbl(arg(i), 0);
}

pub size_t size(size_t i) {
	return fieldsize(arg(i), 0);
}

// A scratch allocation of exactly n bytes, released with the request.
pub void *alloc(size_t n) {
	return hold(n);
}

bool first = true;

void sep() {
	if (!first) {
		putchar(' ');
	}
	first = false;
}

pub void outs(const char *s) {
	sep();
	fputs(s, stdout);
}

pub void outi(int n) {
	sep();
	printf("%d", n);
}

pub void outu(size_t n) {
	sep();
	printf("%zu", n);
}

pub void outb(bool b) {
	sep();
	if (b) {
		putchar('1');
	} else {
		putchar('0');
	}
}

pub void outd(double d) {
	sep();
	printf("%.17g", d);
}

pub void outhex(const void *data, size_t n) {
	sep();
	if (n == 0) {
		putchar('-');
	}
	const uint8_t *p = data;
	for (size_t i = 0; i < n; i++) {
		printf("%02x", p[i]);
	}
}

// A string or NULL.
pub void outstr(const char *s) {
	if (!s) {
		outs("NULL");
		return;
	}
	outhex(s, strlen(s));
}

pub void end() {
	putchar('\n');
	fflush(stdout);
	first = true;
}

pub void unknown() {
	fprintf(stderr, "harness: unknown request %s\n", cmd());
	exit(53);
}
