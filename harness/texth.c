#import bytereader
#import linereader
#import reader
#import strings
#import table
#import tokenizer
#import utf
#import leak.c
#import proto.c

int main() {
	while (proto.next()) {
		switch str (proto.cmd()) {
			case "str": { run_str(); }
			case "split": { run_split(); }
			case "tok": { run_tok(); }
			case "lines": { run_lines(); }
			case "bytes": { run_bytes(); }
			case "table": { run_table(); }
			case "runes": { run_runes(); }
			case "utf": { run_utf(); }
			case "rstr": { run_rstr(); }
			case "cases": { run_cases(); }
			default: { proto.unknown(); }
		}
		proto.end();
	}
	return 0;
}

// str <op> <a> <b> [<n1> <n2>]
void run_str() {
	char *a = proto.str(1);
	char *b = proto.str(2);
	int n1 = 0;
	int n2 = 0;
	if (proto.count() > 3) {
		n1 = proto.num(3);
		n2 = proto.num(4);
	}
	size_t m0 = leak.now();
	switch str (proto.arg(0)) {
		case "trim": {
			strings.trim(a);
			proto.outstr(a);
		}
		case "rtrim": {
			strings.rtrim(a, b);
			proto.outstr(a);
		}
		case "casecmp": { proto.outb(strings.casecmp(a, b)); }
		case "starts": { proto.outb(strings.starts_with(a, b)); }
		case "startsi": { proto.outb(strings.starts_with_i(a, b)); }
		case "ends": { proto.outb(strings.ends_with(a, b)); }
		case "eq": { proto.outb(strings.eq(a, b)); }
		case "upper": { proto.outb(strings.allupper(a)); }
		case "newstr": {
			char *s = strings.newstr("%s%d%s", a, n1, b);
			proto.outstr(s);
			OS.free(s);
		}
		case "newsubstr": {
			char *s = strings.newsubstr(a, n1, n2);
			proto.outstr(s);
			OS.free(s);
		}
		case "size": {
			char *buf = proto.alloc((size_t) n1);
			m0 = leak.now();
			strings.fmt_bytes(OS.strtoull(a, NULL, 10), buf, (size_t) n1);
			proto.outstr(buf);
		}
		case "digit": {
			proto.outi(strings.ascii_digit(n1));
			proto.outi(strings.num_from_ascii(n2));
		}
		default: { proto.unknown(); }
	}
	proto.outb(leak.now() == m0);
}

// split <separator> <string> <slots>
void run_split() {
	char *sp = proto.str(0);
	char *s = proto.str(1);
	size_t n = proto.size(2);
	char **list = proto.alloc(n * sizeof(char *));
	size_t m0 = leak.now();
	size_t r = strings.split(sp, s, list, n);
	proto.outu(r);
	for (size_t i = 0; i < r; i++) {
		proto.outstr(list[i]);
		OS.free(list[i]);
	}
	proto.outb(leak.now() == m0);
}

typedef {
	uint8_t *data;
	size_t n, pos, chunk;
} slow_t;

int slow_read(void *ctx, uint8_t *buf, size_t n) {
	slow_t *s = ctx;
	if (s->pos == s->n) {
		return EOF;
	}
	size_t k = 0;
	while (k < n && k < s->chunk && s->pos < s->n) {
		buf[k++] = s->data[s->pos++];
	}
	return (int) k;
}

// tok <source> <data> <op> ...
void run_tok() {
	size_t n = 0;
	uint8_t *data = proto.bytes(1, &n);
	char *text = proto.str(1);
	char *src = proto.arg(0);
	size_t nops = proto.count();
	char **texts = proto.alloc(nops * sizeof(char *));
	char **bufs = proto.alloc(nops * sizeof(char *));
	for (size_t i = 2; i < nops; i++) {
		texts[i] = proto.fieldstr(proto.arg(i), 1);
		bufs[i] = proto.alloc(proto.fieldsize(proto.arg(i), 2));
	}
	slow_t slow = { .data = data, .n = n };
	FILE *f = NULL;
	if (proto.fieldis(src, 0, "file")) {
		f = OS.tmpfile();
		fwrite(data, 1, n, f);
		rewind(f);
	}
	size_t m0 = leak.now();
	tokenizer.t *t = NULL;
	reader.t *own = NULL;
	if (proto.fieldis(src, 0, "str")) {
		t = tokenizer.from_str(text);
	} else if (proto.fieldis(src, 0, "file")) {
		t = tokenizer.file(f);
	} else {
		slow.chunk = proto.fieldsize(src, 1);
		own = reader.new(&slow, slow_read, NULL);
		t = tokenizer.new(own);
	}
	for (size_t i = 2; i < nops; i++) {
		run_tokop(t, proto.arg(i), texts[i], bufs[i]);
	}
	tokenizer.free(t);
	if (own) {
		reader.free(own);
	}
	if (f) {
		fclose(f);
	}
	proto.outb(f != NULL || leak.now() == m0);
}

char argchar(char *s) {
	return s[0];
}

void run_tokop(tokenizer.t *t, char *w, *text, *buf) {
	size_t cap = proto.fieldsize(w, 2);
	if (proto.fieldis(w, 0, "peek")) {
		proto.outi(tokenizer.peek(t));
	} else if (proto.fieldis(w, 0, "get")) {
		proto.outi(tokenizer.get(t));
	} else if (proto.fieldis(w, 0, "more")) {
		proto.outb(tokenizer.more(t));
	} else if (proto.fieldis(w, 0, "tail")) {
		tokenizer.tail(t, buf, cap);
		proto.outstr(buf);
	} else if (proto.fieldis(w, 0, "skipset")) {
		tokenizer.buf_skip_set(t, text);
		proto.outs("ok");
	} else if (proto.fieldis(w, 0, "skip")) {
		proto.outb(tokenizer.buf_skip(t, argchar(text)));
	} else if (proto.fieldis(w, 0, "readset")) {
		char *s = tokenizer.buf_read_set(t, text);
		proto.outstr(s);
		OS.free(s);
	} else if (proto.fieldis(w, 0, "spaces")) {
		proto.outb(tokenizer.spaces(t));
	} else if (proto.fieldis(w, 0, "hspaces")) {
		tokenizer.hspaces(t);
		proto.outs("ok");
	} else if (proto.fieldis(w, 0, "id")) {
		bool ok = tokenizer.id(t, buf, cap);
		proto.outb(ok);
		if (ok) {
			proto.outstr(buf);
		}
	} else if (proto.fieldis(w, 0, "num")) {
		bool ok = tokenizer.num(t, buf, cap);
		proto.outb(ok);
		if (ok) {
			proto.outstr(buf);
		}
	} else if (proto.fieldis(w, 0, "lit")) {
		proto.outb(tokenizer.skip_literal(t, text));
	} else if (proto.fieldis(w, 0, "follows")) {
		proto.outb(tokenizer.literal_follows(t, text));
	} else if (proto.fieldis(w, 0, "pos")) {
		proto.outs(tokenizer.posstr(t));
	} else if (proto.fieldis(w, 0, "skipuntil")) {
		char *s = tokenizer.buf_skip_until(t, text);
		proto.outstr(s);
		OS.free(s);
	} else if (proto.fieldis(w, 0, "until")) {
		bool ok = tokenizer.read_until(t, argchar(text), buf, cap);
		proto.outb(ok);
		if (ok) {
			proto.outstr(buf);
		}
	} else {
		proto.unknown();
	}
}

// lines <data>
void run_lines() {
	size_t n = 0;
	uint8_t *data = proto.bytes(0, &n);
	FILE *f = OS.tmpfile();
	fwrite(data, 1, n, f);
	rewind(f);
	linereader.t *r = linereader.new(f);
	while (linereader.read(r)) {
		proto.outstr(linereader.line(r));
	}
	proto.outb(linereader.read(r));
	linereader.free(r);
	fclose(f);
}

// bytes <path> <op> ...
void run_bytes() {
	bytereader.reader_t *r = bytereader.newreader(proto.arg(0));
	if (!r) {
		proto.outs("none");
		return;
	}
	size_t n = proto.count();
	for (size_t i = 1; i < n; i++) {
		switch str (proto.arg(i)) {
			case "c": { proto.outi(bytereader.readc(r)); }
			case "p": { proto.outi(bytereader.peekc(r)); }
			case "2": { proto.outu((size_t) bytereader.read16(r)); }
			case "4": { proto.outu((size_t) bytereader.read32(r)); }
			default: { proto.outb(bytereader.ended(r)); }
		}
	}
	bytereader.freereader(r);
}

// table <columns> <value> ...
void run_table() {
	table.table_t *t = table.new(proto.size(0));
	size_t n = proto.count();
	for (size_t i = 1; i < n; i++) {
		table.pushval(t, "%s", proto.str(i));
	}
	// The rows are lines themselves.
	proto.outu(n - 1);
	putchar('\n');
	table.print(t);
	puts(";");
	table.free(t);
	proto.outs("end");
}

// runes <from> <to>: what encoding and decoding every rune of the range yields,
// as a checksum-free list of deviations from "rune size".
void run_runes() {
	size_t from = proto.size(0);
	size_t to = proto.size(1);
	for (size_t i = from; i < to; i++) {
		char *s = OS.calloc(5, 1);
		utf.Rune r = (uint32_t) i;
		int n = utf.runetochar(s, &r);
		utf.Rune back = 0;
		int m = utf.get_rune(&back, s);
		proto.outhex(s, n);
		proto.outi(m);
		proto.outu((size_t) back);
		proto.outi(utf.runelen((int) i));
		OS.free(s);
	}
}

void outpos(char *s, *p) {
	if (!p) {
		proto.outs("NULL");
	} else {
		proto.outu((size_t) (p - s));
	}
}

// utf <string> <n> <rune> <sub> <cap>
void run_utf() {
	char *s = proto.str(0);
	size_t slen = 0;
	uint8_t *raw = proto.bytes(0, &slen);
	int n = proto.num(1);
	utf.Rune c = (uint32_t) proto.size(2);
	char *sub = proto.str(3);
	size_t cap = proto.size(4);
	// all runes
	size_t pos = 0;
	size_t total = strlen(s);
	printf("[");
	while (pos < total) {
		utf.Rune r = 0;
		int k = utf.get_rune(&r, s + pos);
		printf("%u:%d,", (uint32_t) r, k);
		if (k < 1) {
			break;
		}
		pos += (size_t) k;
	}
	printf("]");
	proto.outu(utf.runecount(s));
	proto.outi(utf.utfnlen(s, n));
	// a part of the string which ends where its allocation ends
	char *part = proto.alloc((size_t) n);
	memcpy(part, s, (size_t) n);
	proto.outi(utf.utfnlen(part, n));
	proto.outi(utf.fullrune((char *) raw, (int) slen));
	outpos(s, utf.utfrune(s, c));
	outpos(s, utf.utfrrune(s, c));
	outpos(s, utf.utfutf(s, sub));
	char *to = proto.alloc(cap);
	char *e = utf.utfecpy(to, to + cap, s);
	proto.outu((size_t) (e - to));
	if (cap > 0) {
		proto.outstr(to);
	} else {
		proto.outs("-");
	}
}

utf.Rune *runes(size_t i, size_t extra) {
	size_t n = 0;
	uint8_t *b = proto.bytes(i, &n);
	size_t k = n / 3;
	utf.Rune *r = proto.alloc((k + 1 + extra) * sizeof(utf.Rune));
	for (size_t j = 0; j < k; j++) {
		r[j] = (uint32_t) b[3 * j] * 65536 + (uint32_t) b[3 * j + 1] * 256 + (uint32_t) b[3 * j + 2];
	}
	return r;
}

void outrunes(utf.Rune *r, size_t n) {
	for (size_t i = 0; i < n; i++) {
		proto.outu((size_t) r[i]);
	}
	proto.outs("|");
}

void outrpos(utf.Rune *s, *p) {
	if (!p) {
		proto.outs("NULL");
	} else {
		proto.outu((size_t) (p - s));
	}
}

// rstr <op> <a> <b> <n> <c>, strings are given as 3 bytes per rune
void run_rstr() {
	size_t na = 0;
	size_t nb = 0;
	proto.bytes(1, &na);
	proto.bytes(2, &nb);
	na = na / 3;
	nb = nb / 3;
	size_t n = proto.size(3);
	utf.Rune c = (uint32_t) proto.size(4);
	utf.Rune *a = runes(1, 0);
	utf.Rune *b = runes(2, 0);
	switch str (proto.arg(0)) {
		case "cat": {
			utf.Rune *w = runes(1, nb);
			proto.outb(utf.runestrcat(w, b) == w);
			outrunes(w, na + nb + 1);
		}
		case "ncat": {
			size_t m = nb;
			if (n < m) {
				m = n;
			}
			utf.Rune *w = runes(1, m);
			proto.outb(utf.runestrncat(w, b, (int) n) == w);
			outrunes(w, na + m + 1);
		}
		case "chr": {
			outrpos(a, utf.runestrchr(a, c));
			outrpos(a, utf.runestrrchr(a, c));
		}
		case "str": { outrpos(a, utf.runestrstr(a, b)); }
		case "cmp": {
			proto.outi(utf.runestrcmp(a, b));
			proto.outi(utf.runestrncmp(a, b, (int) n));
		}
		case "cpy": {
			utf.Rune *w = proto.alloc((na + 1) * sizeof(utf.Rune));
			proto.outb(utf.runestrcpy(w, a) == w);
			outrunes(w, na + 1);
		}
		case "ncpy": {
			utf.Rune *w = proto.alloc(n * sizeof(utf.Rune));
			memset(w, 255, n * sizeof(utf.Rune));
			proto.outb(utf.runestrncpy(w, a, (int) n) == w);
			outrunes(w, n);
		}
		case "ecpy": {
			utf.Rune *w = proto.alloc(n * sizeof(utf.Rune));
			utf.Rune *e = utf.runestrecpy(w, w + n, a);
			size_t k = (size_t) (e - w);
			proto.outu(k);
			if (k < n) {
				outrunes(w, k + 1);
			}
		}
		case "dup": {
			size_t m0 = leak.now();
			utf.Rune *w = utf.runestrdup(a);
			outrunes(w, na + 1);
			OS.free(w);
			proto.outb(leak.now() == m0);
		}
		case "len": { proto.outi(utf.runenlen(a, (int) na)); }
		default: { proto.unknown(); }
	}
}

// cases <from> <to>
void run_cases() {
	size_t from = proto.size(0);
	size_t to = proto.size(1);
	for (size_t i = from; i < to; i++) {
		utf.Rune r = (uint32_t) i;
		int flags = 0;
		if (utf.islowerrune(r)) {
			flags += 1;
		}
		if (utf.isalpharune(r)) {
			flags += 2;
		}
		if (utf.istitlerune(r)) {
			flags += 4;
		}
		if (utf.isspacerune(r)) {
			flags += 8;
		}
		printf("%u,%u,%u,%d ", (uint32_t) utf.tolowerrune(r), (uint32_t) utf.toupperrune(r), (uint32_t) utf.totitlerune(r), flags);
	}
}
