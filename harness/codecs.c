#import proto.c
#import bits
#import compress/huffman
#import compress/lzw
#import crypt/md5
#import crypt/sha1
#import enc/endian
#import enc/hex
#import enc/urlencode
#import mem
#import reader
#import writer

int main() {
	while (proto.next()) {
		switch str (proto.cmd()) {
			case "bits": { run_bits(); }
			case "huff": { run_huff(); }
			case "canon": { run_canon(); }
			case "lzw": { run_lzw(); }
			case "md5": { run_md5(); }
			case "sha1": { run_sha1(); }
			case "endian": { run_endian(); }
			case "hex": { run_enc(0); }
			case "urlencode": { run_enc(1); }
			default: { proto.unknown(); }
		}
		proto.end();
	}
	return 0;
}

// A reader that gives at most a few bytes at a time.
typedef {
	uint8_t *data;
	size_t len;
	size_t pos;
	size_t step;
} slow_t;

int slowread(void *ctx, uint8_t *buf, size_t n) {
	slow_t *s = ctx;
	size_t k = 0;
	while (k < n && k < s->step && s->pos < s->len) {
		buf[k++] = s->data[s->pos++];
	}
	if (k == 0) {
		return EOF;
	}
	s->step = s->step * 7 % 11 + 1;
	return (int) k;
}

mem.mem_t *out = NULL;

uint8_t *outdata(size_t *n) {
	mem.rewind(out);
	size_t cap = 1 << 24;
	char *all = calloc(cap, 1);
	*n = mem.memread(out, all, cap);
	uint8_t *r = proto.alloc(*n);
	memcpy(r, all, *n);
	free(all);
	mem.memclose(out);
	return r;
}

// bits <order> <bits to write as 0/1 text> <list of read sizes>
void run_bits() {
	int order = proto.num(0);
	char *s = proto.arg(1);
	out = mem.memopen();
	writer.t *w = mem.newwriter(out);
	bits.writer_t *bw = bits.newwriter(w, order);
	size_t n = strlen(s);
	if (s[0] == '-') {
		n = 0;
	}
	if (proto.num(2) == 0) {
		for (size_t i = 0; i < n; i++) {
			if (!bits.write1(bw, s[i] == '1')) {
				proto.outs("write1 failed");
			}
		}
	} else {
		uint8_t *bb = proto.alloc(n);
		for (size_t i = 0; i < n; i++) {
			bb[i] = s[i] == '1';
		}
		proto.outb(bits.write(bw, bb, n));
	}
	proto.outb(bits.closewriter(bw));
	writer.free(w);
	size_t len = 0;
	uint8_t *data = outdata(&len);
	proto.outhex(data, len);

	reader.t *r = reader.static_buffer(data, len);
	bits.reader_t *br = bits.newreader(r, order);
	for (size_t i = 3; i < proto.count(); i++) {
		int k = proto.num(i);
		if (k == 0) {
			proto.outi(bits.read1(br));
		} else {
			proto.outi(bits.readn(br, k));
		}
	}
	bits.closereader(br);
	reader.free(r);
	uint8_t x[8] = {};
	if (len > 0) {
		bits.getbits_lsfirst(data[0], x);
		proto.outhex(x, 8);
		bits.getbits_msfirst(data[0], x);
		proto.outhex(x, 8);
	}
}

// huff <training text> <message over its characters> <step>
void run_huff() {
	char *text = proto.str(0);
	size_t n = 0;
	uint8_t *msg = proto.bytes(1, &n);
	huffman.tree_t *t = huffman.buildtree(text);
	out = mem.memopen();
	writer.t *w = mem.newwriter(out);
	huffman.writer_t *hw = huffman.newwriter(t, w);
	for (size_t i = 0; i < n; i++) {
		if (!huffman.write(hw, msg[i])) {
			proto.outs("write failed");
		}
	}
	huffman.closewriter(hw);
	writer.free(w);
	size_t len = 0;
	uint8_t *data = outdata(&len);
	proto.outu(len);
	slow_t s = { .data = data, .len = len, .step = proto.size(2) };
	reader.t *r = reader.new(&s, slowread, NULL);
	bits.reader_t *br = bits.newreader(r, bits.STRAIGHT);
	huffman.reader_t *hr = huffman.newreader(t, br);
	uint8_t *back = proto.alloc(n);
	for (size_t i = 0; i < n; i++) {
		int c = huffman.read(hr);
		if (c == EOF) {
			proto.outs("early EOF");
			break;
		}
		back[i] = c;
	}
	huffman.closereader(hr);
	bits.closereader(br);
	reader.free(r);
	huffman.freetree(t);
	proto.outhex(back, n);
}

// canon <length counts> <values> <encoded bytes> <number of symbols>
void run_canon() {
	size_t nl = 0;
	size_t nv = 0;
	size_t nd = 0;
	uint8_t *lens = proto.bytes(0, &nl);
	uint8_t *vals = proto.bytes(1, &nv);
	uint8_t *data = proto.bytes(2, &nd);
	size_t n = proto.size(3);
	huffman.tree_t *t = huffman.treefrom(lens, nl, vals);
	reader.t *r = reader.static_buffer(data, nd);
	bits.reader_t *br = bits.newreader(r, bits.STRAIGHT);
	huffman.reader_t *hr = huffman.newreader(t, br);
	uint8_t *back = proto.alloc(n);
	for (size_t i = 0; i < n; i++) {
		back[i] = huffman.read(hr);
	}
	huffman.closereader(hr);
	bits.closereader(br);
	reader.free(r);
	huffman.freetree(t);
	proto.outhex(back, n);
}

// lzw <alphabet size> <message> <step>
void run_lzw() {
	size_t alpha = proto.size(0);
	size_t n = 0;
	uint8_t *msg = proto.bytes(1, &n);
	size_t step = proto.size(2);
	out = mem.memopen();
	writer.t *w = mem.newwriter(out);
	slow_t s = { .data = msg, .len = n, .step = step };
	reader.t *r = NULL;
	if (step == 0) {
		r = reader.static_buffer(msg, n);
	} else {
		r = reader.new(&s, slowread, NULL);
	}
	lzw.compress(r, alpha, w);
	reader.free(r);
	writer.free(w);
	size_t len = 0;
	uint8_t *data = outdata(&len);
	proto.outu(len);

	out = mem.memopen();
	w = mem.newwriter(out);
	r = reader.static_buffer(data, len);
	lzw.dec_t *d = lzw.newdecoder(r, alpha);
	lzw.decodeinto(d, w);
	lzw.freedecoder(d);
	reader.free(r);
	writer.free(w);
	data = outdata(&len);
	proto.outu(len);
	proto.outb(len == n && memcmp(data, msg, n) == 0);
}

void run_md5() {
	size_t n = 0;
	uint8_t *msg = proto.bytes(0, &n);
	md5.md5sum_t a = {};
	md5.md5str_t s = "";
	md5.md5_buf((char *) msg, n, a);
	md5.md5_sprint(a, s);
	proto.outs(s);
	md5.md5sum_t b = {};
	md5.md5_str(proto.str(0), b);
	md5.md5_sprint(b, s);
	proto.outs(s);
	proto.outb(md5.md5_eq(a, b));
}

void run_sha1() {
	size_t n = 0;
	uint8_t *msg = proto.bytes(0, &n);
	sha1.digest_t d = {};
	for (int round = 0; round < 2; round++) {
		for (size_t i = 0; i < n; i++) {
			sha1.add(&d, msg[i]);
		}
		sha1.end(&d);
		char *buf = proto.alloc(41);
		memset(buf, 'x', 41);
		proto.outb(sha1.format(&d, buf, 41));
		proto.outstr(buf);
		proto.outb(sha1.format(&d, buf, 39));
		uint8_t *raw = proto.alloc(20);
		sha1.as_bytes(&d, raw);
		proto.outhex(raw, 20);
		// nothing can be added after the end
		proto.outb(sha1.add(&d, 1) || sha1.end(&d));
		sha1.reset(&d);
	}
}

// endian <8 bytes> <value>
void run_endian() {
	size_t n = 0;
	uint8_t *data = proto.bytes(0, &n);
	uint32_t val = (uint32_t) proto.size(1);
	reader.t *r = NULL;
	uint8_t a = 0;
	uint16_t b = 0;
	uint32_t c = 0;
	r = reader.static_buffer(data, n);
	endian.read1(r, &a);
	proto.outu(a);
	endian.read2le(r, &b);
	proto.outu(b);
	endian.read2be(r, &b);
	proto.outu(b);
	endian.read3le(r, &c);
	proto.outu(c);
	endian.read4be(r, &c);
	proto.outu(c);
	endian.read4le(r, &c);
	proto.outu(c);
	proto.outi(endian.read2le(r, &b));
	proto.outb(endian.read2be(r, &b));
	reader.free(r);
	out = mem.memopen();
	writer.t *w = mem.newwriter(out);
	proto.outi(endian.write1(w, (char) val));
	proto.outi(endian.write2le(w, val));
	proto.outi(endian.write4be(w, val));
	proto.outi(endian.write4le(w, val));
	writer.free(w);
	uint8_t *o = outdata(&n);
	proto.outhex(o, n);
}

void run_enc(int kind) {
	size_t n = 0;
	uint8_t *data = proto.bytes(0, &n);
	out = mem.memopen();
	writer.t *w = mem.newwriter(out);
	if (kind == 0) {
		proto.outi(hex.write(w, (char *) data, n));
	} else {
		proto.outi(urlencode.write(w, (char *) data, n));
	}
	writer.free(w);
	size_t len = 0;
	uint8_t *o = outdata(&len);
	proto.outhex(o, len);
	// a writer that runs out of space
	size_t cap = proto.size(1);
	uint8_t *small = proto.alloc(cap);
	w = writer.static_buffer(small, cap);
	if (kind == 0) {
		proto.outi(hex.write(w, (char *) data, n));
	} else {
		proto.outi(urlencode.write(w, (char *) data, n));
	}
	proto.outhex(small, w->nwritten);
	writer.free(w);
}
