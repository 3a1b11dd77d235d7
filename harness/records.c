#import formats/bencode
#import formats/bencode_writer
#import formats/conf
#import formats/csv
#import formats/torrent
#import leak.c
#import proto.c

int main() {
	while (proto.next()) {
		switch str (proto.cmd()) {
			case "csvw": { run_csvw(); }
			case "bw": { run_bw(); }
			case "br": { run_br(); }
			case "torrent": { run_torrent(); }
			case "conf": { run_conf(); }
			default: { proto.unknown(); }
		}
		proto.end();
	}
	return 0;
}

// csvw <path> <row> ...  (a row is a list of values)
void run_csvw() {
	FILE *f = fopen(proto.arg(0), "wb");
	csv.writer_t w = { .f = f };
	for (size_t i = 1; i < proto.count(); i++) {
		char *row = proto.arg(i);
		int n = proto.fieldint(row, 0);
		for (int j = 0; j < n; j++) {
			csv.writeval(&w, proto.fieldstr(row, (size_t) j + 1));
		}
		csv.writeval(&w, NULL);
	}
	fclose(f);
	proto.outs("ok");
}

bool bwop(bencode_writer.t *w, char *op) {
	if (proto.fieldis(op, 0, "i")) {
		return bencode_writer.num(w, proto.fieldint(op, 1));
	}
	if (proto.fieldis(op, 0, "s")) {
		size_t n = 0;
		uint8_t *b = proto.fieldbytes(op, 1, &n);
		return bencode_writer.buf(w, b, n);
	}
	if (proto.fieldis(op, 0, "e")) {
		return bencode_writer.end(w);
	}
	if (proto.fieldis(op, 0, "l")) {
		return bencode_writer.begin(w, 'l');
	}
	return bencode_writer.begin(w, 'd');
}

// bw <path> <capacity> <op> ...
void run_bw() {
	char *path = proto.arg(0);
	size_t cap = proto.size(1);
	size_t n = proto.count();
	uint8_t *buf = proto.alloc(cap);
	bencode_writer.t *w = bencode_writer.tobuf(buf, cap);
	bool ok = true;
	for (size_t i = 2; ok && i < n; i++) {
		ok = bwop(w, proto.arg(i));
	}
	proto.outb(ok);
	proto.outu(bencode_writer.pos(w));
	proto.outhex(buf, bencode_writer.pos(w));
	bencode_writer.free(w);

	FILE *f = fopen(path, "wb");
	w = bencode_writer.tofile(f);
	ok = true;
	for (size_t i = 2; ok && i < n; i++) {
		ok = bwop(w, proto.arg(i));
	}
	proto.outb(ok);
	proto.outu(bencode_writer.pos(w));
	bencode_writer.free(w);
	fclose(f);
}

// Prints a value with the positions around it.
void walk(bencode.reader_t *r, const char *data, size_t total) {
	size_t p1 = bencode.pos(r);
	switch (bencode.type(r)) {
		case 'i': { printf("i%d", bencode.readnum(r)); }
		case 's': {
			int n = bencode.strsize(r);
			if (n < 0) {
				panic("negative size");
			}
			uint8_t *b = calloc!((size_t) n + 1, 1);
			size_t got = bencode.readbuf(r, b, n);
			putchar('s');
			for (size_t i = 0; i < got; i++) {
				printf("%02x", b[i]);
			}
			free(b);
		}
		case 'l': {
			putchar('[');
			bencode.enter(r);
			while (bencode.more(r)) {
				walk(r, data, total);
			}
			bencode.leave(r);
			putchar(']');
		}
		case 'd': {
			putchar('{');
			bencode.enter(r);
			while (bencode.more(r)) {
				int size = bencode.strsize(r);
				if (size < 0) {
					panic("negative size");
				}
				size_t n = (size_t) size;
				uint8_t *b = calloc!(n + 1, 1);
				size_t got = bencode.key(r, b, n);
				for (size_t i = 0; i < got; i++) {
					printf("%02x", b[i]);
				}
				free(b);
				putchar('=');
				walk(r, data, total);
			}
			bencode.leave(r);
			putchar('}');
		}
		default: { putchar('?'); }
	}
	size_t p2 = bencode.pos(r);
	// skipping has to step over the same bytes
	bencode.reader_t *q = bencode.newreader(data + p1, total - p1);
	bool ok = bencode.skip(q);
	if (!ok || bencode.pos(q) != p2 - p1) {
		fputs("!skip", stdout);
	}
	bencode.freereader(q);
	printf("@%zu;", p2);
}

// br <data>
void run_br() {
	size_t n = 0;
	const char *data = (char *) proto.bytes(0, &n);
	size_t before = leak.now();
	bencode.reader_t *r = bencode.newreader(data, n);
	proto.outs("");
	while (bencode.more(r)) {
		walk(r, data, n);
	}
	proto.outu(bencode.pos(r));
	proto.outi(bencode.type(r));
	proto.outb(bencode.skip(r));
	bencode.freereader(r);
	proto.outb(leak.now() == before);
}

void out_torrent(torrent.info_t *t) {
	proto.outstr(t->announce);
	proto.outstr(t->created_by);
	proto.outi(t->creation_date);
	proto.outstr(t->comment);
	proto.outstr(t->name);
	proto.outu(t->piece_length);
	proto.outu(t->length);
	proto.outb(t->private);
	proto.outs(t->infohash);
	proto.outhex(t->infohash_bytes, 20);
	proto.outu(t->nfiles);
	for (size_t i = 0; i < t->nfiles; i++) {
		proto.outstr(t->files[i].path);
		proto.outu(t->files[i].length);
	}
	proto.outu(torrent.totalsize(t));
	proto.outu(torrent.npieces(t));
	proto.outu(torrent.lastlen(t));
	for (size_t i = 0; i < torrent.npieces(t); i++) {
		uint8_t *h = proto.alloc(20);
		torrent.piecehash(t, i, h);
		proto.outhex(h, 20);
	}
}

// torrent <data> <path>
void run_torrent() {
	size_t n = 0;
	uint8_t *data = proto.bytes(0, &n);
	char *path = proto.arg(1);
	torrent.info_t *t = torrent.parse((char *) data, n);
	out_torrent(t);
	proto.outs("/");
	if (t->nfiles == 0) {
		FILE *f = fopen(path, "wb");
		proto.outb(torrent.writefile(f, t));
		fclose(f);
		torrent.free(t);
		t = torrent.from_file(path);
		if (!t) {
			proto.outs("lost");
			return;
		}
		out_torrent(t);
		remove(path);
	}
	torrent.free(t);
	if (torrent.from_file(path)) {
		proto.outs("phantom");
	}
}

// conf <data> <path>
void run_conf() {
	size_t n = 0;
	uint8_t *data = proto.bytes(0, &n);
	char *path = proto.arg(1);
	FILE *f = fopen(path, "wb");
	if (n > 0) {
		fwrite(data, 1, n, f);
	}
	fclose(f);
	f = fopen(path, "rb");
	conf.reader_t *r = conf.new(f);
	while (conf.next(r)) {
		proto.outstr(r->key);
		proto.outstr(r->val);
	}
	proto.outs("end");
	conf.free(r);
	fclose(f);
	remove(path);
}
