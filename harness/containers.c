#import proto.c
#import leak.c
#import clip/vec
#import clip/map
#import clip/map2
#import clip/stringtable
#import clip/buffer
#import clip/llist
#import strbuilder
#import mem
#import writer
#import reader

int main() {
	while (proto.next()) {
		size_t before = leak.now();
		switch str (proto.cmd()) {
			case "vec": { run_vec(); }
			case "map": { run_map(); }
			case "map2": { run_map2(); }
			case "stringtable": { run_st(); }
			case "buffer": { run_buffer(); }
			case "llist": { run_llist(); }
			case "strbuilder": { run_sb(); }
			case "mem": { run_mem(); }
			case "writer": { run_writer(); }
			case "reader": { run_reader(); }
			default: { proto.unknown(); }
		}
		proto.release();
		proto.outi((int) (leak.now() - before));
		proto.end();
	}
	return 0;
}

void run_vec() {
	size_t isz = proto.size(0);
	vec.t *v = vec.new(isz);
	for (size_t i = 1; i < proto.count(); i++) {
		char *w = proto.arg(i);
		size_t n = 0;
		if (proto.fieldis(w, 0, "push")) {
			vec.push(v, proto.fieldbytes(w, 1, &n));
		} else if (proto.fieldis(w, 0, "alloc")) {
			void *p = vec.alloc(v);
			proto.outhex(p, isz);
			memcpy(p, proto.fieldbytes(w, 1, &n), isz);
		} else if (proto.fieldis(w, 0, "get")) {
			proto.outhex(vec.index(v, proto.fieldsize(w, 1)), isz);
		} else if (proto.fieldis(w, 0, "put")) {
			memcpy(vec.index(v, proto.fieldsize(w, 1)), proto.fieldbytes(w, 2, &n), isz);
		} else if (proto.fieldis(w, 0, "len")) {
			proto.outu(vec.len(v));
		} else {
			proto.unknown();
		}
	}
	vec.free(v);
}

void run_map() {
	size_t vsz = proto.size(0);
	map.map_t *m = map.new(vsz);
	for (size_t i = 1; i < proto.count(); i++) {
		char *w = proto.arg(i);
		size_t n = 0;
		size_t vn = 0;
		if (proto.fieldis(w, 0, "set")) {
			uint8_t *k = proto.fieldbytes(w, 1, &n);
			map.set(m, k, n, proto.fieldbytes(w, 2, &vn));
		} else if (proto.fieldis(w, 0, "sets")) {
			map.sets(m, proto.fieldstr(w, 1), proto.fieldbytes(w, 2, &vn));
		} else if (proto.fieldis(w, 0, "get") || proto.fieldis(w, 0, "gets")) {
			uint8_t *val = proto.alloc(vsz);
			memset(val, 0xEE, vsz);
			bool ok = false;
			if (proto.fieldis(w, 0, "get")) {
				uint8_t *k = proto.fieldbytes(w, 1, &n);
				ok = map.get(m, k, n, val);
				if (map.has(m, k, n) != ok) {
					proto.outs("has-differs");
				}
			} else {
				ok = map.gets(m, proto.fieldstr(w, 1), val);
				if (map.hass(m, proto.fieldstr(w, 1)) != ok) {
					proto.outs("has-differs");
				}
			}
			proto.outb(ok);
			proto.outhex(val, vsz);
		} else if (proto.fieldis(w, 0, "size")) {
			proto.outu(map.size(m));
		} else if (proto.fieldis(w, 0, "iter")) {
			map.iter_t *it = map.iter(m);
			while (map.next(it)) {
				size_t cap = proto.fieldsize(w, 1);
				uint8_t *kb = proto.alloc(cap);
				uint8_t *val = proto.alloc(vsz);
				size_t kn = map.itkey(it, kb, cap);
				map.itval(it, val);
				proto.outhex(kb, kn);
				proto.outhex(val, vsz);
			}
			proto.outb(map.next(it));
			map.end(it);
		} else {
			proto.unknown();
		}
	}
	map.free(m);
}

void run_map2() {
	map2.map_t *m = map2.new();
	for (size_t i = 0; i < proto.count(); i++) {
		char *w = proto.arg(i);
		size_t n = 0;
		size_t vn = 0;
		uint8_t *k = proto.fieldbytes(w, 1, &n);
		if (proto.fieldis(w, 0, "set")) {
			uint8_t *v = proto.fieldbytes(w, 2, &vn);
			map2.set(m, k, n, v, vn);
			// the map must have its own copies
			memset(v, 0xDD, vn);
			memset(k, 0xDD, n);
		} else if (proto.fieldis(w, 0, "get")) {
			uint8_t *v = map2.get(m, k, n);
			if (!v) {
				proto.outs("NULL");
			} else {
				proto.outhex(v, proto.fieldsize(w, 2));
			}
		} else {
			proto.unknown();
		}
	}
	map2.free(m);
}

void run_st() {
	stringtable.t *m = stringtable.new();
	for (size_t i = 0; i < proto.count(); i++) {
		char *w = proto.arg(i);
		if (proto.fieldis(w, 0, "set")) {
			stringtable.set(m, proto.fieldstr(w, 1), proto.fieldstr(w, 2));
		} else if (proto.fieldis(w, 0, "get")) {
			proto.outstr(stringtable.get(m, proto.fieldstr(w, 1)));
		} else {
			proto.unknown();
		}
	}
	stringtable.free(m);
}

void run_buffer() {
	buffer.t *b = buffer.new();
	for (size_t i = 0; i < proto.count(); i++) {
		char *w = proto.arg(i);
		size_t n = 0;
		if (proto.fieldis(w, 0, "write")) {
			uint8_t *d = proto.fieldbytes(w, 1, &n);
			proto.outb(buffer.write(b, (char *) d, n));
			memset(d, 0xDD, n);
		} else if (proto.fieldis(w, 0, "read")) {
			size_t cap = proto.fieldsize(w, 1);
			char *buf = proto.alloc(cap);
			n = buffer.read(b, buf, cap);
			proto.outhex(buf, n);
		} else if (proto.fieldis(w, 0, "size")) {
			proto.outu(buffer.size(b));
		} else {
			proto.unknown();
		}
	}
	buffer.free(b);
}

void run_llist() {
	char cells[16] = {};
	llist.t *l = llist.new();
	for (size_t i = 0; i < proto.count(); i++) {
		char *w = proto.arg(i);
		if (proto.fieldis(w, 0, "append")) {
			llist.append(l, cells + proto.fieldint(w, 1));
		} else if (proto.fieldis(w, 0, "remove")) {
			llist.remove(l, cells + proto.fieldint(w, 1));
		} else if (proto.fieldis(w, 0, "null")) {
			llist.append(l, NULL);
		} else if (proto.fieldis(w, 0, "walk")) {
			llist.t *p = llist.next(l);
			proto.outs("[");
			while (p) {
				char *d = p->data;
				proto.outi((int) (d - &cells[0]));
				p = llist.next(p);
			}
			proto.outs("]");
		} else {
			proto.unknown();
		}
	}
	// the module has no way to free a list
	llist.t *p = l;
	while (p) {
		llist.t *q = llist.next(p);
		free(p);
		p = q;
	}
}

void run_sb() {
	strbuilder.str *b = strbuilder.new();
	for (size_t i = 0; i < proto.count(); i++) {
		char *w = proto.arg(i);
		size_t n = 0;
		if (proto.fieldis(w, 0, "addc")) {
			uint8_t *d = proto.fieldbytes(w, 1, &n);
			for (size_t k = 0; k < n; k++) {
				if (!strbuilder.addc(b, d[k])) {
					proto.outs("failed");
				}
			}
		} else if (proto.fieldis(w, 0, "adds")) {
			proto.outb(strbuilder.adds(b, proto.fieldstr(w, 1)));
		} else if (proto.fieldis(w, 0, "addf")) {
			proto.outb(strbuilder.addf(b, "<%s|%d>", proto.fieldstr(w, 1), proto.fieldint(w, 2)));
		} else if (proto.fieldis(w, 0, "clear")) {
			strbuilder.clear(b);
		} else if (proto.fieldis(w, 0, "raw")) {
			proto.outu(strbuilder.str_len(b));
			if (strbuilder.str_len(b) == 0) {
				char *s = strbuilder.str_raw(b);
				proto.outb(!s || s[0] == '\0');
			} else {
				proto.outhex(strbuilder.str_raw(b), strbuilder.str_len(b) + 1);
			}
		} else if (proto.fieldis(w, 0, "unpack")) {
			n = strbuilder.str_len(b);
			char *s = strbuilder.str_unpack(b);
			if (n > 0) {
				proto.outhex(s, n + 1);
			} else {
				proto.outs("empty");
			}
			free(s);
			b = strbuilder.new();
		} else {
			proto.unknown();
		}
	}
	strbuilder.free(b);
}

void run_mem() {
	mem.mem_t *m = mem.memopen();
	for (size_t i = 0; i < proto.count(); i++) {
		char *w = proto.arg(i);
		size_t n = 0;
		if (proto.fieldis(w, 0, "write")) {
			uint8_t *d = proto.fieldbytes(w, 1, &n);
			proto.outu(mem.memwrite(m, (char *) d, n));
		} else if (proto.fieldis(w, 0, "wwrite")) {
			uint8_t *d = proto.fieldbytes(w, 1, &n);
			writer.t *wr = mem.newwriter(m);
			proto.outi(writer.write(wr, d, n));
			writer.free(wr);
		} else if (proto.fieldis(w, 0, "putc")) {
			proto.outi(mem.memputc(proto.fieldint(w, 1), m));
		} else if (proto.fieldis(w, 0, "getc")) {
			proto.outi(mem.memgetc(m));
		} else if (proto.fieldis(w, 0, "read")) {
			size_t cap = proto.fieldsize(w, 1);
			char *buf = proto.alloc(cap);
			n = mem.memread(m, buf, cap);
			proto.outhex(buf, n);
		} else if (proto.fieldis(w, 0, "printf")) {
			proto.outi(mem.memprintf(m, "%s-%d", proto.fieldstr(w, 1), proto.fieldint(w, 2)));
		} else if (proto.fieldis(w, 0, "rewind")) {
			mem.rewind(m);
		} else if (proto.fieldis(w, 0, "reset")) {
			mem.reset(m);
		} else if (proto.fieldis(w, 0, "tell")) {
			proto.outu(mem.memtell(m));
		} else {
			proto.unknown();
		}
	}
	mem.memclose(m);
}

void run_writer() {
	size_t cap = proto.size(0);
	uint8_t *buf = proto.alloc(cap);
	writer.t *wr = writer.static_buffer(buf, cap);
	for (size_t i = 1; i < proto.count(); i++) {
		char *w = proto.arg(i);
		size_t n = 0;
		if (proto.fieldis(w, 0, "write")) {
			uint8_t *d = proto.fieldbytes(w, 1, &n);
			proto.outi(writer.write(wr, d, n));
		} else if (proto.fieldis(w, 0, "byte")) {
			proto.outi(writer.writebyte(wr, (uint8_t) proto.fieldint(w, 1)));
		} else {
			proto.unknown();
		}
		proto.outu(wr->nwritten);
	}
	proto.outhex(buf, wr->nwritten);
	writer.free(wr);
}

void run_reader() {
	size_t n = 0;
	uint8_t *data = proto.fieldbytes(proto.arg(0), 0, &n);
	reader.t *r = reader.static_buffer(data, n);
	for (size_t i = 1; i < proto.count(); i++) {
		char *w = proto.arg(i);
		if (proto.fieldis(w, 0, "read")) {
			size_t cap = proto.fieldsize(w, 1);
			uint8_t *buf = proto.alloc(cap);
			int got = reader.read(r, buf, cap);
			if (got < 0) {
				got = 0;
			}
			proto.outhex(buf, (size_t) got);
		} else if (proto.fieldis(w, 0, "skip")) {
			reader.skip(r, proto.fieldsize(w, 1));
		} else {
			proto.unknown();
		}
		proto.outu(r->pos);
	}
	reader.free(r);
}
