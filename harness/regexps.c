// Regular expressions.
#import leak.c
#import proto.c
#import regexp9.c
#import utf

regexp9.Reprog *compile(char *kind, char *pattern) {
	switch (kind[0]) {
		case 'l': { return regexp9.regcomplit(pattern); }
		case 'd': { return regexp9.regcompnl(pattern); }
		default: { return regexp9.regcomp(pattern); }
	}
}

utf.Rune *decode(char *s) {
	size_t n = utf.runecount(s);
	utf.Rune *r = proto.alloc((n + 1) * sizeof(utf.Rune));
	char *p = s;
	for (size_t i = 0; i < n; i++) {
		p += utf.get_rune(&r[i], p);
	}
	return r;
}

void outoff(char *p, char *base) {
	if (!p) {
		proto.outi(-1);
		return;
	}
	proto.outi((int) (p - base));
}

void outroff(utf.Rune *p, utf.Rune *base) {
	if (!p) {
		proto.outi(-1);
		return;
	}
	proto.outi((int) (p - base));
}

// re kind pattern other text from to matches template room
void do_re() {
	char *kind = proto.arg(0);
	char *pattern = proto.str(1);
	char *other = proto.str(2);
	char *text = proto.str(3);
	int from = proto.num(4);
	int to = proto.num(5);
	int ms = proto.num(6);
	char *template = proto.str(7);
	int room = proto.num(8);
	regexp9.Resub *rs = proto.alloc(ms * sizeof(regexp9.Resub));
	char *dst = proto.alloc(room);
	size_t before = leak.now();
	regexp9.Reprog *re = compile(kind, pattern);
	regexp9.Reprog *re2 = compile(kind, other);
	int r = 0;
	if (ms == 0) {
		r = regexp9.regexec(re, text, NULL, 0);
		proto.outi(r);
	} else {
		if (from >= 0) {
			rs[0].s.sp = text + from;
		}
		if (to >= 0) {
			rs[0].e.ep = text + to;
		}
		r = regexp9.regexec(re, text, rs, ms);
		proto.outi(r);
		for (int i = 0; i < ms; i++) {
			outoff(rs[i].s.sp, text);
			outoff(rs[i].e.ep, text);
		}
	}
	if (r > 0 && room > 0) {
		regexp9.regsub(template, dst, room, rs, ms);
		proto.outstr(dst);
	}
	free(re);
	free(re2);
	proto.outb(leak.now() == before);
}

// The same with strings of runes, positions are in runes.
void do_rre() {
	char *kind = proto.arg(0);
	char *pattern = proto.str(1);
	char *other = proto.str(2);
	utf.Rune *text = decode(proto.str(3));
	int from = proto.num(4);
	int to = proto.num(5);
	int ms = proto.num(6);
	utf.Rune *template = decode(proto.str(7));
	int room = proto.num(8);
	regexp9.Resub *rs = proto.alloc(ms * sizeof(regexp9.Resub));
	utf.Rune *dst = proto.alloc(room * sizeof(utf.Rune));
	size_t before = leak.now();
	regexp9.Reprog *re = compile(kind, pattern);
	regexp9.Reprog *re2 = compile(kind, other);
	int r = 0;
	if (ms == 0) {
		r = regexp9.rregexec(re, text, NULL, 0);
		proto.outi(r);
	} else {
		if (from >= 0) {
			rs[0].s.rsp = text + from;
		}
		if (to >= 0) {
			rs[0].e.rep = text + to;
		}
		r = regexp9.rregexec(re, text, rs, ms);
		proto.outi(r);
		for (int i = 0; i < ms; i++) {
			outroff(rs[i].s.rsp, text);
			outroff(rs[i].e.rep, text);
		}
	}
	if (r > 0 && room > 0) {
		regexp9.rregsub(template, dst, room * (int) sizeof(utf.Rune), rs, ms);
		for (int i = 0; dst[i] > 0; i++) {
			proto.outi((int) dst[i]);
		}
	}
	free(re);
	free(re2);
	proto.outb(leak.now() == before);
}

int main() {
	while (proto.next()) {
		switch str (proto.cmd()) {
			case "re": { do_re(); }
			case "rre": { do_rre(); }
			default: { proto.unknown(); }
		}
		proto.end();
	}
	proto.release();
	return 0;
}
