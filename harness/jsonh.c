#import error
#import formats/json
#import leak.c
#import proto.c
#import writer

int main() {
	while (proto.next()) {
		switch str (proto.cmd()) {
			case "json": { run_json(); }
			case "put": { run_put(); }
			case "wstr": { run_wstr(); }
			default: { proto.unknown(); }
		}
		proto.end();
	}
	return 0;
}

void hexput(const char *s) {
	if (!s) {
		fputs("NULL", stdout);
		return;
	}
	while (*s != '\0') {
		printf("%02x", (uint8_t) *s);
		s++;
	}
}

// Prints a value using nothing but the getters.
void dump(json.val_t *v) {
	int t = json.type(v);
	if (t == json.TNULL) {
		putchar('n');
	} else if (t == json.TBOOL) {
		char *s = json.format(v);
		fputs(s, stdout);
		free(s);
	} else if (t == json.TNUM) {
		printf("N%.17g", json.numval(v));
	} else if (t == json.TSTR) {
		putchar('S');
		hexput(json.strval(v));
	} else if (t == json.TARR) {
		printf("[%zu", json.len(v));
		for (size_t i = 0; i < json.len(v); i++) {
			putchar(',');
			dump(json.val(v, i));
		}
		if (json.val(v, json.len(v))) {
			fputs("?over", stdout);
		}
		putchar(']');
	} else if (t == json.TOBJ) {
		printf("{%zu", json.len(v));
		for (size_t i = 0; i < json.len(v); i++) {
			putchar(',');
			hexput(json.key(v, i));
			putchar(':');
			json.val_t *x = json.val(v, i);
			dump(x);
			if (json.get(v, json.key(v, i)) != x) {
				fputs("?get", stdout);
			}
		}
		if (json.val(v, json.len(v)) || json.key(v, json.len(v))) {
			fputs("?over", stdout);
		}
		if (json.get(v, "no such key, surely")) {
			fputs("?phantom", stdout);
		}
		putchar('}');
	} else {
		printf("?type%d", t);
	}
}

// json <text> <output buffer size>
void run_json() {
	char *text = proto.str(0);
	size_t cap = proto.size(1);
	uint8_t *outbuf = proto.alloc(cap);
	size_t before = leak.now();
	error.t err = {};
	json.val_t *v = json.parse(text, &err);
	if (err.set) {
		proto.outs("err");
		proto.outb(v == NULL);
		proto.outstr(err.msg);
		if (v) {
			json.json_free(v);
		}
		proto.outb(leak.now() == before);
		return;
	}
	proto.outs("ok");
	proto.outs("");
	dump(v);
	char *s = json.format(v);
	proto.outstr(s);

	json.val_t *copy = json.clone(v);
	json.json_free(v);
	proto.outs("");
	dump(copy);

	if (strlen(s) <= cap) {
		writer.t *w = writer.static_buffer(outbuf, cap);
		json.formatwr(w, copy);
		proto.outb(memcmp(outbuf, s, strlen(s)) == 0);
		writer.free(w);
	} else {
		proto.outs("-");
	}
	json.json_free(copy);

	// back again
	v = json.parse(s, &err);
	free(s);
	if (err.set) {
		proto.outs("reparse");
		proto.outstr(err.msg);
	} else {
		proto.outs("");
		dump(v);
		json.json_free(v);
	}
	proto.outb(leak.now() == before);
}

// put <object text> <key> <value text> ...
void run_put() {
	size_t n = proto.count();
	char **args = proto.alloc(n * sizeof(char *));
	for (size_t i = 0; i < n; i++) {
		args[i] = proto.str(i);
	}
	size_t before = leak.now();
	error.t err = {};
	json.val_t *v = json.parse(args[0], &err);
	for (size_t i = 1; i + 1 < n; i += 2) {
		json.val_t *x = json.parse(args[i + 1], &err);
		bool ok = json.json_put(v, args[i], x);
		proto.outb(ok);
		if (!ok) {
			json.json_free(x);
		}
	}
	proto.outs("");
	dump(v);
	char *s = json.format(v);
	proto.outstr(s);
	free(s);
	json.json_free(v);
	proto.outb(leak.now() == before);
}

// wstr <text>
void run_wstr() {
	char *s = proto.str(0);
	char *path = proto.arg(1);
	FILE *f = fopen(path, "wb");
	json.write_string(f, s);
	fclose(f);
	f = fopen(path, "rb");
	size_t cap = strlen(s) * 8 + 100;
	char *buf = proto.alloc(cap);
	size_t n = fread(buf, 1, cap, f);
	fclose(f);
	proto.outhex(buf, n);
}
