// Declares the options described by argv[1] and parses the rest.
#import opt
#import proto.c

typedef {
	char kind;
	char name[2];
	char *s;
	int i;
	bool b;
	size_t z;
	float f;
} slot_t;

slot_t slots[64] = {};
size_t nslots = 0;

int report(int code, int argc, char **argv) {
	proto.outs("cmd");
	proto.outi(code);
	proto.outi(argc);
	for (int i = 0; i < argc; i++) {
		proto.outstr(argv[i]);
	}
	proto.end();
	return code;
}

int c0(int argc, char **argv) { return report(10, argc, argv); }
int c1(int argc, char **argv) { return report(11, argc, argv); }
int c2(int argc, char **argv) { return report(12, argc, argv); }

void commands(char *spec) {
	char *p = spec + 1;
	int k = 0;
	while (*p != '\0') {
		char *name = p;
		while (*p != '\0' && *p != ',') p++;
		if (*p == ',') {
			*p = '\0';
			p++;
		}
		if (k % 3 == 0) opt.addcmd(name, c0);
		if (k % 3 == 1) opt.addcmd(name, c1);
		if (k % 3 == 2) opt.addcmd(name, c2);
		k++;
	}
}

// spec: pairs of kind and name, then optionally "=N" for the number of arguments.
int main(int argc, char **argv) {
	char *spec = argv[1];
	if (spec[0] == '!') {
		commands(spec);
		return opt.dispatch(argc - 1, argv + 1);
	}
	opt.summary("Frobs widgets.");
	char *p = spec;
	while (*p != '\0' && *p != '=') {
		slot_t *s = &slots[nslots++];
		s->kind = p[0];
		s->name[0] = p[1];
		s->s = "dflt";
		s->i = -7;
		s->z = 77;
		s->f = 2.5;
		switch (s->kind) {
			case 's': { opt.str(s->name, "a text", &s->s); }
			case 'i': { opt.opt_int(s->name, "an integer", &s->i); }
			case 'b': { opt.flag(s->name, "a switch", &s->b); }
			case 'z': { opt.size(s->name, "a size", &s->z); }
			default: { opt.opt_float(s->name, "a fraction", &s->f); }
		}
		p += 2;
	}
	if (*p == '=') {
		int n = 0;
		sscanf(p + 1, "%d", &n);
		if (p[1] == '0') {
			opt.nargs((size_t) n, "");
		} else {
			opt.nargs((size_t) n, "<things>");
		}
	}
	char **args = opt.parse(argc - 1, argv + 1);
	proto.outs("ok");
	for (size_t i = 0; i < nslots; i++) {
		slot_t *s = &slots[i];
		switch (s->kind) {
			case 's': { proto.outstr(s->s); }
			case 'i': { proto.outi(s->i); }
			case 'b': { proto.outb(s->b); }
			case 'z': { proto.outu(s->z); }
			default: { proto.outd((double) s->f); }
		}
	}
	proto.outs("|");
	while (*args) {
		proto.outstr(*args);
		args++;
	}
	proto.end();
	return 0;
}
