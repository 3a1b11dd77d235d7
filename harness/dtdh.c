#import formats/dtd
#import ipsum
#import rnd
#import proto.c

void outlist(dtd.child_list_t *l) {
	printf("%s", "(");
	for (int i = 0; i < l->size; i++) {
		if (i > 0) {
			if (l->jointype == '|') {
				printf("%s", "|");
			} else {
				printf("%s", ",");
			}
		}
		if (l->items[i].islist) {
			outlist(l->items[i].data);
		} else {
			dtd.child_t *c = l->items[i].data;
			printf("%s", c->name);
			quant(c->quantifier);
		}
	}
	printf("%s", ")");
	quant(l->quantifier);
}

void quant(char q) {
	char b[2] = {};
	b[0] = q;
	printf("%s", b);
}

void attrs(dtd.attlist_t *a) {
	if (!a) {
		printf("%s", "-");
		return;
	}
	printf("%s", a->host);
	for (int i = 0; i < a->size; i++) {
		printf("%s", "/");
		printf("%s", a->items[i].name);
		printf("%s", ".");
		printf("%d", a->items[i].type);
		printf("%s", ".");
		printf("%d", a->items[i].flag);
	}
}

int main() {
	while (proto.next()) {
		if (strcmp(proto.cmd(), "dtd") == 0) {
			dtd.schema_t s = dtd.parse(proto.str(0));
			for (int i = 0; i < s.elemnum; i++) {
				printf("%s", s.elements[i].name);
				outlist(s.elements[i].children);
				printf("%s", " ");
			}
			printf("%s", "#");
			for (int i = 0; i < s.attrnum; i++) {
				attrs(&s.attlists[i]);
				printf("%s", " ");
			}
			// lookups
			for (size_t i = 1; i < proto.count(); i++) {
				dtd.element_t *e = dtd.get_element(&s, proto.str(i));
				printf("%s", "#");
				if (e) {
					outlist(e->children);
				} else {
					printf("%s", "-");
				}
				printf("%s", "#");
				attrs(dtd.get_attributes(&s, proto.str(i)));
			}
			proto.end();
		} else if (strcmp(proto.cmd(), "dict") == 0) {
			// dict NAME ENTRY...: strings live as long as the process
			char *name = OS.strdup(proto.str(0));
			size_t n = proto.count() - 1;
			char **list = calloc!(n, sizeof(char *));
			for (size_t i = 0; i < n; i++) {
				list[i] = OS.strdup(proto.str(i + 1));
			}
			ipsum.add_dict(name, n, list);
			printf("%s", "ok");
			proto.end();
		} else if (strcmp(proto.cmd(), "seed") == 0) {
			rnd.seed(proto.size(0));
			printf("%s", "ok");
			proto.end();
		} else if (strcmp(proto.cmd(), "emit") == 0) {
			// emit COUNT TEXT
			size_t n = proto.size(0);
			char *s = proto.str(1);
			for (size_t i = 0; i < n; i++) {
				printf("%s", "[");
				ipsum.emit(s);
				printf("%s", "]");
			}
			proto.end();
		} else {
			proto.unknown();
		}
	}
	return 0;
}
