#import formats/xml

// xmlwalk FILE walk NAME... | xmlwalk FILE script OP...
// Prints what the cursor shows, one line per observation, each starting with
// an '@', because the parser itself reports errors on the standard output.

char **names = NULL;
int nnames = 0;

void show(xml.xml *x, int depth) {
	const char *n = xml.xml_nodename(x);
	if (!n) {
		printf("@%d -\n", depth);
		return;
	}
	printf("@%d %s", depth, n);
	for (int i = 0; i < nnames; i++) {
		const char *v = xml.xml_attr(x, names[i]);
		if (v) {
			printf(" %s=", names[i]);
			while (*v != '\0') {
				int c = (int) *v;
				printf("%02x", c & 255);
				v++;
			}
			printf(";");
		}
	}
	printf("\n");
}

void walk(xml.xml *x, int depth) {
	while (xml.xml_nodename(x)) {
		show(x, depth);
		if (xml.xml_enter(x)) {
			walk(x, depth + 1);
			xml.xml_leave(x);
		} else {
			xml.xml_next(x);
		}
	}
}

int main(int argc, char **argv) {
	if (argc < 3) {
		return 60;
	}
	xml.xml *x = xml.xml_open(argv[1]);
	if (strcmp(argv[2], "walk") == 0) {
		names = argv + 3;
		nnames = argc - 3;
		walk(x, 0);
		printf("@end\n");
	} else {
		names = argv + 4;
		nnames = argc - 4;
		int depth = 0;
		const char *s = argv[3];
		show(x, depth);
		while (*s != '\0') {
			if (*s == 'e') {
				bool ok = xml.xml_enter(x);
				if (ok) {
					depth++;
				}
				printf("@e %d\n", (int) ok);
			} else if (*s == 'n') {
				xml.xml_next(x);
			} else {
				xml.xml_leave(x);
				depth--;
			}
			show(x, depth);
			s++;
		}
		printf("@end\n");
	}
	xml.xml_close(x);
	return 0;
}
