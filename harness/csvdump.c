#import formats/csv

// Prints the table on stdin, a line per row, values in hex.
// With an argument reads at most that many values of each row.
int main(int argc, char *argv[]) {
	size_t limit = 1000000;
	if (argc > 1) {
		limit = (size_t) OS.strtoull(argv[1], NULL, 10);
	}
	csv.reader_t *r = csv.newreader();
	while (true) {
		size_t n = 0;
		while (n < limit && csv.readval(r)) {
			const uint8_t *s = (uint8_t *) csv.val(r);
			putchar('=');
			while (*s != 0) {
				printf("%02x", *s);
				s++;
			}
			putchar(' ');
			n++;
		}
		printf("\n");
		if (!csv.nextline(r)) {
			break;
		}
	}
	csv.freereader(r);
	return 0;
}
