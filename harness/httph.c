#import mime
#import protocols/cgi
#import protocols/http
#import reader
#import url
#import writer
#import leak.c
#import proto.c

int main() {
	while (proto.next()) {
		switch str (proto.cmd()) {
			case "req": { run_req(); }
			case "res": { run_res(); }
			case "write": { run_write(); }
			case "url": { run_url(); }
			case "cgi": { run_cgi(); }
			case "mime": { proto.outs(some(mime.lookup(proto.str(0)))); }
			case "method": { proto.outi(http.method_from_string(proto.str(0))); }
			default: { proto.unknown(); }
		}
		proto.end();
	}
	return 0;
}

const char *some(const char *s) {
	if (s) {
		return s;
	}
	return "-";
}

typedef {
	uint8_t *data;
	size_t n, pos, chunk;
} slow_t;

int slow_read(void *ctx, uint8_t *buf, size_t n) {
	slow_t *s = ctx;
	if (s->pos == s->n) {
		return 0;
	}
	size_t k = 0;
	while (k < n && k < s->chunk && s->pos < s->n) {
		buf[k++] = s->data[s->pos++];
	}
	return (int) k;
}

// req <chunk> <data> <header name>: reads requests until one is refused
void run_req() {
	size_t n = 0;
	uint8_t *data = proto.bytes(1, &n);
	char *name = proto.str(2);
	slow_t slow = { .data = data, .n = n, .chunk = proto.size(0) };
	http.request_t *r = proto.alloc(sizeof(http.request_t));
	memset(r, 7, sizeof(http.request_t));
	size_t m0 = leak.now();
	reader.t *re = reader.new(&slow, slow_read, NULL);
	while (true) {
		bool ok = http.read_request(re, r);
		proto.outb(ok);
		if (!ok) {
			break;
		}
		out_request(r, name);
	}
	reader.free(re);
	proto.outb(leak.now() == m0);
}

void out_request(http.request_t *r, char *name) {
	proto.outstr(r->method);
	proto.outstr(r->uri);
	proto.outstr(r->version);
	proto.outstr(r->path);
	proto.outstr(r->query);
	proto.outstr(r->filename);
	size_t n = r->nheaders;
	proto.outu(n);
	for (size_t i = 0; i < n; i++) {
		proto.outstr(r->headers[i].name);
		proto.outstr(r->headers[i].value);
	}
	http.header_t *h = http.get_header(r, name);
	if (h) {
		proto.outstr(h->value);
	} else {
		proto.outs("NULL");
	}
}

// res <chunk> <data> <body size> <header name>
void run_res() {
	size_t n = 0;
	uint8_t *data = proto.bytes(1, &n);
	slow_t slow = { .data = data, .n = n, .chunk = proto.size(0) };
	size_t bodysize = proto.size(2);
	char *name = proto.str(3);
	http.response_t *r = proto.alloc(sizeof(http.response_t));
	size_t m0 = leak.now();
	reader.t *re = reader.new(&slow, slow_read, NULL);
	bool ok = http.parse_response(re, r);
	reader.free(re);
	proto.outb(ok);
	if (ok) {
		proto.outstr(r->version);
		proto.outi(r->status);
		size_t k = r->nheaders;
		proto.outu(k);
		for (size_t i = 0; i < k; i++) {
			proto.outstr(r->headers[i].name);
			proto.outstr(r->headers[i].value);
		}
		proto.outstr(http.get_res_header(r, name));
		proto.outhex(r->body, bodysize);
	}
	proto.outb(leak.now() == m0);
}

// write <capacity> <method> <path> <p:name:value (text), b:name:value (bytes) or h:name:value> ...
void run_write() {
	size_t cap = proto.size(0);
	int method = proto.num(1);
	char *path = proto.str(2);
	size_t n = proto.count();
	char **names = proto.alloc(n * sizeof(char *));
	char **values = proto.alloc(n * sizeof(char *));
	size_t *lens = proto.alloc(n * sizeof(size_t));
	for (size_t i = 3; i < n; i++) {
		names[i] = proto.fieldstr(proto.arg(i), 1);
		if (proto.fieldis(proto.arg(i), 0, "b")) {
			values[i] = (char *) proto.fieldbytes(proto.arg(i), 2, &lens[i]);
		} else {
			values[i] = proto.fieldstr(proto.arg(i), 2);
		}
	}
	http.request_t *r = proto.alloc(sizeof(http.request_t));
	uint8_t *buf = proto.alloc(cap);
	size_t m0 = leak.now();
	if (!http.init_request(r, method, path)) {
		proto.outs("bad");
		proto.outs(http.errstr(r->err));
		return;
	}
	for (size_t i = 3; i < n; i++) {
		if (proto.fieldis(proto.arg(i), 0, "p")) {
			http.reqparams(r, names[i], values[i]);
		} else if (proto.fieldis(proto.arg(i), 0, "b")) {
			http.reqparam(r, names[i], values[i], lens[i]);
		} else {
			if (!http.set_header(r, names[i], values[i])) {
				proto.outs("noheader");
			}
		}
	}
	writer.t *w = writer.static_buffer(buf, cap);
	int len = http.write_request(w, r);
	writer.free(w);
	proto.outi(len);
	if (len > 0) {
		proto.outhex(buf, (size_t) len);
	}
	proto.outb(leak.now() == m0);
}

// url <text>
void run_url() {
	char *s = proto.str(0);
	size_t m0 = leak.now();
	url.t *u = url.parse(s);
	if (u) {
		proto.outstr(u->schema);
		proto.outstr(u->hostname);
		proto.outstr(u->port);
		proto.outstr(u->path);
		free(u);
	} else {
		proto.outs("NULL");
	}
	proto.outb(leak.now() == m0);
}

// cgi <data>
void run_cgi() {
	size_t n = 0;
	uint8_t *data = proto.bytes(0, &n);
	cgi.head_t *h = proto.alloc(sizeof(cgi.head_t));
	size_t r = cgi.parse_head(h, (char *) data, n);
	proto.outu(r);
	if (r > 0) {
		size_t k = h->nheaders;
		proto.outu(k);
		for (size_t i = 0; i < k; i++) {
			proto.outstr(h->headers[i].name);
			proto.outstr(h->headers[i].value);
		}
	}
}
