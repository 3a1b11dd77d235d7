// Files, processes and network connections.
#import leak.c
#import os/fs
#import os/net
#import os/proc
#import os/self
#import proto.c
#import reader
#import writer

#include <sys/resource.h>
#include <unistd.h>

typedef {
	int i, ms, how;
	char *path;
} job_t;

int openfds() {
	fs.dir_t *d = fs.dir_open("/proc/self/fd");
	int n = 0;
	while (fs.dir_next(d)) {
		n++;
	}
	fs.dir_close(d);
	return n;
}

// Everything until the end, in reads of the given size.
char *slurp(reader.t *r, size_t chunk, size_t *len) {
	size_t cap = 0;
	size_t n = 0;
	char *data = NULL;
	uint8_t *tmp = calloc(chunk, 1);
	while (true) {
		int k = reader.read(r, tmp, chunk);
		if (k <= 0) {
			break;
		}
		if (n + (size_t) k > cap) {
			cap = (n + (size_t) k) * 2;
			data = realloc(data, cap);
		}
		memcpy(data + n, tmp, (size_t) k);
		n += (size_t) k;
	}
	free(tmp);
	*len = n;
	return data;
}

bool writeall(writer.t *w, uint8_t *data, size_t n) {
	size_t done = 0;
	while (done < n) {
		int k = writer.write(w, data + done, n - done);
		if (k <= 0) {
			return false;
		}
		done += (size_t) k;
	}
	return true;
}

void c_readfile() {
	char *path = proto.str(0);
	size_t n = 12345;
	char *d = fs.readfile(path, &n);
	if (!d) {
		proto.outs("fail");
	} else {
		proto.outhex(d, n);
	}
	free(d);
	char *s = fs.readfile_str(path);
	if (!s) {
		proto.outs("fail");
	} else {
		proto.outhex(s, strlen(s));
	}
	free(s);
}

void c_bigfile() {
	char *s = fs.readfile_str(proto.str(0));
	if (s) {
		proto.outu(strlen(s));
	} else {
		proto.outs("fail");
	}
}

void c_writefile() {
	char *path = proto.str(0);
	size_t n = 0;
	uint8_t *d = proto.bytes(1, &n);
	proto.outb(fs.writefile(path, (char *) d, n));
}

void c_stat() {
	char *path = proto.str(0);
	size_t n = 0;
	bool ok = fs.filesize(path, &n);
	proto.outb(ok);
	proto.outu(n);
	proto.outb(fs.is_dir(path));
	proto.outb(fs.file_exists(path));
}

void c_list() {
	fs.dir_t *d = fs.dir_open(proto.str(0));
	if (!d) {
		proto.outs("fail");
		return;
	}
	while (true) {
		const char *s = fs.dir_next(d);
		if (!s) {
			break;
		}
		proto.outstr(s);
	}
	proto.outs(".");
	fs.dir_close(d);
}

void c_realpath() {
	char *path = proto.str(0);
	size_t n = proto.size(1);
	char *buf = proto.alloc(n);
	if (fs.realpath(path, buf, n)) {
		proto.outstr(buf);
	} else {
		proto.outs("fail");
	}
}

void c_names() {
	char *path = proto.str(0);
	size_t n = proto.size(1);
	char *buf = proto.alloc(n);
	proto.outstr(fs.basename(path));
	proto.outstr(fs.fileext(path));
	if (fs.dirname(path, buf, n)) {
		proto.outstr(buf);
	} else {
		proto.outs("fail");
	}
}

void c_self() {
	size_t n = proto.size(0);
	char *name = proto.str(1);
	char *buf = proto.alloc(n);
	if (self.getcwd(buf, n)) {
		proto.outstr(buf);
	} else {
		proto.outs("fail");
	}
	proto.outstr(self.getenv(name));
	char host[300] = {};
	proto.outb(self.gethostname(host, sizeof(host)));
	proto.outstr(host);
}

// Word 0: arguments, word 1: environment, 2: input, 3: size of reads, 4: what to read first
void c_spawn() {
	char *argw = proto.arg(0);
	char *envw = proto.arg(1);
	size_t inlen = 0;
	uint8_t *in = proto.bytes(2, &inlen);
	size_t chunk = proto.size(3);
	int order = proto.num(4);
	char *argv[20] = {};
	char *env[20] = {};
	size_t na = proto.fieldsize(argw, 0);
	for (size_t i = 0; i < na; i++) {
		argv[i] = proto.fieldstr(argw, i + 1);
	}
	size_t ne = proto.fieldsize(envw, 0);
	for (size_t i = 0; i < ne; i++) {
		env[i] = proto.fieldstr(envw, i + 1);
	}
	int fds = openfds();
	proto.outs("start");
	proc.proc_t *p = proc.spawn(argv, env);
	if (!p) {
		proto.outs("fail");
		return;
	}
	bool ok = writeall(p->stdin, in, inlen);
	writer.free(p->stdin);
	size_t outlen = 0;
	size_t errlen = 0;
	char *out = NULL;
	char *err = NULL;
	if (order == 0) {
		out = slurp(p->stdout, chunk, &outlen);
		err = slurp(p->stderr, chunk, &errlen);
	} else {
		err = slurp(p->stderr, chunk, &errlen);
		out = slurp(p->stdout, chunk, &outlen);
	}
	int status = -1;
	bool waited = proc.wait(p, &status);
	proto.outb(ok);
	proto.outb(waited);
	proto.outi(status);
	proto.outhex(out, outlen);
	proto.outhex(err, errlen);
	proto.outi(openfds() - fds);
	free(out);
	free(err);
}

// Several processes at once, finished in some order; each is a cat with its own input.
void c_many() {
	size_t n = proto.size(0);
	char *cat = proto.str(1);
	char *argv[] = {cat, NULL};
	char *env[] = {NULL};
	proc.proc_t *pp[10] = {};
	int fds = openfds();
	for (size_t i = 0; i < n; i++) {
		pp[i] = proc.spawn(argv, env);
		if (!pp[i]) {
			proto.outs("fail");
			return;
		}
	}
	for (size_t i = 0; i < n; i++) {
		uint8_t b = (uint8_t) (65 + i);
		writeall(pp[i]->stdin, &b, 1);
	}
	// The ends of input are given one by one, in the order of starting.
	for (size_t i = 0; i < n; i++) {
		writer.free(pp[i]->stdin);
		size_t len = 0;
		char *s = slurp(pp[i]->stdout, 10, &len);
		proto.outhex(s, len);
		free(s);
		int status = -1;
		bool ok = proc.wait(pp[i], &status);
		proto.outb(ok && status == 0);
	}
	proto.outi(openfds() - fds);
}

int work(void *arg) {
	job_t *j = arg;
	FILE *f = fopen(j->path, "a");
	fprintf(f, "+%d\n", j->i);
	fclose(f);
	OS.usleep(j->ms * 1000);
	if (j->how == 9) {
		OS.raise(OS.SIGKILL);
	}
	f = fopen(j->path, "a");
	fprintf(f, "-%d\n", j->i);
	fclose(f);
	return j->how;
}

void c_parallel() {
	char *path = proto.str(0);
	size_t n = proto.count() - 1;
	void **list = proto.alloc((n + 1) * sizeof(void *));
	for (size_t i = 0; i < n; i++) {
		job_t *j = proto.alloc(sizeof(job_t));
		j->i = (int) i;
		j->path = path;
		j->ms = proto.fieldint(proto.arg(i + 1), 0);
		j->how = proto.fieldint(proto.arg(i + 1), 1);
		list[i] = j;
	}
	proto.outs("began");
	proc.parallel(work, list);
	// What the jobs have left when the call returns.
	char *s = fs.readfile_str(path);
	proto.outstr(s);
	free(s);
}

void c_addr() {
	char *s = proto.str(0);
	size_t n = proto.size(1);
	char *buf = proto.alloc(n);
	net.ip_addr_t a = {};
	if (!net.parse_addr(&a, s)) {
		proto.outs("fail");
		return;
	}
	proto.outi(a.v);
	proto.outhex(a.data, 16);
	if (net.format_addr(&a, buf, n)) {
		proto.outstr(buf);
	} else {
		proto.outs("fail");
	}
}

// Attempts that fail: what they return and what they leave open.
void c_refused() {
	char *how = proto.arg(0);
	char *protocol = proto.str(1);
	char *addr = proto.str(2);
	int fds = openfds();
	size_t m = leak.now();
	int ok = 0;
	for (int i = 0; i < 20; i++) {
		net.net_t *c = NULL;
		if (strcmp(how, "listen") == 0) {
			c = net.net_listen(protocol, addr);
		} else {
			c = net.connect(protocol, addr);
		}
		if (c) {
			ok++;
			net.close(c);
		}
	}
	size_t m2 = leak.now();
	proto.outi(ok);
	proto.outi(openfds() - fds);
	// The resolver keeps things of its own, but not per attempt.
	proto.outb(m2 < m + 4000);
}

// Connects, sends the data, reads everything, through a reader or directly.
void c_client() {
	char *addr = proto.str(0);
	size_t n = 0;
	uint8_t *data = proto.bytes(1, &n);
	size_t chunk = proto.size(2);
	int how = proto.num(3);
	int fds = openfds();
	net.net_t *c = net.connect("tcp", addr);
	if (!c) {
		proto.outs("fail");
		return;
	}
	size_t done = 0;
	while (done < n) {
		int k = net.write(c, (char *) data + done, n - done);
		if (k <= 0) {
			break;
		}
		done += (size_t) k;
	}
	if (how == 2) {
		net.net_printf(c, "%s-%d-%c", "tail", 42, 'x');
	}
	char *got = NULL;
	size_t len = 0;
	if (how == 1) {
		reader.t *r = net.getreader(c);
		got = slurp(r, chunk, &len);
		reader.free(r);
	} else {
		size_t cap = 1 << 22;
		got = calloc(cap, 1);
		while (len + chunk <= cap) {
			int k = net.read(c, got + len, chunk);
			if (k <= 0) {
				break;
			}
			len += (size_t) k;
		}
	}
	proto.outs(net.net_addr(c));
	net.close(c);
	proto.outu(done);
	proto.outhex(got, len);
	proto.outi(openfds() - fds);
	free(got);
}

// Accepts some clients one after another and echoes what they send.
void c_server() {
	char *addr = proto.str(0);
	size_t n = proto.size(1);
	size_t chunk = proto.size(2);
	int fds = openfds();
	net.net_t *l = net.net_listen("tcp", addr);
	if (!l) {
		proto.outs("fail");
		return;
	}
	for (size_t i = 0; i < n; i++) {
		net.net_t *c = net.net_accept(l);
		if (!c) {
			proto.outs("noaccept");
			continue;
		}
		proto.outs(net.net_addr(c));
		char *buf = calloc(chunk, 1);
		while (true) {
			int k = net.read(c, buf, chunk);
			if (k <= 0) {
				break;
			}
			int done = 0;
			while (done < k) {
				int w = net.write(c, buf + done, (size_t) (k - done));
				if (w <= 0) {
					break;
				}
				done += w;
			}
			if (done < k) {
				break;
			}
		}
		free(buf);
		net.close(c);
	}
	net.close(l);
	proto.outi(openfds() - fds);
}

typedef struct rlimit rlimit_t;

// Tries everything that needs descriptors with just k of them left.
void c_starve() {
	int k = proto.num(0);
	char *path = proto.str(1);
	char *cat = proto.str(2);
	char *missing = proto.str(3);
	char *addr = proto.str(4);
	int fds = openfds();
	rlimit_t old = {};
	rlimit_t low = {};
	OS.getrlimit(OS.RLIMIT_NOFILE, &old);
	low = old;
	low.rlim_cur = 60;
	OS.setrlimit(OS.RLIMIT_NOFILE, &low);
	int taken[100] = {};
	int n = 0;
	while (n < 100) {
		int fd = OS.dup(0);
		if (fd < 0) {
			break;
		}
		taken[n++] = fd;
	}
	for (int i = 0; i < k; i++) {
		OS.close(taken[--n]);
	}
	char *argv[] = {cat, NULL};
	char *env[] = {NULL};
	int started = 0;
	for (int round = 0; round < 3; round++) {
		proc.proc_t *p = proc.spawn(argv, env);
		if (p) {
			started++;
			writer.free(p->stdin);
			proc.wait(p, NULL);
		}
	}
	int read = 0;
	int wrote = 0;
	int listed = 0;
	int connected = 0;
	for (int round = 0; round < 3; round++) {
		char *d = fs.readfile_str(path);
		if (d) {
			read++;
		}
		free(d);
		if (fs.writefile(missing, "x", 1)) {
			wrote++;
			fs.unlink(missing);
		}
		fs.dir_t *dir = fs.dir_open("/");
		if (dir) {
			listed++;
			fs.dir_close(dir);
		}
		net.net_t *l = net.net_listen("tcp", addr);
		if (l) {
			connected++;
			net.close(l);
		}
	}
	while (n > 0) {
		OS.close(taken[--n]);
	}
	OS.setrlimit(OS.RLIMIT_NOFILE, &old);
	proto.outi(started);
	proto.outi(read);
	proto.outi(wrote);
	proto.outi(listed);
	proto.outi(connected);
	proto.outi(openfds() - fds);
}

int main() {
	while (proto.next()) {
		int fds = openfds();
		switch str (proto.cmd()) {
			case "readfile": { c_readfile(); }
			case "bigfile": { c_bigfile(); }
			case "writefile": { c_writefile(); }
			case "stat": { c_stat(); }
			case "list": { c_list(); }
			case "unlink": { proto.outb(fs.unlink(proto.str(0))); }
			case "realpath": { c_realpath(); }
			case "names": { c_names(); }
			case "self": { c_self(); }
			case "spawn": { c_spawn(); }
			case "many": { c_many(); }
			case "parallel": { c_parallel(); }
			case "addr": { c_addr(); }
			case "refused": { c_refused(); }
			case "client": { c_client(); }
			case "server": { c_server(); }
			case "starve": { c_starve(); }
			default: { proto.unknown(); }
		}
		if (proto.cmd()[0] != 's' && openfds() != fds) {
			proto.outs("descriptors stay open");
		}
		proto.end();
	}
	return 0;
}
