#import os/threads
#import leak.c
#import proto.c

// cycle <items>: a pipe's whole life on one thread
int main() {
	while (proto.next()) {
		int n = proto.num(0);
		int x = 0;
		size_t m0 = leak.now();
		threads.pipe_t *p = threads.newpipe();
		threads.mtx_t *m = threads.mtx_new();
		threads.cnd_t *c = threads.cnd_new();
		int bad = 0;
		for (int i = 0; i < n; i++) {
			threads.pwrite(p, &x);
		}
		threads.pclose(p);
		for (int i = 0; i < n; i++) {
			void *got = NULL;
			if (!threads.pread(p, &got) || got != &x) {
				bad++;
			}
		}
		if (threads.pread(p, NULL)) {
			bad++;
		}
		threads.wake_one(c);
		threads.wake_all(c);
		if (!threads.lock(m) || !threads.unlock(m)) {
			bad++;
		}
		threads.cnd_free(c);
		threads.mtx_free(m);
		threads.freepipe(p);
		proto.outi(bad);
		proto.outb(leak.now() == m0);
		proto.end();
	}
	return 0;
}
