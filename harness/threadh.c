#import os/threads
#import proto.c

#include <time.h>
#include <unistd.h>
#include <sched.h>

// Events of one run: kind, thread, item, ticks before, ticks after.
typedef {
	int kind, thread, item;
	uint64_t t0, t1;
} event_t;

typedef {
	threads.pipe_t *in, *out;
	int id, items, delay;
	uint32_t rnd;
	event_t *log;
	int nlog;
	int *values;
	bool last;
} worker_t;

int main() {
	while (proto.next()) {
		switch str (proto.cmd()) {
			case "pipe": { run_pipe(); }
			case "chain": { run_chain(); }
			case "full": { run_full(); }
			case "each": { run_each(); }
			case "mutex": { run_mutex(); }
			case "cond": { run_cond(); }
			case "join": { run_join(); }
			case "late": { run_late(); }
			default: { proto.unknown(); }
		}
		proto.end();
	}
	return 0;
}

typedef struct timespec timespec_t;

uint64_t ticks() {
	timespec_t t = {};
	OS.clock_gettime(OS.CLOCK_MONOTONIC, &t);
	return (uint64_t) t.tv_sec * (uint64_t) 1000000000 + (uint64_t) t.tv_nsec;
}

uint32_t rnd(worker_t *w) {
	w->rnd = w->rnd * (uint32_t) 1103515245 + (uint32_t) 12345;
	return (w->rnd >> 8) & (uint32_t) 65535;
}

void jitter(worker_t *w) {
	if (w->delay == 0) {
		return;
	}
	uint32_t x = rnd(w) % (uint32_t) 16;
	if (x == (uint32_t) 0) {
		OS.usleep(rnd(w) % (uint32_t) w->delay);
	} else if (x < (uint32_t) 4) {
		OS.sched_yield();
	}
}

void *producer(void *arg) {
	worker_t *w = arg;
	for (int i = 0; i < w->items; i++) {
		jitter(w);
		w->values[i] = w->id * 1000000 + i;
		event_t *e = &w->log[w->nlog++];
		e->kind = 1;
		e->thread = w->id;
		e->item = w->values[i];
		e->t0 = ticks();
		threads.pwrite(w->out, &w->values[i]);
		e->t1 = ticks();
	}
	return NULL;
}

void *consumer(void *arg) {
	worker_t *w = arg;
	while (true) {
		jitter(w);
		void *p = NULL;
		uint64_t t0 = ticks();
		if (!threads.pread(w->in, &p)) {
			break;
		}
		event_t *e = &w->log[w->nlog++];
		e->t1 = ticks();
		e->t0 = t0;
		e->kind = 2;
		e->thread = w->id;
		// what the producer stored has to be visible here
		int *v = p;
		e->item = *v;
		if (w->out) {
			threads.pwrite(w->out, p);
		}
	}
	return w;
}

void outlog(worker_t *w) {
	for (int i = 0; i < w->nlog; i++) {
		event_t *e = &w->log[i];
		printf(" %d:%d:%d:%zu:%zu", e->kind, e->thread, e->item, (size_t) e->t0, (size_t) e->t1);
	}
}

worker_t *workers(int n, total, delay, seed) {
	worker_t *w = OS.calloc(n, sizeof(worker_t));
	for (int i = 0; i < n; i++) {
		w[i].id = i;
		w[i].delay = delay;
		w[i].rnd = (uint32_t) (seed * 7919 + i * 104729 + 1);
		w[i].log = OS.calloc(total + 1, sizeof(event_t));
		w[i].values = OS.calloc(total + 1, sizeof(int));
	}
	return w;
}

void freeworkers(worker_t *w, int n) {
	for (int i = 0; i < n; i++) {
		free(w[i].log);
		free(w[i].values);
	}
	free(w);
}

// pipe <producers> <consumers> <items each> <delay> <seed>
void run_pipe() {
	int np = proto.num(0);
	int nc = proto.num(1);
	int items = proto.num(2);
	worker_t *ps = workers(np, items, proto.num(3), proto.num(4));
	worker_t *cs = workers(nc, items * np, proto.num(3), proto.num(4) + 1);
	threads.pipe_t *pipe = threads.newpipe();
	threads.thr_t **pt = OS.calloc(np, sizeof(threads.thr_t *));
	threads.thr_t **ct = OS.calloc(nc, sizeof(threads.thr_t *));
	for (int i = 0; i < nc; i++) {
		cs[i].in = pipe;
		ct[i] = threads.start(consumer, &cs[i]);
	}
	for (int i = 0; i < np; i++) {
		ps[i].out = pipe;
		ps[i].items = items;
		pt[i] = threads.start(producer, &ps[i]);
	}
	int bad = 0;
	for (int i = 0; i < np; i++) {
		bad += threads.wait(pt[i], NULL);
	}
	threads.pclose(pipe);
	for (int i = 0; i < nc; i++) {
		void *res = NULL;
		bad += threads.wait(ct[i], &res);
		if (res != &cs[i]) {
			bad += 1000;
		}
	}
	// a closed and drained pipe stays that way
	if (threads.pread(pipe, NULL)) {
		bad += 100000;
	}
	threads.freepipe(pipe);
	proto.outi(bad);
	for (int i = 0; i < np; i++) {
		outlog(&ps[i]);
	}
	for (int i = 0; i < nc; i++) {
		outlog(&cs[i]);
	}
	freeworkers(ps, np);
	freeworkers(cs, nc);
	free(pt);
	free(ct);
}

// chain <length> <items> <delay> <seed>: one thread per link
void run_chain() {
	int n = proto.num(0);
	int items = proto.num(1);
	worker_t *ws = workers(n + 1, items, proto.num(2), proto.num(3));
	threads.pipe_t **pipes = OS.calloc(n, sizeof(threads.pipe_t *));
	threads.thr_t **tt = OS.calloc(n + 1, sizeof(threads.thr_t *));
	for (int i = 0; i < n; i++) {
		pipes[i] = threads.newpipe();
	}
	ws[0].out = pipes[0];
	ws[0].items = items;
	tt[0] = threads.start(producer, &ws[0]);
	for (int i = 1; i <= n; i++) {
		ws[i].in = pipes[i - 1];
		if (i < n) {
			ws[i].out = pipes[i];
		}
		tt[i] = threads.start(consumer, &ws[i]);
	}
	for (int i = 0; i <= n; i++) {
		threads.wait(tt[i], NULL);
		if (i < n) {
			threads.pclose(pipes[i]);
		}
	}
	for (int i = 0; i < n; i++) {
		threads.freepipe(pipes[i]);
	}
	proto.outs("log");
	outlog(&ws[n]);
	freeworkers(ws, n + 1);
	free(pipes);
	free(tt);
}

// full <items>: how many writes go through with nobody reading
threads.mtx_t *full_lock = NULL;
int full_done = 0;

void *full_writer(void *arg) {
	worker_t *w = arg;
	for (int i = 0; i < w->items; i++) {
		threads.pwrite(w->out, &w->values[i]);
		threads.lock(full_lock);
		full_done++;
		threads.unlock(full_lock);
	}
	return NULL;
}

int progress() {
	threads.lock(full_lock);
	int n = full_done;
	threads.unlock(full_lock);
	return n;
}

void run_full() {
	int items = proto.num(0);
	full_lock = threads.mtx_new();
	full_done = 0;
	worker_t *w = workers(1, items, 0, 1);
	w->items = items;
	w->out = threads.newpipe();
	for (int i = 0; i < items; i++) {
		w->values[i] = i;
	}
	threads.thr_t *t = threads.start(full_writer, w);
	// wait until it stops moving
	int before = -1;
	int same = 0;
	while (same < 20) {
		OS.usleep(2000);
		int n = progress();
		if (n == before) {
			same++;
		} else {
			same = 0;
		}
		before = n;
	}
	proto.outi(before);
	int bad = 0;
	for (int i = 0; i < items; i++) {
		void *p = NULL;
		if (!threads.pread(w->out, &p) || p != &w->values[i]) {
			bad++;
		}
	}
	threads.wait(t, NULL);
	threads.pclose(w->out);
	if (threads.pread(w->out, NULL)) {
		bad++;
	}
	threads.freepipe(w->out);
	threads.mtx_free(full_lock);
	freeworkers(w, 1);
	proto.outi(bad);
}

typedef {
	threads.mtx_t *m;
	threads.cnd_t *c;
	int counter, inside, max, rounds, turn, parties, woken, failed;
	bool go;
} shared_t;

shared_t sh = {};

void *locker(void *arg) {
	worker_t *w = arg;
	for (int i = 0; i < sh.rounds; i++) {
		threads.lock(sh.m);
		sh.inside++;
		if (sh.inside > sh.max) {
			sh.max = sh.inside;
		}
		int c = sh.counter;
		jitter(w);
		sh.counter = c + 1;
		sh.inside--;
		threads.unlock(sh.m);
	}
	return arg;
}

// mutex <threads> <rounds> <delay> <seed>
void run_mutex() {
	int n = proto.num(0);
	memset(&sh, 0, sizeof(sh));
	sh.rounds = proto.num(1);
	sh.m = threads.mtx_new();
	worker_t *ws = workers(n, 1, proto.num(2), proto.num(3));
	threads.thr_t **tt = OS.calloc(n, sizeof(threads.thr_t *));
	for (int i = 0; i < n; i++) {
		tt[i] = threads.start(locker, &ws[i]);
	}
	for (int i = 0; i < n; i++) {
		threads.wait(tt[i], NULL);
	}
	threads.mtx_free(sh.m);
	freeworkers(ws, n);
	free(tt);
	proto.outi(sh.counter);
	proto.outi(sh.max);
}

void *turner(void *arg) {
	worker_t *w = arg;
	for (int i = 0; i < sh.rounds; i++) {
		jitter(w);
		threads.lock(sh.m);
		while (sh.turn != w->id) {
			if (!threads.unlock_wait_lock(sh.m, sh.c)) {
				sh.failed++;
			}
		}
		sh.counter = sh.counter * 31 % 1000003 + w->id;
		sh.turn = (sh.turn + 1) % sh.parties;
		if (!threads.wake_all(sh.c)) {
			sh.failed++;
		}
		threads.unlock(sh.m);
	}
	return NULL;
}

void *sleeper(void *arg) {
	worker_t *w = arg;
	threads.lock(sh.m);
	sh.inside++;
	while (sh.turn == 0) {
		if (!threads.unlock_wait_lock(sh.m, sh.c)) {
			sh.failed++;
		}
	}
	sh.turn--;
	sh.woken += w->id * 0 + 1;
	threads.unlock(sh.m);
	return NULL;
}

// cond <threads> <rounds> <delay> <seed>: threads take turns, then are woken one by one
void run_cond() {
	int n = proto.num(0);
	memset(&sh, 0, sizeof(sh));
	sh.rounds = proto.num(1);
	sh.parties = n;
	sh.m = threads.mtx_new();
	sh.c = threads.cnd_new();
	worker_t *ws = workers(n, 1, proto.num(2), proto.num(3));
	threads.thr_t **tt = OS.calloc(n, sizeof(threads.thr_t *));
	for (int i = 0; i < n; i++) {
		tt[i] = threads.start(turner, &ws[i]);
	}
	for (int i = 0; i < n; i++) {
		threads.wait(tt[i], NULL);
	}
	proto.outi(sh.counter);
	sh.turn = 0;
	sh.inside = 0;
	for (int i = 0; i < n; i++) {
		tt[i] = threads.start(sleeper, &ws[i]);
	}
	for (int i = 0; i < n; i++) {
		threads.lock(sh.m);
		sh.turn++;
		if (!threads.wake_one(sh.c)) {
			sh.failed++;
		}
		threads.unlock(sh.m);
		jitter(&ws[i]);
	}
	for (int i = 0; i < n; i++) {
		threads.wait(tt[i], NULL);
	}
	proto.outi(sh.woken);
	proto.outi(sh.failed);
	threads.cnd_free(sh.c);
	threads.mtx_free(sh.m);
	freeworkers(ws, n);
	free(tt);
}

void *giver(void *arg) {
	return arg;
}

bool detached = false;

void *detachee(void *arg) {
	shared_t *s = arg;
	threads.lock(s->m);
	detached = true;
	threads.unlock(s->m);
	return NULL;
}

// join <n>: every thread gives back its own argument
void run_join() {
	int n = proto.num(0);
	int *values = OS.calloc(n, sizeof(int));
	threads.thr_t **tt = OS.calloc(n, sizeof(threads.thr_t *));
	for (int i = 0; i < n; i++) {
		tt[i] = threads.start(giver, &values[i]);
	}
	int bad = 0;
	for (int i = n - 1; i >= 0; i--) {
		void *res = NULL;
		if (threads.wait(tt[i], &res) != 0 || res != &values[i]) {
			bad++;
		}
	}
	free(values);
	free(tt);
	memset(&sh, 0, sizeof(sh));
	sh.m = threads.mtx_new();
	detached = false;
	if (!threads.thr_detach(threads.start(detachee, &sh))) {
		bad++;
	}
	bool seen = false;
	while (!seen) {
		OS.usleep(1000);
		threads.lock(sh.m);
		seen = detached;
		threads.unlock(sh.m);
	}
	threads.mtx_free(sh.m);
	proto.outi(bad);
}

// Reads one item and leaves.
void *once_reader(void *arg) {
	worker_t *w = arg;
	void *p = NULL;
	jitter(w);
	if (!threads.pread(w->in, &p)) {
		return NULL;
	}
	return p;
}

// Writes one item and leaves.
void *once_writer(void *arg) {
	worker_t *w = arg;
	jitter(w);
	threads.pwrite(w->out, &w->values[0]);
	return NULL;
}

// each <threads> <delay> <seed>: every waiting reader gets its item, and every
// waiting writer gets through, without anybody coming back for more.
void run_each() {
	int n = proto.num(0);
	worker_t *ws = workers(n, 1, proto.num(1), proto.num(2));
	worker_t *main = workers(1, 1, proto.num(1), proto.num(2) + 1);
	threads.thr_t **tt = OS.calloc(n, sizeof(threads.thr_t *));
	threads.pipe_t *p = threads.newpipe();
	for (int i = 0; i < n; i++) {
		ws[i].in = p;
		tt[i] = threads.start(once_reader, &ws[i]);
	}
	if (proto.num(2) % 2 == 0) {
		OS.usleep(3000);
	}
	int x = 0;
	for (int i = 0; i < n; i++) {
		threads.pwrite(p, &x);
		jitter(main);
	}
	int bad = 0;
	for (int i = 0; i < n; i++) {
		void *res = NULL;
		threads.wait(tt[i], &res);
		if (res != &x) {
			bad++;
		}
	}
	// Now the pipe is empty: fill it and more.
	for (int i = 0; i < n; i++) {
		ws[i].out = p;
		ws[i].values[0] = i;
	}
	for (int i = 0; i < 31; i++) {
		threads.pwrite(p, &x);
	}
	for (int i = 0; i < n; i++) {
		tt[i] = threads.start(once_writer, &ws[i]);
	}
	if (proto.num(2) % 2 == 0) {
		OS.usleep(3000);
	}
	for (int i = 0; i < n; i++) {
		void *res = NULL;
		if (!threads.pread(p, &res)) {
			bad++;
		}
		jitter(main);
	}
	for (int i = 0; i < n; i++) {
		threads.wait(tt[i], NULL);
	}
	threads.pclose(p);
	int rest = 0;
	while (threads.pread(p, NULL)) {
		rest++;
	}
	threads.freepipe(p);
	freeworkers(ws, n);
	freeworkers(main, 1);
	free(tt);
	proto.outi(bad);
	proto.outi(rest);
}

// late <items>: writes to a pipe after it was closed
void run_late() {
	int n = proto.num(0);
	threads.pipe_t *p = threads.newpipe();
	int x = 0;
	for (int i = 0; i < n; i++) {
		threads.pwrite(p, &x);
	}
	threads.pclose(p);
	OS.fflush(OS.stdout);
	threads.pwrite(p, &x);
	threads.freepipe(p);
	proto.outi(1);
}
