// Times, durations and cue sheets.
#import error
#import formats/cue
#import formats/srt
#import leak.c
#import proto.c
#import time
#include <sys/time.h>
#include <time.h>

typedef struct timespec timespec_t;
typedef struct timeval timeval_t;

void out64(int64_t n) {
	char buf[40] = {};
	snprintf(buf, sizeof(buf), "%ld", n);
	proto.outs(buf);
}

int64_t arg64(size_t i) {
	return (int64_t) OS.strtoll(proto.arg(i), NULL, 10);
}

void outiso(time.iso_t t) {
	proto.outi(t.Y);
	proto.outi(t.M);
	proto.outi(t.D);
	proto.outi(t.h);
	proto.outi(t.m);
	proto.outi(t.s);
	proto.outi(t.ms);
	proto.outi(t.zh);
	proto.outi(t.zm);
}

void c_durfmt() {
	time.duration_t d = time.newdur(arg64(0), time.US);
	char *fmt = proto.str(1);
	size_t n = proto.size(2);
	char *buf = proto.alloc(n);
	if (time.dur_fmt(&d, buf, n, fmt)) {
		proto.outstr(buf);
	} else {
		proto.outs("small");
	}
}

void c_durparse() {
	char *s = proto.str(0);
	time.duration_t d = {};
	error.t err = {};
	bool ok = time.parse_duration(s, &d, &err);
	proto.outb(ok);
	proto.outb(err.set);
	out64(time.dur_us(&d));
}

void c_durops() {
	int64_t a = arg64(0);
	int64_t b = arg64(1);
	time.duration_t x = {};
	time.dur_set(&x, a, time.MS);
	time.duration_t y = time.newdur(b, time.SECONDS);
	time.duration_t z = time.newdur(b, time.MINUTES);
	out64(time.dur_us(&x));
	out64(time.dur_us(&y));
	out64(time.dur_us(&z));
	time.duration_t s = time.dur_add(x, y);
	out64(time.dur_us(&s));
}

void c_iso() {
	time.iso_t t = time.parse_iso(proto.str(0));
	outiso(t);
	size_t n = proto.size(1);
	char *buf = proto.alloc(n);
	if (time.fmt_iso_iso(t, buf, n)) {
		proto.outstr(buf);
	} else {
		proto.outs("small");
	}
	time.iso_tolocal(&t);
	outiso(t);
}

void c_cue() {
	char *text = proto.str(0);
	size_t m = leak.now();
	cue.err_t err = {};
	cue.cue_t *c = cue.parse(text, &err);
	if (!c) {
		proto.outs("error");
		proto.outb(err.set);
		proto.outb(leak.now() == m);
		return;
	}
	int n = cue.cue_ntracks(c);
	proto.outi(n);
	for (int i = 0; i < n; i++) {
		cue.track_t *t = cue.cue_track(c, i);
		out64(cue.pos_us(t));
		proto.outstr(t->title);
	}
	proto.outb(cue.cue_track(c, n) == NULL && cue.cue_track(c, -1) == NULL);
	cue.cue_free(c);
	proto.outb(leak.now() == m);
}

int64_t clockus() {
	timeval_t tv = {};
	OS.gettimeofday(&tv, NULL);
	return (int64_t) tv.tv_sec * 1000000 + (int64_t) tv.tv_usec;
}

// The current time between two readings of the clock.
void c_clock() {
	int64_t a = clockus();
	time.iso_t t = time.now();
	int64_t b = clockus();
	out64(a);
	outiso(t);
	out64(b);
}

void c_sleep() {
	int64_t dt = arg64(0);
	timespec_t a = {};
	OS.clock_gettime(OS.CLOCK_MONOTONIC, &a);
	proto.outb(time.sleep(dt));
	timespec_t b = {};
	OS.clock_gettime(OS.CLOCK_MONOTONIC, &b);
	out64(((int64_t) b.tv_sec - (int64_t) a.tv_sec) * 1000000000 + (int64_t) b.tv_nsec - (int64_t) a.tv_nsec);
}

int main() {
	while (proto.next()) {
		switch str (proto.cmd()) {
			case "durfmt": { c_durfmt(); }
			case "durparse": { c_durparse(); }
			case "durops": { c_durops(); }
			case "iso": { c_iso(); }
			case "sub": { out64(time.sub(time.parse_iso(proto.str(0)), time.parse_iso(proto.str(1)))); }
			case "unix": { outiso(time.fromunix(arg64(0))); }
			case "now": { outiso(time.now()); }
			case "clock": { c_clock(); }
			case "sleep": { c_sleep(); }
			case "srtpos": { out64(srt.parsepos(proto.str(0)).us); }
			case "cue": { c_cue(); }
			default: { proto.unknown(); }
		}
		proto.end();
	}
	return 0;
}
