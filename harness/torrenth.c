// Drives the modules of prog/torrent.
#import clip/vec
#import files.c
#import formats/torrent
#import leak.c
#import peerproto.c
#import proto.c
#import reader
#import writer

int main() {
	while (proto.next()) {
		char *c = proto.cmd();
		switch str (c) {
			case "list": { list(); }
			case "plen": { plen(); }
			case "read": { readslice(); }
			case "write": { writeslice(); }
			case "check": { check(); }
			case "whs": { whs(); }
			case "wreq": { wreq(); }
			case "wpiece": { wpiece(); }
			case "wbit": { wbit(); }
			case "wkeep": { wkeep(); }
			case "rhs": { rhs(); }
			default: { proto.unknown(); }
		}
		proto.end();
	}
	proto.release();
	leak.now();
	return 0;
}

torrent.info_t *load(size_t i) {
	size_t n = 0;
	char *data = (char *) proto.bytes(i, &n);
	return torrent.parse(data, n);
}

void list() {
	torrent.info_t *tf = load(0);
	vec.t *l = files.get_file_list(tf);
	for (size_t i = 0; i < vec.len(l); i++) {
		files.file_t *f = vec.index(l, i);
		proto.outstr(f->path);
		proto.outu(f->beginpos);
		proto.outu(f->endpos);
	}
	vec.free(l);
	torrent.free(tf);
}

void plen() {
	torrent.info_t *tf = load(0);
	size_t n = torrent.npieces(tf);
	for (size_t i = 0; i < n; i++) {
		proto.outu(files.get_piece_length(tf, i));
	}
	torrent.free(tf);
}

files.range_t range(size_t i) {
	files.range_t r = {
		.index = proto.size(i),
		.begin = proto.size(i + 1),
		.length = proto.size(i + 2)
	};
	return r;
}

void readslice() {
	torrent.info_t *tf = load(0);
	files.range_t r = range(2);
	uint8_t *buf = proto.alloc(r.length);
	bool ok = files.readslice(proto.str(1), tf, r, buf);
	proto.outb(ok);
	if (ok) proto.outhex(buf, r.length);
	torrent.free(tf);
}

void writeslice() {
	torrent.info_t *tf = load(0);
	files.range_t r = range(2);
	size_t n = 0;
	uint8_t *data = proto.bytes(5, &n);
	proto.outb(files.writeslice(proto.str(1), tf, r, data));
	torrent.free(tf);
}

void check() {
	torrent.info_t *tf = load(0);
	size_t n = torrent.npieces(tf);
	for (size_t i = 0; i < n; i++) {
		proto.outb(files.check_piece(proto.str(1), tf, i));
	}
	torrent.free(tf);
}

void finish(writer.t *w, uint8_t *buf, int r) {
	proto.outi(r);
	proto.outhex(buf, w->nwritten);
	writer.free(w);
}

void whs() {
	size_t n = 0;
	uint8_t *buf = proto.alloc(proto.size(2));
	writer.t *w = writer.static_buffer(buf, proto.size(2));
	finish(w, buf, peerproto.write_handshake(w, proto.bytes(0, &n), proto.bytes(1, &n)));
}

void wreq() {
	uint8_t *buf = proto.alloc(proto.size(3));
	writer.t *w = writer.static_buffer(buf, proto.size(3));
	finish(w, buf, peerproto.write_request(w, range(0)));
}

void wpiece() {
	size_t n = 0;
	uint8_t *data = proto.bytes(3, &n);
	uint8_t *buf = proto.alloc(proto.size(4));
	writer.t *w = writer.static_buffer(buf, proto.size(4));
	finish(w, buf, peerproto.write_piece(w, range(0), data));
}

void wbit() {
	torrent.info_t *tf = load(0);
	uint8_t *buf = proto.alloc(100000);
	writer.t *w = writer.static_buffer(buf, 100000);
	finish(w, buf, peerproto.write_bitfield(w, tf));
	torrent.free(tf);
}

void wkeep() {
	uint8_t buf[4] = {};
	writer.t *w = writer.static_buffer(buf, 4);
	finish(w, buf, peerproto.write_keepalive(w));
}

void rhs() {
	size_t n = 0;
	uint8_t *data = proto.bytes(0, &n);
	reader.t *r = reader.static_buffer(data, n);
	peerproto.handshake_t hs = {};
	int c = peerproto.read_handshake(r, &hs);
	proto.outi(c);
	if (c >= 0) {
		proto.outhex(hs.proto, 19);
		proto.outhex(hs.infohash, 20);
		proto.outhex(hs.peer_id, 20);
	}
	reader.free(r);
}
