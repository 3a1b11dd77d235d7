// Images and sound clips.
#import formats/bmp
#import formats/png
#import formats/ppm
#import formats/wav
#import image
#import leak.c
#import proto.c
#import sound

image.rgba_t color(char *w, size_t j) {
	image.rgba_t c = {
		.red = proto.fieldint(w, j),
		.green = proto.fieldint(w, j + 1),
		.blue = proto.fieldint(w, j + 2),
		.transparency = proto.fieldint(w, j + 3),
	};
	return c;
}

void outcolor(image.rgba_t c) {
	char buf[100] = {};
	snprintf(buf, sizeof(buf), "%d,%d,%d,%d", c.red, c.green, c.blue, c.transparency);
	proto.outs(buf);
}

// Reads an image: width, height, 4 bytes per pixel.
image.image_t *load(int w, h, uint8_t *px) {
	image.image_t *img = image.new(w, h);
	size_t p = 0;
	for (int y = 0; y < h; y++) {
		for (int x = 0; x < w; x++) {
			image.rgba_t c = {.red = px[p], .green = px[p+1], .blue = px[p+2], .transparency = px[p+3]};
			p += 4;
			image.set(img, x, y, c);
		}
	}
	return img;
}

void dump(image.image_t *img) {
	proto.outi(img->width);
	proto.outi(img->height);
	size_t n = (size_t) img->width * (size_t) img->height * 4;
	uint8_t *px = proto.alloc(n);
	size_t p = 0;
	for (int y = 0; y < img->height; y++) {
		for (int x = 0; x < img->width; x++) {
			image.rgba_t c = image.get(img, x, y);
			px[p++] = c.red;
			px[p++] = c.green;
			px[p++] = c.blue;
			px[p++] = c.transparency;
		}
	}
	proto.outhex(px, n);
}

void invert(image.rgba_t *c) {
	c->red = 255 - c->red;
	c->green = c->blue;
	c->blue = 7;
}

// img w h pixels op...
void c_img() {
	size_t len = 0;
	uint8_t *px = proto.bytes(2, &len);
	size_t m = leak.now();
	image.image_t *img = load(proto.num(0), proto.num(1), px);
	for (size_t i = 3; i < proto.count(); i++) {
		char *w = proto.arg(i);
		if (proto.fieldis(w, 0, "set")) {
			image.set(img, proto.fieldint(w, 1), proto.fieldint(w, 2), color(w, 3));
		} else if (proto.fieldis(w, 0, "get")) {
			outcolor(image.get(img, proto.fieldint(w, 1), proto.fieldint(w, 2)));
		} else if (proto.fieldis(w, 0, "fill")) {
			image.fill(img, color(w, 1));
		} else if (proto.fieldis(w, 0, "clear")) {
			image.clear(img);
		} else if (proto.fieldis(w, 0, "blend")) {
			image.blend(img, proto.fieldint(w, 1), proto.fieldint(w, 2), color(w, 3), proto.fielddbl(w, 7));
		} else if (proto.fieldis(w, 0, "invert")) {
			image.apply(img, invert);
		} else if (proto.fieldis(w, 0, "test")) {
			image.testimage(img);
		} else if (proto.fieldis(w, 0, "explode")) {
			image.image_t *big = image.explode(img, proto.fieldint(w, 1));
			image.free(img);
			img = big;
		} else if (proto.fieldis(w, 0, "paste")) {
			image.image_t *p = image.new(proto.fieldint(w, 3), proto.fieldint(w, 4));
			image.fill(p, color(w, 5));
			image.set(p, 0, 0, image.white());
			image.paste(img, p, proto.fieldint(w, 1), proto.fieldint(w, 2));
			image.free(p);
		} else {
			proto.unknown();
		}
	}
	// (the copy made by dump stays until the request ends)
	size_t held = leak.now();
	dump(img);
	held = leak.now() - held;
	image.free(img);
	proto.outb(leak.now() - held == m);
}

void c_colormap() {
	image.colormap_t cm = {};
	cm.color_width = proto.num(0);
	cm.size = proto.count() - 1;
	for (size_t i = 0; i < cm.size; i++) {
		cm.colors[i] = color(proto.arg(i + 1), 0);
	}
	image.image_t *img = image.colormap_image(&cm);
	dump(img);
	image.free(img);
}

// write format mode path w h pixels
void c_write() {
	size_t len = 0;
	char *path = proto.str(2);
	uint8_t *px = proto.bytes(5, &len);
	size_t m = leak.now();
	image.image_t *img = load(proto.num(3), proto.num(4), px);
	switch str (proto.arg(0)) {
		case "png": { proto.outb(png.write(img, path, proto.num(1))); }
		case "bmp": { proto.outb(bmp.write(img, path)); }
		case "ppm": {
			FILE *f = fopen(path, "wb");
			ppm.writeimg(img, f);
			proto.outb(fclose(f) == 0);
		}
		default: { proto.unknown(); }
	}
	image.free(img);
	proto.outb(leak.now() == m);
}

double sample(uint8_t *p) {
	int v = p[0] + 256 * p[1];
	if (v >= 32768) v -= 65536;
	return (double) v / 32767.0;
}

sound.clip_t *loadclip(size_t freq, uint8_t *p, size_t n) {
	sound.clip_t *c = sound.newclip(freq);
	for (size_t i = 0; i + 4 <= n; i += 4) {
		sound.samplef_t s = {.left = sample(p + i), .right = sample(p + i + 2)};
		sound.push_sample(c, s);
	}
	return c;
}

void dumpclip(sound.clip_t *c) {
	proto.outu(c->freq);
	proto.outu(c->nsamples);
	for (size_t i = 0; i < c->nsamples; i++) {
		proto.outd(c->samples[i].left);
		proto.outd(c->samples[i].right);
	}
}

// clip freq samples op...
void c_clip() {
	size_t n = 0;
	uint8_t *p = proto.bytes(1, &n);
	size_t m = leak.now();
	sound.clip_t *c = loadclip(proto.size(0), p, n);
	for (size_t i = 2; i < proto.count(); i++) {
		char *w = proto.arg(i);
		if (proto.fieldis(w, 0, "normalize")) {
			sound.normalize(c, proto.fielddbl(w, 1));
		} else if (proto.fieldis(w, 0, "transpose")) {
			sound.clip_t *c2 = sound.transpose(c, proto.fielddbl(w, 1));
			sound.freeclip(c);
			c = c2;
		} else {
			proto.unknown();
		}
	}
	dumpclip(c);
	sound.freeclip(c);
	proto.outb(leak.now() == m);
}

// wavwrite path samples
void c_wavwrite() {
	size_t n = 0;
	char *path = proto.str(0);
	uint8_t *p = proto.bytes(1, &n);
	size_t m = leak.now();
	FILE *f = fopen(path, "wb");
	wav.writer_t *w = wav.open_writer(f);
	for (size_t i = 0; i + 4 <= n; i += 4) {
		wav.write_sample(w, sample(p + i), sample(p + i + 2));
	}
	wav.close_writer(w);
	proto.outb(fclose(f) == 0);
	proto.outb(leak.now() == m);
}

void c_wavload() {
	char *path = proto.str(0);
	size_t m = leak.now();
	sound.clip_t *c = wav.loadfile(path);
	if (!c) {
		proto.outs("none");
	} else {
		dumpclip(c);
		sound.freeclip(c);
	}
	proto.outb(leak.now() == m);
}

int main() {
	while (proto.next()) {
		switch str (proto.cmd()) {
			case "img": { c_img(); }
			case "colormap": { c_colormap(); }
			case "mix": { outcolor(image.mix(color(proto.arg(0), 0), color(proto.arg(1), 0), proto.dbl(2))); }
			case "hsl": { outcolor(image.from_hsl(proto.dbl(0), proto.dbl(1), proto.dbl(2))); }
			case "hsv": { outcolor(image.from_hsv(proto.dbl(0))); }
			case "gray": { outcolor(image.gray(proto.num(0))); }
			case "write": { c_write(); }
			case "clip": { c_clip(); }
			case "wavwrite": { c_wavwrite(); }
			case "wavload": { c_wavload(); }
			default: { proto.unknown(); }
		}
		proto.end();
	}
	return 0;
}
