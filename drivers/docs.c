#import io.c
#import protocols/http
#import protocols/cgi
#import formats/xml
#import formats/srt
#import formats/vtt
#import formats/cue
#import reader
#import writer
#import time

#include <unistd.h>

http.request_t *REQ = NULL;
http.request_t *GOT = NULL; // used again and again
xml.xml *X = NULL;
srt.reader_t *SR = NULL;
srt.block_t *SB = NULL;
vtt.reader_t *VR = NULL;
FILE *VF = NULL;

bool is(const char *a, *b) {
	return strcmp(a, b) == 0;
}

void savefile(const char *path) {
	io.bytes_t x = io.bytes();
	FILE *f = fopen(path, "wb");
	if (x.n > 0) fwrite(x.b, 1, x.n, f);
	fclose(f);
	free(x.b);
}

void put_or_null(const char *s) {
	if (s) io.puts_(s);
	else printf("NULL ");
}

void do_http(const char *op) {
	if (is(op, "request")) {
		io.bytes_t x = io.bytes();
		reader.t *re = reader.static_buffer(x.b, x.n);
		if (!GOT) GOT = calloc!(1, sizeof(http.request_t));
		http.request_t *r = GOT;
		bool ok = http.read_request(re, r);
		printf("%d ", ok);
		if (ok) {
			io.puts_(r->method);
			io.puts_(r->uri);
			io.puts_(r->version);
			io.puts_(r->path);
			io.puts_(r->query);
			io.puts_(r->filename);
			printf("%zu ", r->nheaders);
			for (size_t i = 0; i < r->nheaders; i++) {
				io.puts_(r->headers[i].name);
				io.puts_(r->headers[i].value);
			}
		}
		reader.free(re);
		free(x.b);
	} else if (is(op, "response")) {
		io.bytes_t x = io.bytes();
		reader.t *re = reader.static_buffer(x.b, x.n);
		http.response_t *r = calloc!(1, sizeof(http.response_t));
		bool ok = http.parse_response(re, r);
		printf("%d ", ok);
		if (ok) {
			io.puts_(r->version);
			printf("%d %zu ", r->status, r->nheaders);
			for (size_t i = 0; i < r->nheaders; i++) {
				io.puts_(r->headers[i].name);
				io.puts_(r->headers[i].value);
			}
			io.puts_(r->body);
		}
		reader.free(re);
		free(r);
		free(x.b);
	} else if (is(op, "method")) {
		char *s = io.str();
		printf("%d ", http.method_from_string(s));
		free(s);
	} else if (is(op, "new") && io.more()) {
		int m = io.num();
		char *s = io.str();
		REQ = http.newreq(m, s);
		printf("%d ", REQ != NULL);
		free(s);
	} else if (is(op, "param")) {
		char *name = io.str();
		io.bytes_t x = io.bytes();
		http.reqparam(REQ, name, (char *) x.b, x.n);
		printf("1 ");
		free(name);
		free(x.b);
	} else if (is(op, "header")) {
		char *name = io.str();
		char *val = io.str();
		printf("%d ", http.set_header(REQ, name, val));
		free(name);
		free(val);
	} else if (is(op, "get")) {
		char *name = io.str();
		http.header_t *h = http.get_header(REQ, name);
		if (h) io.puts_(h->value);
		else printf("NULL ");
		free(name);
	} else if (is(op, "write")) {
		size_t cap = 600000;
		uint8_t *buf = calloc!(cap, 1);
		FILE *f = tmpfile();
		writer.t *w = writer.file(f);
		int n = http.write_request(w, REQ);
		printf("%d ", n);
		fflush(f);
		rewind(f);
		size_t len = fread(buf, 1, cap, f);
		io.put(buf, len);
		free(buf);
		writer.free(w);
		fclose(f);
	} else if (is(op, "free") && REQ) {
		http.freereq(REQ);
		REQ = NULL;
	}
}

void do_cgi(const char *op) {
	if (!is(op, "head")) return;
	io.bytes_t x = io.bytes();
	cgi.head_t *h = calloc!(1, sizeof(cgi.head_t));
	size_t n = cgi.parse_head(h, (char *) x.b, x.n);
	printf("%zu ", n);
	if (n > 0) {
		printf("%zu ", h->nheaders);
		for (size_t i = 0; i < h->nheaders; i++) {
			io.puts_(h->headers[i].name);
			io.puts_(h->headers[i].value);
		}
	}
	free(h);
	free(x.b);
}

void do_xml(const char *op) {
	if (is(op, "open")) {
		savefile("xml.tmp");
		X = xml.xml_open("xml.tmp");
		printf("%d ", X != NULL);
	} else if (is(op, "name")) {
		put_or_null(xml.xml_nodename(X));
	} else if (is(op, "attr")) {
		char *s = io.str();
		put_or_null(xml.xml_attr(X, s));
		free(s);
	} else if (is(op, "enter")) {
		printf("%d ", xml.xml_enter(X));
	} else if (is(op, "next")) {
		xml.xml_next(X);
		printf("1 ");
	} else if (is(op, "leave")) {
		xml.xml_leave(X);
		printf("1 ");
	} else if (is(op, "free") && X) {
		xml.xml_close(X);
		X = NULL;
	}
}

void do_srt(const char *op) {
	if (is(op, "open")) {
		savefile("srt.tmp");
		if (!OS.freopen("srt.tmp", "rb", stdin)) panic("freopen");
		if (!SB) SB = calloc!(1, sizeof(srt.block_t));
		if (SR) free(SR);
		SR = calloc!(1, sizeof(srt.reader_t));
		printf("1 ");
	} else if (is(op, "read")) {
		bool ok = srt.readblock(SR, SB);
		printf("%d ", ok);
		if (ok) {
			printf("%d ", SB->index);
			io.puts_(SB->range);
			io.puts_(SB->text);
			printf("%ld %ld ", time.dur_us(&SB->begin) / 1000, time.dur_us(&SB->end) / 1000);
		}
	} else if (is(op, "free") && SR) {
		free(SR);
		SR = NULL;
		free(SB);
		SB = NULL;
	}
}

void do_vtt(const char *op) {
	if (is(op, "open")) {
		savefile("vtt.tmp");
		VF = fopen("vtt.tmp", "rb");
		VR = vtt.reader(VF);
		printf("%d ", vtt.err(VR) != NULL);
	} else if (is(op, "err")) {
		printf("%d ", vtt.err(VR) != NULL);
	} else if (is(op, "read")) {
		bool ok = vtt.read(VR);
		printf("%d ", ok);
		if (ok) {
			io.puts_(VR->timerange);
			io.puts_(VR->text);
		}
	} else if (is(op, "free") && VR) {
		vtt.freereader(VR);
		fclose(VF);
		VR = NULL;
	}
}

void do_cue(const char *op) {
	if (!is(op, "parse")) return;
	char *s = io.str();
	cue.err_t err = {};
	cue.cue_t *c = cue.parse(s, &err);
	printf("%d ", c != NULL && !err.set);
	if (c) {
		int n = cue.cue_ntracks(c);
		printf("%d ", n);
		for (int i = 0; i < n; i++) {
			cue.track_t *t = cue.cue_track(c, i);
			int64_t us = cue.pos_us(t);
			io.puts_(t->title);
			printf("%ld %ld ", us / 1000000, us % 1000000);
		}
		cue.cue_free(c);
	}
	free(s);
}

int main() {
	io.own_stdin();
	while (io.line()) {
		const char *kind = io.word();
		const char *op = io.word();
		if (is(kind, "http")) do_http(op);
		else if (is(kind, "cgi")) do_cgi(op);
		else if (is(kind, "xml")) do_xml(op);
		else if (is(kind, "srt")) do_srt(op);
		else if (is(kind, "vtt")) do_vtt(op);
		else if (is(kind, "cue")) do_cue(op);
		io.end();
	}
	return 0;
}
