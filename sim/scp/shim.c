// Owns every input/output call of a real scp process. All decisions come from choice streams in
// a shared memory file prepared by the driver, so one file is one execution.
//
// stdin and stdout are connected to a scripted peer (a sender) or to a small model of a sink.
// Files are real but confined to a scratch directory: a call that would change anything outside
// it is recorded and refused, never carried out.
#define _GNU_SOURCE
#pragma GCC diagnostic ignored "-Wformat-truncation"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { S_IN, S_OUT, S_FW, S_FR, S_FS, NSTREAM };
// must match the driver
enum {
	F_IN_SHORT, F_IN_EINTR, F_IN_EIO, F_OUT_SHORT, F_OUT_EINTR, F_OUT_EIO, F_OUT_EPIPE,
	F_FW_SHORT, F_FW_EINTR, F_FW_EIO, F_FW_ENOSPC, F_FR_SHORT, F_FR_EINTR, F_FR_EIO, F_FR_TRUNC, F_FR_GROW,
	F_OPEN_EINTR, F_OPEN_FAIL, F_MKDIR_FAIL, F_KILL, F_SENDFILE, F_CHDIR_FAIL, NFAULT
};
#define HARD ((1u << F_IN_EIO) | (1u << F_OUT_EIO) | (1u << F_OUT_EPIPE) | (1u << F_FW_EIO) | (1u << F_FW_ENOSPC) | \
	(1u << F_FR_EIO) | (1u << F_FR_TRUNC) | (1u << F_OPEN_FAIL) | (1u << F_MKDIR_FAIL) | (1u << F_CHDIR_FAIL) | (1u << F_KILL))

struct seg { uint32_t off, len, need; };
struct hdr {
	uint32_t magic, peer, kill_at, end_error;
	uint32_t nseg, seg_off;
	uint32_t refuse_at, refuse_off, refuse_len; // sink model: answer number, its bytes
	uint32_t prob[NFAULT];
	struct { uint32_t off, len, pos; } st[NSTREAM];
	char root[256];
	// results
	uint32_t log_off, log_cap, log_len;
	uint32_t out_off, out_cap, out_len;
	uint32_t faults[NFAULT];
	uint32_t calls, in_read, deadlock, ahead, escaped, overflow, refused, after_refusal, acks_read;
	char escape[512];
};

static struct hdr *H;
static char *B;
static char fdk[1024]; // 1: file of ours being written, 2: being read
static int full, broken, eof_given;
// scripted peer
static uint32_t seg, seg_pos;
// sink model
static enum { K_START, K_HEAD, K_BODY, K_END } phase;
static uint64_t left, granted;
static char head[8192];
static uint32_t headlen;
static uint64_t grow;

#define REAL(ret, name, ...) \
	static ret (*real)(__VA_ARGS__); \
	if (!real) real = dlsym(RTLD_NEXT, #name)

static void logf_(const char *f, ...) {
	if (!H) return;
	char b[700];
	va_list a;
	va_start(a, f);
	int n = vsnprintf(b, sizeof b - 1, f, a);
	va_end(a);
	if (n > (int)sizeof b - 2) n = sizeof b - 2;
	b[n++] = '\n';
	if (H->log_len + n > H->log_cap) { H->overflow = 1; _exit(97); }
	memcpy(B + H->log_off + H->log_len, b, n);
	H->log_len += n;
}

static uint32_t choose(int s, uint32_t n) {
	if (n <= 1) return 0;
	uint32_t p = H->st[s].pos++;
	if (p >= H->st[s].len) return 0;
	return ((uint32_t *)(B + H->st[s].off))[p] % n;
}

static int hit(int s, int f) {
	if (!H->prob[f]) return 0;
	if (choose(s, 1000) < 1000 - H->prob[f]) return 0;
	H->faults[f]++;
	return 1;
}

static void step(void) {
	H->calls++;
	if (H->kill_at && H->calls == H->kill_at) {
		H->faults[F_KILL]++;
		logf_("killed");
		kill(getpid(), SIGKILL);
	}
	if (H->calls > 200000) { H->overflow = 2; _exit(97); }
}

static size_t part(int s, int f, size_t n) {
	if (n > 1 && hit(s, f)) return 1 + choose(s, n > 8 && choose(s, 2) ? 8 : n - 1);
	return n;
}

__attribute__((constructor)) static void init(void) {
	char *e = getenv("SIM_SCP_FD");
	if (!e) return;
	int fd = atoi(e);
	struct stat st;
	if (fstat(fd, &st)) return;
	B = mmap(0, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (B == MAP_FAILED) _exit(98);
	syscall(SYS_close, fd);
	H = (void *)B;
}

// ---- the other side ------------------------------------------------------------------------

static void sink_takes(const unsigned char *p, size_t n) {
	if (H->refused) H->after_refusal += n;
	while (n) {
		switch (phase) {
		case K_START: H->ahead = 1; logf_("sink: data before anything was acknowledged"); return;
		case K_HEAD:
			if (headlen >= sizeof head - 1) { H->ahead = 2; return; }
			head[headlen++] = *p++; n--;
			if (head[headlen - 1] == '\n') {
				head[headlen] = 0;
				unsigned long long sz; unsigned m; int used = 0;
				if (sscanf(head, "C%o %llu %n", &m, &sz, &used) != 2 || !used) { H->ahead = 3; logf_("sink: bad header"); }
				left = sz; headlen = 0;
				granted++;
				phase = K_BODY;
				logf_("sink: header, %llu bytes", sz);
			}
			break;
		case K_BODY:
			if (granted) { H->ahead = 4; logf_("sink: contents before the header was acknowledged"); return; }
			if (left) { size_t m = n < left ? n : left; left -= m; p += m; n -= m; }
			else {
				if (*p) { H->ahead = 5; logf_("sink: contents not ended by zero"); }
				p++; n--;
				granted++;
				phase = K_END;
				logf_("sink: complete");
			}
			break;
		case K_END: H->ahead = 6; logf_("sink: data before the file was acknowledged"); return;
		}
	}
}

static ssize_t in_read(void *buf, size_t n) {
	step();
	if (hit(S_IN, F_IN_EINTR)) { logf_("read 0: EINTR"); errno = EINTR; return -1; }
	if (hit(S_IN, F_IN_EIO)) { logf_("read 0: EIO"); errno = EIO; return -1; }
	if (H->peer) {
		if (phase == K_START && !granted) granted = 1;
		if (H->refused) { logf_("read 0: end"); return 0; }
		if (!granted) {
			if (eof_given++ > 50) _exit(96);
			H->deadlock = 1; logf_("read 0: waits for an acknowledgement nobody owes"); return 0;
		}
		uint32_t ack = H->acks_read++;
		if (ack == H->refuse_at) {
			H->refused = 1;
			logf_("read 0: refusal of %u bytes", H->refuse_len);
			size_t m = H->refuse_len < n ? H->refuse_len : n;
			memcpy(buf, B + H->refuse_off, m);
			return m;
		}
		if (n) ((char *)buf)[0] = 0;
		granted = 0;
		if (phase == K_START || phase == K_END) phase = K_HEAD;
		H->in_read++;
		logf_("read 0: acknowledgement %u", ack);
		return 1;
	}
	struct seg *s = (void *)(B + H->seg_off);
	while (seg < H->nseg && seg_pos == s[seg].len) { seg++; seg_pos = 0; }
	if (seg == H->nseg) {
		if (H->end_error) { H->faults[F_IN_EIO]++; logf_("read 0: ECONNRESET"); errno = ECONNRESET; return -1; }
		logf_("read 0: end");
		if (eof_given++ > 1000) { H->overflow = 3; _exit(97); }
		return 0;
	}
	if (H->out_len < s[seg].need) {
		// the sender waits for an acknowledgement that does not come; it gives up
		H->deadlock = 1;
		logf_("read 0: the sender waits for %u bytes, got %u", s[seg].need, H->out_len);
		seg = H->nseg;
		return 0;
	}
	size_t m = s[seg].len - seg_pos;
	if (m > n) m = n;
	m = part(S_IN, F_IN_SHORT, m);
	memcpy(buf, B + s[seg].off + seg_pos, m);
	seg_pos += m;
	H->in_read += m;
	logf_("read 0: %zu of %zu", m, n);
	return m;
}

static ssize_t out_write(const void *buf, size_t n) {
	step();
	if (broken) { errno = EPIPE; return -1; }
	if (hit(S_OUT, F_OUT_EINTR)) { logf_("write 1: EINTR"); errno = EINTR; return -1; }
	if (hit(S_OUT, F_OUT_EIO)) { logf_("write 1: EIO"); errno = EIO; return -1; }
	if (hit(S_OUT, F_OUT_EPIPE)) { broken = 1; logf_("write 1: EPIPE"); errno = EPIPE; return -1; }
	size_t m = part(S_OUT, F_OUT_SHORT, n);
	if (H->out_len + m > H->out_cap) { H->overflow = 4; _exit(97); }
	memcpy(B + H->out_off + H->out_len, buf, m);
	H->out_len += m;
	logf_("write 1: %zu of %zu, first byte %d, total %u", m, n, m ? ((unsigned char *)buf)[0] : -1, H->out_len);
	if (H->peer) sink_takes(buf, m);
	return m;
}

// ---- files ---------------------------------------------------------------------------------

/// Where a path leads; 0 if it cannot exist.
static int resolve(int dir, const char *path, char *out) {
	char full[PATH_MAX * 2], dirn[PATH_MAX * 2];
	if (path[0] == '/' || dir == AT_FDCWD) snprintf(full, sizeof full, "%s", path);
	else {
		char l[64];
		snprintf(l, sizeof l, "/proc/self/fd/%d", dir);
		ssize_t n = readlink(l, full, PATH_MAX);
		if (n < 0) return 0;
		snprintf(full + n, sizeof full - n, "/%s", path);
	}
	if (realpath(full, out)) return 1;
	char *slash = strrchr(full, '/');
	const char *base = slash ? slash + 1 : full;
	if (!slash) strcpy(dirn, ".");
	else if (slash == full) strcpy(dirn, "/");
	else { memcpy(dirn, full, slash - full); dirn[slash - full] = 0; }
	char tmp[PATH_MAX];
	if (!realpath(dirn, tmp)) return 0;
	snprintf(out, PATH_MAX, "%s/%s", tmp, base);
	return 1;
}

static int inside(const char *p) {
	size_t n = strlen(H->root);
	return !strncmp(p, H->root, n) && (p[n] == '/' || !p[n]);
}

/// May the file system be changed at this path?
static int allowed(const char *what, int dir, const char *path) {
	char r[PATH_MAX];
	int e = errno;
	if (!resolve(dir, path, r)) { errno = e; return 1; } // the call itself will fail
	if (inside(r)) { errno = e; return 1; }
	logf_("%s %s: outside", what, r);
	if (!H->escaped) snprintf(H->escape, sizeof H->escape, "%s %.400s", what, r);
	H->escaped = 1;
	errno = EACCES;
	return 0;
}

/// A path for the log: the scratch directory has a different name each time.
static const char *rel(const char *p) {
	size_t n = strlen(H->root);
	return strncmp(p, H->root, n) ? p : p + n;
}

static int opened(const char *path, int flags, int fd, int wr, const char *r) {
	logf_("open %.300s %s: %d", rel(r), wr ? "for writing" : "for reading", fd < 0 ? -errno : 0);
	if (fd >= 0 && fd < 1024) fdk[fd] = wr ? 1 : 2;
	(void)path; (void)flags;
	return fd;
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
	REAL(int, openat, int, const char *, int, ...);
	if (!H) return real(dir, path, flags, mode);
	int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
	char r[PATH_MAX];
	int e = errno;
	int ok = resolve(dir, path, r);
	errno = e;
	if (!ok) snprintf(r, sizeof r, "%.4000s", path);
	else if (!inside(r)) {
		if (wr && !allowed("open", dir, path)) return -1;
		return real(dir, path, flags, mode);
	}
	step();
	if (hit(S_FS, F_OPEN_EINTR)) { logf_("open %.300s: EINTR", rel(r)); errno = EINTR; return -1; }
	if (hit(S_FS, F_OPEN_FAIL)) {
		static const int es[] = { EACCES, EMFILE, ENOSPC, EROFS, EIO };
		errno = es[choose(S_FS, 5)];
		logf_("open %.300s: refused", rel(r));
		return -1;
	}
	return opened(path, flags, real(dir, path, flags, mode), wr, r);
}

#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, unsigned); va_end(a); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) {
	MODE(flags)
	if (!H) return syscall(SYS_openat, d, p, flags, mode);
	return do_open(d, p, flags, mode);
}
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
	REAL(int, close, int);
	if (H && fd >= 0 && fd < 1024 && fdk[fd]) { step(); logf_("close"); fdk[fd] = 0; }
	return real(fd);
}

static ssize_t real_read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); return real(fd, b, n); }
static ssize_t real_write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); return real(fd, b, n); }
static int ours(int fd, int k) { return H && fd >= 0 && fd < 1024 && fdk[fd] == k; }

// Nobody waits for gigabytes: reading far into a huge file fails.
static int too_far(int fd, size_t *n) {
	static size_t total;
	struct stat st;
	if (fstat(fd, &st) || st.st_size < 1 << 30) return 0;
	if (*n > 1 << 16) *n = 1 << 16;
	total += *n;
	if (total <= 1 << 20) return 0;
	H->faults[F_FR_EIO]++;
	logf_("read file: EIO");
	errno = EIO;
	return 1;
}

ssize_t read(int fd, void *b, size_t n) {
	if (!H) return real_read(fd, b, n);
	if (fd == 0) return in_read(b, n);
	if (!ours(fd, 2)) return real_read(fd, b, n);
	step();
	if (too_far(fd, &n)) return -1;
	if (hit(S_FR, F_FR_EINTR)) { logf_("read file: EINTR"); errno = EINTR; return -1; }
	if (hit(S_FR, F_FR_EIO)) { logf_("read file: EIO"); errno = EIO; return -1; }
	if (n && hit(S_FR, F_FR_TRUNC)) {
		// somebody truncates the file now; no harm if it was at its end
		struct stat st;
		if (!fstat(fd, &st) && lseek(fd, 0, SEEK_CUR) >= st.st_size) H->faults[F_FR_TRUNC]--;
		lseek(fd, 0, SEEK_END);
		H->prob[F_FR_GROW] = 0;
		logf_("read file: truncated");
		return 0;
	}
	size_t m = part(S_FR, F_FR_SHORT, n);
	ssize_t r = real_read(fd, b, m);
	if (r == 0 && n && H->prob[F_FR_GROW] && grow < 100000 && hit(S_FR, F_FR_GROW)) {
		// somebody appends to the file while it is being sent
		r = 1 + choose(S_FR, n < 3000 ? n : 3000);
		if ((size_t)r > n) r = n;
		memset(b, 'G', r);
		grow += r;
	}
	logf_("read file: %zd of %zu", r, n);
	return r;
}

ssize_t write(int fd, const void *b, size_t n) {
	if (!H) return real_write(fd, b, n);
	if (fd == 1) return out_write(b, n);
	if (!ours(fd, 1)) return real_write(fd, b, n);
	if (H->kill_at && H->calls + 1 == H->kill_at && n > 1) {
		// torn: part of it reaches the file
		size_t m = choose(S_FW, n);
		if (m) real_write(fd, b, m);
		logf_("write file: torn after %zu of %zu", m, n);
	}
	step();
	if (full) { errno = ENOSPC; return -1; }
	if (hit(S_FW, F_FW_EINTR)) { logf_("write file: EINTR"); errno = EINTR; return -1; }
	if (hit(S_FW, F_FW_EIO)) { logf_("write file: EIO"); errno = EIO; return -1; }
	if (hit(S_FW, F_FW_ENOSPC)) {
		full = 1;
		size_t m = choose(S_FW, n);
		logf_("write file: disk full after %zu of %zu", m, n);
		if (m) return real_write(fd, b, m);
		errno = ENOSPC;
		return -1;
	}
	size_t m = part(S_FW, F_FW_SHORT, n);
	ssize_t r = real_write(fd, b, m);
	logf_("write file: %zd of %zu", r, n);
	return r;
}

ssize_t readv(int fd, const struct iovec *v, int c) {
	REAL(ssize_t, readv, int, const struct iovec *, int);
	if (!H || (fd != 0 && !ours(fd, 2))) return real(fd, v, c);
	for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
	return read(fd, 0, 0);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
	REAL(ssize_t, writev, int, const struct iovec *, int);
	if (!H || (fd != 1 && !ours(fd, 1))) return real(fd, v, c);
	for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
	return write(fd, 0, 0);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
	REAL(ssize_t, pread64, int, void *, size_t, off64_t);
	if (ours(fd, 2)) { step(); if (too_far(fd, &n)) return -1; n = part(S_FR, F_FR_SHORT, n); }
	return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
	REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
	if (ours(fd, 1)) {
		step();
		if (full || hit(S_FW, F_FW_ENOSPC)) { full = 1; errno = ENOSPC; return -1; }
		n = part(S_FW, F_FW_SHORT, n);
	}
	return real(fd, b, n, o);
}

// ---- copying inside the kernel -------------------------------------------------------------

ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
	if (!H) { errno = ENOSYS; return -1; }
	if (out != 1 || !ours(in, 2) || off || !hit(S_OUT, F_SENDFILE)) { logf_("sendfile: not supported"); errno = ENOSYS; return -1; }
	char b[4096];
	if (n > sizeof b) n = sizeof b;
	n = part(S_FR, F_FR_SHORT, n);
	off64_t at = lseek(in, 0, SEEK_CUR);
	ssize_t r = real_read(in, b, n);
	if (r <= 0) { logf_("sendfile: %zd", r); return r; }
	step();
	uint32_t p = H->prob[F_OUT_EINTR];
	H->prob[F_OUT_EINTR] = 0;
	ssize_t w = out_write(b, r);
	H->prob[F_OUT_EINTR] = p;
	lseek(in, at + (w > 0 ? w : 0), SEEK_SET);
	return w;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, off, n); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
	(void)a; (void)b; (void)c; (void)d; (void)e; (void)f;
	errno = ENOSYS;
	return -1;
}
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
	(void)a; (void)b; (void)c; (void)d; (void)e; (void)f;
	errno = ENOSYS;
	return -1;
}

// ---- everything else that changes files ----------------------------------------------------

static int do_mkdir(int d, const char *p, mode_t m) {
	REAL(int, mkdirat, int, const char *, mode_t);
	if (!H) return real(d, p, m);
	if (!allowed("mkdir", d, p)) return -1;
	step();
	int e = errno;
	struct stat st;
	int there = !fstatat(d, p, &st, 0);
	errno = e;
	if (!there && hit(S_FS, F_MKDIR_FAIL)) {
		static const int es[] = { EACCES, ENOSPC, EROFS, EIO };
		errno = es[choose(S_FS, 4)];
		logf_("mkdir %.300s: refused", rel(p));
		return -1;
	}
	int r = real(d, p, m);
	logf_("mkdir %.300s: %d", rel(p), r < 0 ? -errno : 0);
	return r;
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) {
	if (!H) return syscall(SYS_mkdirat, d, p, m);
	return do_mkdir(d, p, m);
}
int chdir(const char *p) {
	REAL(int, chdir, const char *);
	if (H) {
		step();
		if (hit(S_FS, F_CHDIR_FAIL)) { logf_("chdir: refused"); errno = EACCES; return -1; }
		logf_("chdir %.300s", rel(p));
	}
	return real(p);
}

#define GUARD1(ret, name, sig, dir, path, ...) \
	ret name sig { REAL(ret, name, __VA_ARGS__); \
		if (H) { if (!allowed(#name, dir, path)) return -1; step(); logf_(#name " %.300s", rel(path)); } 
GUARD1(int, unlink, (const char *p), AT_FDCWD, p, const char *) return real(p); }
GUARD1(int, rmdir, (const char *p), AT_FDCWD, p, const char *) return real(p); }
GUARD1(int, unlinkat, (int d, const char *p, int f), d, p, int, const char *, int) return real(d, p, f); }
GUARD1(int, chmod, (const char *p, mode_t m), AT_FDCWD, p, const char *, mode_t) return real(p, m); }
GUARD1(int, fchmodat, (int d, const char *p, mode_t m, int f), d, p, int, const char *, mode_t, int) return real(d, p, m, f); }
GUARD1(int, chown, (const char *p, uid_t u, gid_t g), AT_FDCWD, p, const char *, uid_t, gid_t) return real(p, u, g); }
GUARD1(int, lchown, (const char *p, uid_t u, gid_t g), AT_FDCWD, p, const char *, uid_t, gid_t) return real(p, u, g); }
GUARD1(int, truncate, (const char *p, off_t n), AT_FDCWD, p, const char *, off_t) return real(p, n); }
GUARD1(int, truncate64, (const char *p, off64_t n), AT_FDCWD, p, const char *, off64_t) return real(p, n); }
GUARD1(int, symlink, (const char *o, const char *p), AT_FDCWD, p, const char *, const char *) return real(o, p); }
GUARD1(int, symlinkat, (const char *o, int d, const char *p), d, p, const char *, int, const char *) return real(o, d, p); }
GUARD1(int, mkfifo, (const char *p, mode_t m), AT_FDCWD, p, const char *, mode_t) return real(p, m); }
GUARD1(int, mknod, (const char *p, mode_t m, dev_t v), AT_FDCWD, p, const char *, mode_t, dev_t) return real(p, m, v); }
GUARD1(int, utimensat, (int d, const char *p, const struct timespec t[2], int f), d, p, int, const char *, const struct timespec *, int) return real(d, p, t, f); }

int rename(const char *a, const char *b) {
	REAL(int, rename, const char *, const char *);
	if (H && (!allowed("rename", AT_FDCWD, a) || !allowed("rename", AT_FDCWD, b))) return -1;
	if (H) { step(); logf_("rename %.200s %.200s", rel(a), rel(b)); }
	return real(a, b);
}
int renameat(int c, const char *a, int d, const char *b) {
	REAL(int, renameat, int, const char *, int, const char *);
	if (H && (!allowed("rename", c, a) || !allowed("rename", d, b))) return -1;
	if (H) step();
	return real(c, a, d, b);
}
int link(const char *a, const char *b) {
	REAL(int, link, const char *, const char *);
	if (H && (!allowed("link", AT_FDCWD, a) || !allowed("link", AT_FDCWD, b))) return -1;
	if (H) step();
	return real(a, b);
}
int linkat(int c, const char *a, int d, const char *b, int f) {
	REAL(int, linkat, int, const char *, int, const char *, int);
	if (H && (!allowed("link", c, a) || !allowed("link", d, b))) return -1;
	if (H) step();
	return real(c, a, d, b, f);
}

static int no_exec(void) {
	if (!H->escaped) strcpy(H->escape, "starts another program");
	H->escaped = 1;
	errno = EPERM;
	return -1;
}
int execve(const char *p, char *const a[], char *const e[]) {
	REAL(int, execve, const char *, char *const[], char *const[]);
	return H ? no_exec() : real(p, a, e);
}
int execvp(const char *p, char *const a[]) {
	REAL(int, execvp, const char *, char *const[]);
	return H ? no_exec() : real(p, a);
}
int posix_spawnp(pid_t *pid, const char *f, const void *a, const void *b, char *const c[], char *const d[]) {
	(void)pid; (void)f; (void)a; (void)b; (void)c; (void)d;
	return H ? no_exec(), EPERM : ENOSYS;
}
int posix_spawn(pid_t *pid, const char *f, const void *a, const void *b, char *const c[], char *const d[]) {
	return posix_spawnp(pid, f, a, b, c, d);
}

long syscall(long n, ...) {
	va_list a;
	va_start(a, n);
	long x[6];
	for (int i = 0; i < 6; i++) x[i] = va_arg(a, long);
	va_end(a);
	if (H) {
		switch (n) {
		case SYS_copy_file_range: case SYS_splice: errno = ENOSYS; return -1;
		case SYS_sendfile: return sendfile64(x[0], x[1], (void *)x[2], x[3]);
		case SYS_renameat2: errno = ENOSYS; return -1;
		case SYS_openat2: errno = ENOSYS; return -1;
		}
	}
	long r;
	register long r10 __asm__("r10") = x[3];
	register long r8 __asm__("r8") = x[4];
	register long r9 __asm__("r9") = x[5];
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(x[0]), "S"(x[1]), "d"(x[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (r < 0 && r > -4096) { errno = -r; return -1; }
	return r;
}
