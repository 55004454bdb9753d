/* the child of the I05 workload: reports what it was given, then follows the script in argv[1] */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <stdint.h>
extern char **environ;
static void out(int fd, const char *p, size_t n) { while (n) { ssize_t r = write(fd, p, n); if (r <= 0) _exit(99); p += r; n -= (size_t)r; } }
static void num(uint64_t v) { char b[32]; int n = snprintf(b, sizeof b, "%llu\n", (unsigned long long)v); out(1, b, (size_t)n); }
static void str(const char *s) { num(strlen(s)); out(1, s, strlen(s)); }
int main(int argc, char **argv) {
	if (argc < 2) return 98;
	const char *s = argv[1]; int i;
	if (*s == 'h') { /* report */ num((uint64_t)argc); for (i = 0; i < argc; i++) str(argv[i]); int n = 0; while (environ[n]) n++; num((uint64_t)n); for (i = 0; i < n; i++) str(environ[i]);
		DIR *d = opendir("/proc/self/fd"); struct dirent *e; int extra = 0; while ((e = readdir(d))) { int f = atoi(e->d_name); if (e->d_name[0] != '.' && f > 2 && f != dirfd(d)) extra++; } closedir(d); num((uint64_t)extra); s++; }
	while (*s) { char c = *s++; char *en; uint64_t a = strtoull(s, &en, 10), b = 0; s = en; if (*s == ':') { b = strtoull(s + 1, &en, 10); s = en; } if (*s == ',') s++;
		switch (c) {
		case 'o': case 'e': { uint64_t x = b * 2654435761u + 12345, k; char buf[4096]; while (a) { size_t n = a > sizeof buf ? sizeof buf : (size_t)a; for (k = 0; k < n; k++) { x = x * 6364136223846793005ull + 1442695040888963407ull; buf[k] = (char)(x >> 56); } out(c == 'o' ? 1 : 2, buf, n); a -= n; } break; }
		case 'i': { char buf[8192]; uint64_t n = 0, h = 1469598103934665603ull; ssize_t r; while ((r = read(0, buf, sizeof buf)) > 0) { ssize_t k; for (k = 0; k < r; k++) { h ^= (unsigned char)buf[k]; h *= 1099511628211ull; } n += (uint64_t)r; } num(n); num(h); num(r == 0 ? 0 : 1); break; }
		case 'c': { char buf[8192]; ssize_t r; while ((r = read(0, buf, sizeof buf)) > 0) out(1, buf, (size_t)r); break; } /* cat */
		case 's': usleep((useconds_t)a * 1000); break;
		case 'x': exit((int)a);
		case 'k': kill(getpid(), (int)a); for (;;) pause();
		case 'C': close((int)a); break;
		default: return 97; } }
	return 0; }
